"""W01..W06: what the other generators build around the generated C++ code."""
import os, re, subprocess
from .. import build, codec, common, cpp, emb, frames, gen, swig, testapp, wire, wrapc
from ..common import Violation, rng, seed_of
from .cpp import failed, judged, seen_kinds, kinds, wreck, transport, drop

PROFILES = {
    "W01": [(3, dict(nmsgs=3, nfields=6)), (1, dict(nmsgs=5, nfields=4, depth=3)), (1, dict(nmsgs=3, nfields=6, maxver=5, ver_mult=2.0)), (1, dict(nmsgs=6, nfields=2, kinds=["int", "enum", "set", "float"])),
            (1, dict(nmsgs=3, nfields=6, kinds=["list", "variant", "bundle", "optional", "ref", "string", "data"], reuse_p=0.3))],
}


def schema(pid, seed):
    r = rng(pid, seed)
    o = dict(code=True, xattrs=False)
    o.update(r.choice([o for w, o in PROFILES[pid] for _ in range(w)]))
    s = gen.make(seed_of(pid, seed) % (1 << 31), **o)
    return r, s, [("s.xml", gen.to_files(s)[0])]


# ---------------------------------------------------------------------------------- C interface
def cstate(m, name):
    w = m.write()
    o = dict(v=m.tree(), t=m.t.tree() if m.t else [], l=m.length(), ok=wire.valid(m), we=0, w=w.hex(), n=name)
    if o["l"]:
        o["wo"] = codec.OVERFLOW
    return o


def enumfix(x, e, o):
    """values of C99 enums are int, the enum type may be unsigned where the values of the field are signed"""
    if isinstance(x, codec.Enum) and isinstance(o, int) and isinstance(e, int):
        return e if (o - e) % (1 << 32) == 0 else o
    return o


def cvalues(c, x, v):
    """only values which the C99 enum types can carry can be set"""
    if isinstance(x, (codec.Opt, codec.VOpt)):
        return dict(m=v["m"], f=cvalues(c, x.x, v["f"]))
    if isinstance(x, (codec.Fields, codec.Bitfield)):
        return [cvalues(c, y, w) for y, w in zip(x.m, v)]
    if isinstance(x, codec.Variant) and v["f"] is not None:
        return dict(i=v["i"], f=cvalues(c, c.inner(x.ms[v["i"]]), v["f"]))
    if isinstance(x, codec.Seq) and not x.raw:
        return [cvalues(c, x.elem(), w) for w in v]
    if isinstance(x, codec.Enum) and x.size == 64 and not 0 <= v < (1 << 31):
        return v & (0x3f if x.signed else 0x7fffffff)
    return v


def fixtree(c, x, e, o):
    if isinstance(x, (codec.Opt, codec.VOpt)):
        return dict(m=o["m"], f=fixtree(c, x.x, e["f"], o["f"])) if isinstance(o, dict) and isinstance(e, dict) else o
    if isinstance(x, (codec.Fields, codec.Bitfield)) and len(e) == len(o) == len(x.m):
        return [fixtree(c, y, a, b) for y, a, b in zip(x.m, e, o)]
    if isinstance(x, codec.Variant) and e["f"] is not None and o["f"] is not None and e["i"] == o["i"]:
        return dict(i=o["i"], f=fixtree(c, c.inner(x.ms[e["i"]]), e["f"], o["f"]))
    if isinstance(x, codec.Seq) and not x.raw and len(e) == len(o):
        return [fixtree(c, x.elem(), a, b) for a, b in zip(e, o)]
    return enumfix(x, e, o)


def cmp_state(c, m, e, o):
    if e["ok"] is None:
        e = dict(e, ok=o.get("ok"))
    try:
        o = dict(o, v=[fixtree(c, x, a, b) for x, a, b in zip(m.m, e["v"], o["v"])] if len(m.m) == len(o["v"]) else o["v"])
        if m.t and len(m.t.m) == len(o["t"]):
            o["t"] = [fixtree(c, x, a, b) for x, a, b in zip(m.t.m, e["t"], o["t"])]
    except (KeyError, TypeError):
        pass
    return wire.diff(e, o)


def listver(x):
    """has list elements whose state depends on the version: the library updates the version of elements when the list does, the C interface resizes the storage"""
    if isinstance(x, codec.Seq):
        return not x.raw and (x.elem().dep() or listver(x.elem()))
    if isinstance(x, (codec.Opt, codec.VOpt)):
        return listver(x.x)
    if isinstance(x, (codec.Fields, codec.Bitfield)):
        return any(map(listver, x.m))
    if isinstance(x, codec.Variant):
        return x.i >= 0 and listver(x.x)
    return False


def c_cmds(r, d, per):
    """[(what, message, line, judgement)]"""
    out = []
    for k, (p, M, N, it, i, inst) in enumerate(d.msgs):
        if inst is None:
            continue
        nm = M["disp"] or M["name"]

        def make():
            m = codec.Message(d.c, M, i)
            return m

        try:
            m = make()
            if not any(x.dep() for x in m.m):
                # otherwise depends on when the library updates the version of the fields
                out.append(("D", M["name"], "D %d" % k, lambda o, m=m, nm=nm: cmp_state(d.c, m, cstate(m, nm), o)))
        except codec.Unsupported:
            continue
        for _ in range(per):
            try:
                m = make()
                tt = transport(r, d.c, m)
                if m.t:
                    tt = cvalues(d.c, m.t, tt)
                    m.t.load(tt)
                v = cvalues(d.c, m, wire.rand(r, m))
                tk = []
                if m.t:
                    d.tokens(m.t, tt, tk)
                tt_tok = list(tk)
                d.tokens(m, v, tk)
                m.load(v)
                e = cstate(m, nm)
                if any(map(listver, m.m)):
                    e["ok"] = None
                b = m.write()
            except codec.Unsupported:
                continue
            out.append(("W", M["name"], "W %d %s" % (k, " ".join(tk)), lambda o, m=m, e=e: cmp_state(d.c, m, e, o)))
            b = wreck(r, b)
            m2 = make()
            if m2.t:
                m2.t.load(tt)
            try:
                es, pos = m2.read(b, 0, len(b))
                e = None if es else cstate(m2, nm)
            except codec.Unsupported:
                continue

            def rd(o, m2=m2, e=e, es=es, pos=pos):
                if es:
                    return None if o["e"] else "accepted, should be refused"
                if o["e"] or o["c"] not in (pos, None):
                    return "status %s after %s bytes, expected 0 after %s" % (o["e"], o["c"], pos)
                return cmp_state(d.c, m2, e, o["s"])
            out.append(("R", M["name"], "R %d %s" % (k, " ".join(tt_tok + [b.hex() or "-"])), rd))
    return out


def c_frames(r, d, per):
    out = []
    for n, (F, i, fm, mine) in enumerate(d.frames):
        for _ in range(per):
            x = r.choice(mine)
            k = d.msgs.index(x)
            try:
                m = codec.Message(d.c, x[1], i)
                tt = transport(r, d.c, m)
                if m.t:
                    tt = cvalues(d.c, m.t, tt)
                    m.t.load(tt)
                v = cvalues(d.c, m, wire.rand(r, m))
                m.load(v)
                tk = []
                if m.t:
                    d.tokens(m.t, tt, tk)
                d.tokens(m, v, tk)
                b = fm.write(m)
            except codec.Unsupported:
                continue
            e = dict(l=len(b), e=0, w=b.hex())
            out.append(("F", F["name"], "F %d %d %s" % (n, k, " ".join(tk)), lambda o, e=e: wire.diff(e, o)))
            if r.random() < 0.3 and b:
                b = bytearray(b)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                b = bytes(b)
            try:
                es, c, which, q = fm.read(b)
                e = None if es else cstate(q, q.f["disp"] or q.f["name"])
            except codec.Unsupported:
                continue
            cmd = r.choice("XXXO")

            def rx(o, es=es, c=c, which=which, q=q, e=e, cmd=cmd, mine=mine, fm=fm):
                if es:
                    # resynchronisation is the business of the library
                    return None
                if not o["h"]:
                    return "no handler called, expected %s" % q.f["name"]
                h = o["h"][0]
                for k in ("h1", "h2"):
                    if o.get(k, [h]) != [h]:
                        return "processing of a single message calls %s, expected %s" % (str(o[k])[:300], str(h)[:300])
                if cmd == "O":
                    return None if h == dict(i=-1) else "not passed to the handler of the interface"
                w = d.msgs.index(mine[[id(y[1]) for y in mine].index(id(fm.msgs[which]))])
                if h.get("i") != w:
                    return "handler of message %d called, expected %d" % (h.get("i"), w)
                return cmp_state(d.c, q, e, h["s"])
            out.append((cmd, F["name"], "%s %d %s" % (cmd, n, b.hex() or "-"), rx))
    return out


def w01_job(seed, st, per=12, nsrc=3):
    @judged
    def job(seed, st):
        r, s, texts = schema("W01", seed)
        try:
            p = cpp.Proj(texts)
        except cpp.Failed as e:
            return [failed(e, texts)]
        try:
            cout = os.path.join(p.dir, "c")
            p.generate("c", out=cout)
            d = wrapc.CDriver(p, s.model, cout)
            st.count["C headers compiled"] += d.headers(r, nsrc)
            d.build()
            cmds = c_cmds(r, d, per) + c_frames(r, d, per)
            outs = p.talk(d.exe, [c[2] for c in cmds])
            st.count["schemas"] += 1
            st.count["C types"] += len(d.done)
            st.count["frames"] += len(d.frames)
            res, seen = [], set()
            for (what, nm, line, j), o in zip(cmds, outs):
                df = j(o)
                st.case(nm + line, **{"cmd " + what: 1})
                if df and (what, nm) not in seen:
                    seen.add((what, nm))
                    key = "%s %s %s" % (what, nm, re.sub(r"expected.*", "", df))
                    res.append(Violation("C interface, %s, command %s: %s" % (nm, line[:300], df), key,
                                         dict(texts, case=texts[-1][1], **{"command.txt": line, "observed.json": wire.js(o), "driver.c": d.src})))
            if len(st.samples) < 2 and cmds:
                st.samples.append(dict(command=cmds[-1][2][:300], answer=str(outs[-1])[:300]))
            return res[:3]
        except wrapc.Missing as e:
            return [Violation("C interface: %s" % e, "missing: %s" % e, dict(texts, case=texts[-1][1]))]
        except cpp.Failed as e:
            return [failed(e, texts)]
        finally:
            p.close()
    return job(seed, st)


ASSUME = ["the COMMS library itself is not available offline: the generated code is compiled against /verif/mini/comms, a stand-in "
          "written from the documented behaviour of the library's options and fields",
          "what a declaration leaves unspecified (codec.Unsupported) is not judged",
          "generated code runs with ASan and UBSan; asserts of the generators are enabled"]


def w01(ck):
    build.ensure(["comms", "c"])
    ck.rule = ("a case is one command (default construction, set through the C accessors + read back + write, read of whole or corrupted bytes, "
               "frame write, frame input with handlers) executed by a C program which uses only the generated C functions, compared with the "
               "reference codec; distinct = distinct message or frame and input")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(w01_job, [base + k for k in range(ck.scale(50, 1500))])


CHECKS = {"W01": w01}


# ---------------------------------------------------------------------------------- swig
PROFILES["W03"] = PROFILES["W01"]


def w03_job(seed, st, per=12):
    @judged
    def job(seed, st):
        r, s, texts = schema("W03", seed)
        try:
            p = cpp.Proj(texts)
        except cpp.Failed as e:
            return [failed(e, texts)]
        try:
            out = os.path.join(p.dir, "sw")
            extra, prefix = ((), ()) if r.random() < 0.8 else (("--force-main-ns-in-names",), ("proto",))
            p.generate("swig", out=out, extra=extra)
            d = swig.SwigDriver(p, s.model, out, prefix=prefix)
            st.count["declared classes"] += len(d.i.classes())
            st.count["declared functions compiled"] += sum(len(c.methods) for c in d.i.classes())
            d.build()
            cmds = c_cmds(r, d, per) + c_frames(r, d, per)
            outs = p.talk(d.exe, [c[2] for c in cmds])
            st.count["schemas"] += 1
            st.count["frames"] += len(d.frames)
            res, seen = [], set()
            for (what, nm, line, j), o in zip(cmds, outs):
                df = j(o)
                st.case(nm + line, **{"cmd " + what: 1})
                if df and (what, nm) not in seen:
                    seen.add((what, nm))
                    key = "%s %s %s" % (what, nm, re.sub(r"expected.*", "", df))
                    res.append(Violation("swig interface, %s, command %s: %s" % (nm, line[:300], df), key,
                                         dict(texts, case=texts[-1][1], **{"command.txt": line, "observed.json": wire.js(o), "driver.cpp": d.src})))
            if len(st.samples) < 2 and cmds:
                st.samples.append(dict(command=cmds[-1][2][:300], answer=str(outs[-1])[:300]))
            return res[:3]
        except (swig.Missing, swig.Bad) as e:
            return [Violation("swig interface: %s" % e, "swig: %s" % e, dict(texts, case=texts[-1][1]))]
        except cpp.Failed as e:
            return [failed(e, texts)]
        finally:
            p.close()
    return job(seed, st)


def w03(ck):
    build.ensure(["comms", "swig"])
    ck.rule = ("a case is one command (default construction, set through the declared functions + read back + write, read of whole or corrupted bytes, frame "
               "write, frame input with handlers) executed by a program which uses only what the interface declares, on top of the code the interface "
               "carries, compared with the reference codec; every declared function, type and enumerator is compared with the code at compile time")
    ck.assumptions = ASSUME + ["SWIG is not available: vf/swig.py reads the interface the way SWIG does for the constructs the generator uses"]
    base = ck.seed * 1000003
    ck.pmap(w03_job, [base + k for k in range(ck.scale(42, 1500))])


CHECKS["W03"] = w03


# ---------------------------------------------------------------------------------- test application
PROFILES["W05"] = [(3, dict(nmsgs=4, nfields=6)), (1, dict(nmsgs=6, nfields=4, depth=3)), (1, dict(nmsgs=4, nfields=6, maxver=5, ver_mult=2.0))]


def w05_job(seed, st, per=30):
    @judged
    def job(seed, st):
        r, s, texts = schema("W05", seed)
        try:
            p = cpp.Proj(texts)
        except cpp.Failed as e:
            return [failed(e, texts)]
        try:
            out = os.path.join(p.dir, "t")
            p.generate("test", out=out)
            src = [os.path.join(q, n) for q, _, ns in os.walk(out) for n in ns if n.endswith("_input_test.cpp")]
            if len(src) != 1:
                return [Violation("commsdsl2test generated %d *_input_test.cpp files" % len(src), "no test source", dict(texts, case=texts[-1][1]))]
            main = "proto"
            d = cpp.FrameDriver(p, s.model, main, rng=r, maxframes=1)
            st.count["schemas"] += 1
            if not d.frames:
                return []
            F, I, fm = d.frames[0]
            fp = next(q for q, x in cpp.entities(s.model, "frames") if x is F)
            own = cpp.in_ns(d.msgs, fp)
            msgs = [M for _, M in own]
            if not msgs:
                return []
            fm = frames.Frame(d.c, F, I, msgs)
            ip = next((q for q, x in cpp.entities(s.model, "interfaces") if x is I), ())
            iname = cpp.cls(I["name"]) if I else "Message"
            defs = {"INTERFACE": cpp.scope(main, ip, iname), "INTERFACE_HEADER": cpp.hdr(main, ip, iname), "FRAME": cpp.scope(main, fp, "frame", cpp.cls(F["name"])),
                    "FRAME_HEADER": cpp.hdr(main, fp, "frame", cpp.cls(F["name"])), "OPTIONS": cpp.scope(main, (), "options", "DefaultOptions"),
                    "OPTIONS_HEADER": cpp.hdr(main, (), "options", "DefaultOptions"), "INPUT_MESSAGES": cpp.scope(main, fp, "input", "AllMessages"),
                    "INPUT_MESSAGES_HEADER": cpp.hdr(main, fp, "input", "AllMessages")}
            # not every function of the application is used with every schema
            exe = p.compile(open(src[0]).read(), name="tapp", flags=cpp.WARN + ["-Wno-unused", "-Wno-unneeded-internal-declaration"] + ["-D%s=%s" % kv for kv in defs.items()])
            res = []
            for k in range(per):
                data, exp, n, shown = b"", "", 0, []
                for _ in range(r.choice([1, 1, 2, 3, 5, 40])):
                    M = r.choice(msgs)
                    try:
                        m = codec.Message(d.c, M, I)
                        if m.t:
                            m.t.load(transport(r, d.c, m))
                            m.verupdate()
                        m.load(wire.rand(r, m))
                        m.verupdate()
                        b = fm.write(m)
                        es, c, which, q = fm.read(b)
                        if es or c != len(b) or fm.msgs[which] is not M or not b:
                            continue
                        e = testapp.message(d.c, q)
                        # a frame whose length depends on what follows ends the stream
                        last = not any(l["kind"] == "size" for l in F["layers"]) or fm.read(b + b)[:2] != (0, len(b)) or fm.read(b + b"\0")[:2] != (0, len(b))
                        if len(data) + len(b) > 60000:
                            break
                    except codec.Unsupported:
                        continue
                    data += b
                    exp += e
                    shown.append(M["name"])
                    n += 1
                    if last:
                        break
                what = "whole"
                if r.random() < 0.3:
                    what = "corrupted"
                    data = bytearray(data)
                    for _ in range(r.randint(1, 4)):
                        if data:
                            data[r.randrange(len(data))] ^= 1 << r.randrange(8)
                    data = bytes(data)
                if not data:
                    continue
                q = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=cpp.gen_env(), timeout=120)
                st.case(data.hex()[:4000], **{"inputs " + what: 1, "messages": n})
                st.count["input bytes"] += len(data)
                t = q.stdout.decode("latin-1")
                bad = None
                if q.returncode != 0:
                    if what == "corrupted" and q.returncode == 255 and not q.stderr:
                        # the application gives up on optional fields of unknown existence
                        st.count["stopped on corrupted input"] += 1
                        continue
                    bad = "exit code %d: %s" % (q.returncode, cpp.crash_line(q.stderr.decode("utf-8", "replace"), q.returncode))
                elif what == "whole" and not re.fullmatch(exp, t):
                    bad = "the report does not show what the messages %s carry" % " ".join(shown[:6])
                if bad:
                    res.append(Violation("test application, %s input %s: %s" % (what, data.hex()[:200], bad), "test application %s: %s" % (what, bad[:80]),
                                         dict(texts, case=texts[-1][1], **{"input.hex": data.hex(), "expected.regex": exp, "observed.txt": t, "stderr.txt": q.stderr.decode("utf-8", "replace")[:4000]})))
                    break
            return res
        except cpp.Failed as e:
            return [failed(e, texts)]
        finally:
            p.close()
    return job(seed, st)


def w05(ck):
    build.ensure(["comms", "test"])
    ck.rule = "a case is one run of the generated application on a stream of frames written by the reference codec (or a corrupted one), its report compared with what the frames carry; distinct = distinct input"
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(w05_job, [base + k for k in range(ck.scale(60, 1500))])


CHECKS["W05"] = w05


# ---------------------------------------------------------------------------------- emscripten
PROFILES["W02"] = PROFILES["W01"]


def w02_job(seed, st, per=10, nsrc=2):
    @judged
    def job(seed, st):
        r, s, texts = schema("W02", seed)
        try:
            p = cpp.Proj(texts)
        except cpp.Failed as e:
            return [failed(e, texts)]
        try:
            out = os.path.join(p.dir, "em")
            extra, prefix = ((), ()) if r.random() < 0.8 else (("--force-main-ns-in-names",), ("proto",))
            p.generate("emscripten", out=out, extra=extra)
            d = emb.EmbDriver(p, s.model, out, prefix=prefix)
            st.count["sources compiled alone"] += d.alone(r, nsrc)
            d.build()
            cmds = c_cmds(r, d, per) + c_frames(r, d, per)
            outs = p.talk(d.exe, ["E 0"] + [c[2] for c in cmds])
            reg = outs.pop(0)
            st.count["schemas"] += 1
            st.count["frames"] += len(d.frames)
            st.count["registered classes"] += len(reg["classes"])
            st.count["registered functions"] += sum(len(c["f"]) + len(c["s"]) for c in reg["classes"].values())
            st.count["registered enumerations"] += len(reg["enums"])
            bad = d.registry(reg)
            if bad:
                return [Violation("emscripten bindings: %s" % bad, "bindings: %s" % bad, dict(texts, case=texts[-1][1], **{"registry.json": wire.js(reg)}))]
            res, seen = [], set()
            for (what, nm, line, j), o in zip(cmds, outs):
                df = o.get("err") or j(o)
                st.case(nm + line, **{"cmd " + what: 1})
                if df and (what, nm) not in seen:
                    seen.add((what, nm))
                    key = "%s %s %s" % (what, nm, re.sub(r"expected.*", "", df))
                    res.append(Violation("emscripten bindings, %s, command %s: %s" % (nm, line[:300], df), key,
                                         dict(texts, case=texts[-1][1], **{"command.txt": line, "observed.json": wire.js(o), "driver.cpp": d.src})))
            if len(st.samples) < 2 and cmds:
                st.samples.append(dict(command=cmds[-1][2][:300], answer=str(outs[-1])[:300]))
            return res[:3]
        except emb.Missing as e:
            return [Violation("emscripten bindings: %s" % e, "bindings: %s" % e, dict(texts, case=texts[-1][1]))]
        except cpp.Failed as e:
            return [failed(e, texts)]
        finally:
            p.close()
    return job(seed, st)


def w02(ck):
    build.ensure(["comms", "emscripten"])
    ck.rule = ("a case is one command (default construction, set through the registered functions + read back + write, read of whole or corrupted bytes, "
               "frame write, frame input with an overriding handler) executed by name through the registry which the generated binding code filled, compared "
               "with the reference codec; the registry itself (names, bases, bound types, enumerations) is compared with the schema")
    ck.assumptions = ASSUME + ["emscripten is not available: mini/emscripten stands for embind (registration, conversion and type rules written from its documentation)"]
    base = ck.seed * 1000003
    ck.pmap(w02_job, [base + k for k in range(ck.scale(36, 1200))])


CHECKS["W02"] = w02
