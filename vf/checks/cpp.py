"""C01..C10: the code commsdsl2comms generates, compiled with sanitizers against a stand-in for the COMMS library
(/verif/mini/comms) and driven through a reflection driver; every answer is compared with a reference
implementation (vf/codec.py, vf/desc.py, vf/frames.py) of what the schema declares."""
import os, re, traceback
from .. import build, bundles, codec, common, cpp, desc, frames, gen, options, wire
from ..common import Violation, rng, seed_of

BASE = dict(code=True, xattrs=False)
INTS = ["int", "enum", "set", "float", "bitfield", "bundle", "optional"]
PROFILES = {
    "C02": [(3, {}), (2, dict(nmsgs=7, nfields=8, depth=3)), (1, dict(kinds=["int", "float", "enum", "set", "bitfield", "bundle"])),
            (1, dict(kinds=["int", "string", "data", "list", "variant", "bundle", "ref"], depth=3)), (1, dict(reuse_p=0.5, msg_reuse_p=0.5))],
    "C03": [(3, {}), (2, dict(kinds=["int", "float", "enum", "set", "bitfield"], nfields=16, nmsgs=4)), (1, dict(nfields=14, depth=3)), (1, dict(maxver=6, nfields=12)),
            (1, dict(reuse_p=0.5, nfields=14))],
    "C04": [(3, dict(cond_mult=3.0, kinds=INTS + ["string", "list", "ref", "data"], nmsgs=8, nfields=6)), (3, dict(maxver=6, ver_mult=2.0, nmsgs=8, nfields=6)),
            (1, dict(maxver=4, ver_mult=2.0, cond_mult=2.0, nmsgs=8, nfields=6)), (1, dict(cond_mult=2.0, reuse_p=0.4, msg_reuse_p=0.5))],
    "C07": [(3, dict(maxver=6, ver_mult=2.5, nmsgs=6, nfields=8)), (1, dict(maxver=4, ver_mult=2.0, cond_mult=2.0, nmsgs=6, nfields=8))],
    "C05": [(1, dict(nmsgs=5, nfields=6))],
    "C06": [(1, dict(nmsgs=8, nfields=2, kinds=["int", "enum", "set"], depth=1)), (1, dict(nmsgs=14, nfields=1, kinds=["int"], depth=1, nested_ns=True))],
}


def pick(pid, r):
    o = dict(BASE)
    o.update(r.choice([o for w, o in PROFILES[pid] for _ in range(w)]))
    return o


def failed(e, texts, extra=None):
    fl = {n: t for n, t in texts}
    fl["case"] = texts[-1][1]
    fl["output.txt"] = e.text
    fl.update(extra or {})
    return Violation("%s (stage %s)" % (e.key[:400], e.stage), e.key, fl)


def kinds(f, out):
    out.add(f["kind"])
    for y in cpp.subfields(f):
        kinds(y, out)


# ---------------------------------------------------------------------------------- wire format
def wire_cmds(r, d, per, fper=0):
    """[(name, what, command line, expectation function of the observed answer)]"""
    out = []
    for i, (_, M) in enumerate(d.msgs):
        try:
            m = codec.Message(d.c, M, d.ifof[i])
            m.verupdate()
        except codec.Unsupported:
            continue
        out.append((M["name"], "D", "D%d" % i, exp_default(m)))
        for _ in range(per):
            try:
                m = codec.Message(d.c, M, d.ifof[i])
                tt = transport(r, d.c, m)
                if m.t:
                    m.t.load(tt)
                    m.verupdate()
                v = wire.rand(r, m)
                m.load(v)
                m.verupdate()
                b = m.write()
            except codec.Unsupported:
                continue
            out.append((M["name"], "W", "W%d %s %s" % (i, wire.js(tt), wire.js(v)), exp_write(m)))
            b = wreck(r, b)
            m2 = codec.Message(d.c, M, d.ifof[i])
            if m2.t:
                m2.t.load(tt)
            try:
                out.append((M["name"], "R", 'R%d %s "%s"' % (i, wire.js(tt), b.hex()), exp_read(m2, b)))
            except codec.Unsupported:
                pass
    return out


def transport(r, c, m):
    """values of the transport fields; versions older than the minimal one are not expected"""
    if not m.t:
        return []
    tt = wire.rand(r, m.t)
    for i, f in enumerate(m.t.f["fields"]):
        if c.deref(f)["sem"] == 1 and isinstance(tt[i], int) and (not c.minrem <= tt[i] or r.random() < 0.6):
            tt[i] = r.randint(c.minrem, c.ver + 2)
    return tt


def wreck(r, b):
    q = r.random()
    if q < 0.3:
        return b[:r.randint(0, len(b))]
    if q < 0.4:
        return b + bytes(r.getrandbits(8) for _ in range(3))
    if q < 0.6 and b:
        b = bytearray(b)
        b[r.randrange(len(b))] = r.getrandbits(8)
    elif q < 0.7 and b:
        b = bytearray(b)
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


STATE = ("v", "t", "l", "ok", "fv", "we", "w", "wo")


def exp_default(m):
    def f(o):
        return wire.state(m), {k: o[k] for k in STATE if k in o}
    return f


def exp_write(m):
    def f(o):
        e = dict(wire.state(m), rf=o["rf"])
        m.refresh()
        e["r"] = wire.state(m)
        return e, o
    return f


def exp_read(m, b):
    es, pos = m.read(b, 0, len(b))

    def f(o):
        if es:
            # which status is reported for bad input is not part of the property
            return dict(e=o["e"] or es, c=o["c"]), o if o["e"] else dict(e=0, c=o["c"])
        e = dict(e=0, c=pos)
        e.update(wire.state(m))
        m.refresh()
        e["rf"] = o.get("rf")
        e["r"] = wire.state(m)
        return e, o
    return f


def drop(x, keys):
    if isinstance(x, dict):
        return {k: drop(v, keys) for k, v in x.items() if k not in keys}
    return x


def judge(cmds, outs, st, ignore=()):
    """first difference of every message"""
    res, seen = [], set()
    for (nm, what, line, exp), o in zip(cmds, outs):
        try:
            e, o = exp(o)
        except codec.Unsupported:
            st.count["not specified"] += 1
            continue
        df = wire.diff(drop(e, ignore), drop(o, ignore))
        st.case(nm + line, **{"cmd " + what: 1})
        if what == "R":
            st.count["read refused" if o.get("e") else "read accepted"] += 1
        if df and nm not in seen:
            seen.add(nm)
            res.append((nm, what, line, df, e, o))
    return res


def make(pid, seed, opts=None):
    r = rng(pid, seed)
    s = gen.make(seed_of(pid, seed) % (1 << 31), **(opts or pick(pid, r)))
    t = gen.to_files(s)
    return r, s, [("s.xml", t[0])]


def diffs_to_viol(res, texts, pre=""):
    out = []
    for nm, what, line, df, e, o in res[:3]:
        key = "%s%s %s %s" % (pre, what, nm, re.sub(r"expected.*", "", df))
        out.append(Violation("%smessage %s, command %s: %s" % (pre, nm, line[:300], df), key,
                             dict(texts, case=texts[-1][1], **{"command.txt": line, "expected.json": wire.js(e), "observed.json": wire.js(o)})))
    return out


def seen_kinds(d, st):
    ks = set()
    for _, m in d.msgs:
        for f in m["fields"]:
            kinds(f, ks)
    for k in ks:
        st.count["schemas with " + k] += 1
    st.count["schemas"] += 1
    st.count["messages"] += len(d.msgs)


def judged(fn):
    """what the reference implementation cannot decide for a whole schema is counted"""
    def job(seed, st):
        try:
            return fn(seed, st)
        except codec.Unsupported:
            st.count["schemas not judged"] += 1
            return []
    return job


def wire_job(pid, per, ignore=(), args=()):
    @judged
    def job(seed, st):
        r, s, texts = make(pid, seed)
        try:
            p = cpp.Proj(texts, args)
        except cpp.Failed as e:
            return [failed(e, texts)]
        try:
            d = cpp.MsgDriver(p, s.model, rng=r)
            if not d.msgs:
                return []
            d.build()
            cmds = wire_cmds(r, d, per)
            outs = d.talk([c[2] for c in cmds])
            seen_kinds(d, st)
            if len(st.samples) < 2 and cmds:
                st.samples.append(dict(command=cmds[-1][2][:300], answer=str(outs[-1])[:300]))
            return diffs_to_viol(judge(cmds, outs, st, ignore), texts)
        except cpp.Failed as e:
            return [failed(e, texts)]
        finally:
            p.close()
    return job


WIRE_RULE = ("a case is one command (default construction, load + write + refresh + write, or read of whole, truncated, extended or corrupted "
             "bytes) executed by the generated message class and compared with the reference codec; distinct = distinct message and input")
ASSUME = ["the COMMS library itself is not available offline: the generated code is compiled against /verif/mini/comms, a stand-in "
          "written from the documented behaviour of the library's options and fields",
          "what a declaration leaves unspecified (codec.Unsupported) is not judged",
          "generated code runs with ASan and UBSan; asserts of the generators are enabled"]


def c02(ck):
    build.ensure(["comms"])
    ck.rule, ck.assumptions = WIRE_RULE, ASSUME
    base = ck.seed * 1000003
    ck.pmap(wire_job("C02", 40, ("ok", "fv")), [base + k for k in range(ck.scale(70, 1600))])


def c04(ck):
    build.ensure(["comms"])
    ck.rule, ck.assumptions = WIRE_RULE, ASSUME
    base = ck.seed * 1000003
    ck.pmap(wire_job("C04", 50), [base + k for k in range(ck.scale(70, 1600))])


# ---------------------------------------------------------------------------------- descriptions
@judged
def c03_job(seed, st):
    r, s, texts = make("C03", seed)
    try:
        p = cpp.Proj(texts)
    except cpp.Failed as e:
        return [failed(e, texts)]
    out = []
    try:
        d = cpp.MsgDriver(p, s.model, rng=r, access=True)
        if not d.msgs and not d.fields:
            return []
        d.build()
        nf, nm = len(d.fields), len(d.msgs)
        cmds = wire_cmds(r, d, 40)
        outs = d.talk(["d%d" % i for i in range(nf)] + ["D%d" % i for i in range(nm)] + ["A0"] + [c[2] for c in cmds])
        seen_kinds(d, st)
        st.count["fields"] += nf
        items = [(f["name"], lambda f=f: desc.desc(d.c, f, 0)) for _, f in d.fields]
        items += [(m["name"], lambda m=m, i=i: desc.message(d.c, m, i)) for (_, m), i in zip(d.msgs, d.ifof)]
        for (nm_, fn), o in zip(items, outs):
            try:
                x = desc.diff(fn(), o, nm_)
            except codec.Unsupported:
                continue
            st.case("desc " + nm_ + str(o), **{"cmd description": 1})
            if x:
                out.append(Violation("description of %s: %s" % (nm_, x[:600]), "desc " + re.sub(r"(expected|:).*", "", x)[:200],
                                     dict(texts, case=texts[-1][1], **{"observed.json": wire.js(o)})))
        acc = outs[nf + nm]
        st.case("acc" + texts[0][1], **{"cmd accessors": 1})
        if acc:
            out.append(Violation("accessors that refer to a wrong member or constant: " + acc, "access " + acc[:200], dict(texts, case=texts[-1][1])))
        res = judge(cmds, outs[nf + nm + 1:], st, ("r", "w", "we", "wo", "l"))
        out += diffs_to_viol([x for x in res if x[1] == "D" or re.match(r"\.(ok|fv)", x[3])], texts)
    except cpp.Failed as e:
        out.append(failed(e, texts))
    finally:
        p.close()
    return out[:3]


def c03(ck):
    build.ensure(["comms"])
    ck.rule = ("a case is one description (defaults, names, constants, limits, specials, units, scaling, value names) of a generated field or "
               "message compared with the declaration, all accessors of a schema, or one validity verdict; distinct by content")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c03_job, [base + k for k in range(ck.scale(120, 2400))])


# ---------------------------------------------------------------------------------- frames
def frame_cmds(r, d, per):
    out = []
    for fi, (F, I, fm) in enumerate(d.frames):
        nest = [x["name"][0].lower() + x["name"][1:] for x in fm.nest][::-1]
        out.append((F["name"], "L", "L%d" % fi, lambda o, nest=nest: (dict(layers=nest), dict(layers=o))))
        for _ in range(per):
            mi = r.randrange(len(d.msgs))
            M = d.msgs[mi][1]
            try:
                m = codec.Message(d.c, M, I)
                tt = wire.rand(r, m.t) if m.t else []
                if m.t:
                    m.t.load(tt)
                    m.verupdate()
                v = wire.rand(r, m)
                m.load(v)
                m.verupdate()
                b = fm.write(m)
            except codec.Unsupported:
                continue
            w = dict(l=len(b), we=0, w=b.hex(), pe=0, pw=b.hex())
            out.append((F["name"], "F", "F%d %d %s %s" % (fi, mi, wire.js(tt), wire.js(v)), lambda o, w=w: (w, o)))
            q = r.random()
            if q < 0.15:
                b = b[:r.randint(0, len(b))]
            elif q < 0.3:
                b = b + bytes(r.getrandbits(8) for _ in range(3))
            elif q < 0.6 and b:
                b = bytearray(b)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                b = bytes(b)
            try:
                out.append((F["name"], "X", 'X%d "%s"' % (fi, b.hex()), exp_frame(d, fm, b)))
            except codec.Unsupported:
                pass
    return out


def exp_frame(d, fm, b):
    es, c, which, m = fm.read(b)

    def f(o):
        if es:
            return dict(e=o["e"] or es), dict(e=o["e"])
        i = next(q for q, (_, x) in enumerate(d.msgs) if x is fm.msgs[which])
        e = dict(e=0, c=c, p=1, vn=m.f["disp"] or m.f["name"], vid=m.f["id"], i=i, hn=1, vl=m.length(), vv=int(m.valid()))
        e.update(wire.state(m))
        return ({k: v for k, v in e.items() if k != "fv" or v}, {k: v for k, v in o.items() if k != "fv" or v})
    return f


@judged
def c05_job(seed, st):
    r, s, texts = make("C05", seed)
    try:
        p = cpp.Proj(texts)
    except cpp.Failed as e:
        return [failed(e, texts)]
    try:
        d = cpp.FrameDriver(p, s.model, rng=r)
        if not d.frames or not d.msgs:
            return []
        d.build()
        cmds = frame_cmds(r, d, 80)
        outs = d.talk([c[2] for c in cmds])
        for F, _, fm in d.frames:
            st.count["frames"] += 1
            for l, suf in zip(fm.nest, fm.suffix):
                st.count["layer %s%s" % (l["kind"], " (suffix)" if suf else "")] += 1
        for c, o in zip(cmds, outs):
            if c[1] == "X":
                st.count["read refused" if o["e"] else "read accepted"] += 1
        return diffs_to_viol(judge(cmds, outs, st), texts, "frame: ")
    except cpp.Failed as e:
        return [failed(e, texts)]
    finally:
        p.close()


def c05(ck):
    build.ensure(["comms"])
    ck.rule = ("a case is one message written through a generated frame, or one byte sequence (whole, truncated, extended, one bit flipped) read "
               "through it, compared with the reference frame; distinct = distinct frame and input")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c05_job, [base + k for k in range(ck.scale(90, 1600))])


# ---------------------------------------------------------------------------------- versions
def c07_job(seed, st):
    return versions(seed, st)


@judged
def versions(seed, st):
    r, s, texts = make("C07", seed)
    top = s.model["version"]
    out = []
    for k in range(2):
        ver = r.choice([None, r.randint(0, top), r.randint(0, top)])
        lim = top if ver is None else ver
        minrem = r.choice([0, r.randint(0, lim), r.randint(0, lim)])
        indep = r.random() < 0.25
        args = []
        if ver is not None:
            args += ["--force-schema-version", str(ver)]
        if minrem:
            args += [r.choice(["-m", "--min-remote-version"]), str(minrem)]
        if indep:
            args += ["--version-independent-code"]
        x = texts + [("args.txt", " ".join(args))]
        try:
            p = cpp.Proj(texts, args)
        except cpp.Failed as e:
            return [failed(e, x)]
        try:
            d = cpp.MsgDriver(p, s.model, rng=r, ver=ver, minrem=minrem, indep=indep)
            if not d.msgs and not d.fields:
                continue
            d.build()
            cmds = wire_cmds(r, d, 25)
            nf = len(d.fields)
            outs = d.talk(["d%d" % i for i in range(nf)] + [c[2] for c in cmds])
            seen_kinds(d, st)
            st.count["generated with " + ", ".join(a for a in args if a.startswith("-")).replace("-m,", "--min-remote-version,")] += 1
            for (_, f), o in zip(d.fields, outs):
                try:
                    df = desc.diff(desc.desc(d.c, f, 0), o, f["name"])
                except codec.Unsupported:
                    continue
                st.case("desc " + f["name"] + str(o), **{"cmd description": 1})
                if df:
                    out.append(Violation("%s: description of %s: %s" % (" ".join(args), f["name"], df[:500]), "desc " + re.sub(r"(expected|:).*", "", df)[:200],
                                         dict(x, case=texts[-1][1], **{"observed.json": wire.js(o)})))
            out += diffs_to_viol(judge(cmds, outs[nf:], st), x, " ".join(args) + ": ")
        except cpp.Failed as e:
            out.append(failed(e, x))
        finally:
            p.close()
    return out[:3]


LATER = """<?xml version="1.0"?>
<schema name="proto" endian="big" version="5">
<fields><enum name="Id" type="uint8" semanticType="messageId"><validValue name="A" val="1"/></enum></fields>
<messages><message name="MA" id="Id.A"><int name="f1" type="uint8"/><int name="f2" type="uint8" sinceVersion="3"/></message></messages>
<frames><frame name="F"><id name="id" field="Id"/><payload name="p"/></frame></frames>
</schema>
"""


def probe_later(_, st):
    """known finding C07-F1: without a version field the members introduced after the forced version are still on the wire"""
    texts = [("s.xml", LATER)]
    p = cpp.Proj(texts, ["--force-schema-version", "2"])
    try:
        src = '#include "refl/refl.h"\n#include "proto/Message.h"\n#include "proto/message/MA.h"\nusing Msgs = std::tuple<proto::message::MA<proto::Message<>>>;\n'
        src += "static void run(std::string& o, char cmd, std::size_t idx, refl::In& in) { refl::execAt<Msgs>(o, idx, cmd, in); }\n" + cpp.MAIN
        o = p.talk(p.compile(src), ['R0 [] "01"', 'R0 [] "0102"'])
        st.case("probe of members introduced after the forced version", **{"known finding probes": 1})
        if o[0]["e"] != 0 or o[1]["c"] != 1:
            return [Violation("message of the forced version 2 is not readable, the member introduced in version 3 is expected: %s" % wire.js(o), "members introduced after the forced version without a version field",
                              dict(texts, case=LATER))]
        return []
    finally:
        p.close()


def c07(ck):
    build.ensure(["comms"])
    ck.rule, ck.assumptions = WIRE_RULE + "; the schema is generated with --force-schema-version, --min-remote-version, --version-independent-code", ASSUME
    base = ck.seed * 1000003
    ck.pmap(probe_later, [0])
    ck.pmap(c07_job, [base + k for k in range(ck.scale(18, 1600))])


# ---------------------------------------------------------------------------------- bundles
@judged
def c06_job(seed, st):
    r, s, texts = make("C06", seed)
    args, extra, x = [], [], list(texts)
    all_refs = [m["extNs"] for _, m in cpp.entities(s.model, "messages")]
    files = []
    for k in range(r.choice([0, 0, 1, 2])):
        refs = r.sample(all_refs, r.randint(1, len(all_refs))) if all_refs else []
        if not refs:
            break
        n = r.choice(["Bundle%d", "extra%d", "B_%d"]) % k
        fn = r.choice([n, "list%d" % k]) + r.choice([".txt", ""])
        files.append((fn, r.choice(["\n", "\r\n", "\n\n"]).join(refs) + r.choice(["", "\n"])))
        extra.append((n, refs, fn, fn.split(".")[0] == n and r.random() < 0.5))
    try:
        p = cpp.Proj(texts, run=False)
        for fn, t in files:
            with open(p.dir + "/" + fn, "w") as f:
                f.write(t)
        if extra:
            p.args += ["--extra-messages-bundle", ",".join(("" if short else n + "@") + p.dir + "/" + fn for n, refs, fn, short in extra)]
        x += files
        p.generate()
    except cpp.Failed as e:
        p.close()
        return [failed(e, x)]
    out = []
    try:
        d = bundles.Driver(p, s.model, [(n, set(refs)) for n, refs, _, _ in extra], rng=r)
        for q in d.problems:
            out.append(Violation(q, "bundles: " + re.sub(r"[0-9]+", "#", q), dict(x, case=texts[-1][1])))
        if out:
            return out
        if not d.bundles and not d.enums:
            return []
        d.build()
        outs = d.talk(["B%d" % i for i in range(len(d.bundles))] + ["B%d" % (10000 + i) for i in range(len(d.enums))])
        for i, (p_, name, ix) in enumerate(d.bundles):
            e, o = d.expect(s.model, i), outs[i]
            st.case("%s %s %s" % (p_, name, o), **{"bundles": 1, "bundle members": len(ix), "dispatch calls": len(e.get("d", [])), "factory calls": len(e.get("f", []))})
            if e != o:
                k = next(k for k in sorted(set(e) | set(o)) if e.get(k) != o.get(k))
                what = {"t": "members", "a": "aliases", "d": "dispatch", "f": "factory", "u": "unique ids", "o": "factory traits"}[k]
                out.append(Violation("%s of bundle %s in namespace %s: expected %s observed %s" % (what, name, ".".join(p_), e.get(k), o.get(k)), "bundles: %s of %s" % (what, re.sub("^(Plat|Bundle|Extra|B_)[0-9]+", "", name)),
                                     dict(x, case=texts[-1][1], **{"expected.json": wire.js(e), "observed.json": wire.js(o)})))
        for (p_, e), o in zip(d.enums, outs[len(d.bundles):]):
            e = [str(v % (1 << 64)) for _, v in e]
            st.case("MsgId %s %s" % (p_, o), **{"id enumerations": 1})
            if o["m"] != e:
                out.append(Violation("message ids in namespace %s: expected %s observed %s" % (".".join(p_), e, o["m"]), "bundles: message ids", dict(x, case=texts[-1][1])))
        seen_kinds(d, st)
        return out[:3]
    except cpp.Failed as e:
        return [failed(e, x)]
    finally:
        p.close()


def c06(ck):
    build.ensure(["comms"])
    ck.rule = ("a case is one generated bundle (tuple, aliases, dispatch functions, factory) or enumeration of ids, instantiated and exercised with every id "
               "of the schema, its neighbours and every index; distinct = distinct answers")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c06_job, [base + k for k in range(ck.scale(60, 1600))])


# ---------------------------------------------------------------------------------- namespaces
APPS = ["comms", "swig", "emscripten", "c", "tools_qt", "test", "latex"]


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(a, f), "rb") as h:
                out[os.path.relpath(os.path.join(a, f), d)] = h.read()
    return out


def code_file(app, n):
    """the other generators call their projects and documentation after the schema"""
    return app == "comms" or not (n.startswith("doc") or n == "CMakeLists.txt")


def tree_diff(a, b):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            return n, "%s only in the %s" % (n, "second" if n not in a else "first")
        if a[n] != b[n]:
            for x, y in zip(a[n].split(b"\n") + [b""], b[n].split(b"\n") + [b""]):
                if x != y:
                    return n, "%s: %r != %r" % (n, x[:200], y[:200])
    return None


def c08_rename(seed, st):
    """-n NAME gives what the schema called NAME gives"""
    r = rng("C08", seed)
    opts = dict(BASE, **r.choice([{}, dict(nmsgs=3, nfields=6), dict(reuse_p=0.4)]))
    new = r.choice(["other", "proto2", "MyNs", "x_1", "protocol_name"])
    style = seed_of("s", seed)
    A, B = gen.make("C08-%d" % seed, **opts), gen.make("C08-%d" % seed, name=new, **opts)
    multi = r.random() < 0.3
    ta, tb = gen.to_files(A, style, 1)[0], gen.to_files(B, style, 1)[0]
    args, old = ["-n", new], "proto"
    xa, xb = [("s.xml", ta)], [("s.xml", tb)]
    if multi:
        ln = r.choice(["common", "renamed"])
        L = [gen.make("C08L-%d" % seed, name=n, **LIB) for n in ("common", ln)]
        A, B = gen.make("C08-%d" % seed, lib=L[0], **opts), gen.make("C08-%d" % seed, name=new, lib=L[1], **opts)
        xa = [("l.xml", gen.to_files(L[0], style, 1)[0]), ("s.xml", gen.to_files(A, style + 1, 1)[0])]
        xb = [("l.xml", gen.to_files(L[1], style, 1)[0]), ("s.xml", gen.to_files(B, style + 1, 1)[0])]
        pairs = (["common:" + ln] if ln != "common" else []) + [r.choice(["proto:" + new, new])]
        if pairs[-1] != new:
            r.shuffle(pairs)
        args = ["-s", "-n", ",".join(pairs)]
    out = []
    apps = ["comms"] + [r.choice(["swig", "emscripten", "c"])]
    for app in apps:
        a = cpp.Proj(xa, args, run=False)
        b = cpp.Proj(xb, ["-s"] if multi else [], run=False)
        try:
            ea = eb = None
            try:
                a.generate(app)
            except cpp.Failed as e:
                ea = e
            try:
                b.generate(app)
            except cpp.Failed as e:
                eb = e
            st.case("%s %s %d" % (app, args, seed), **{"trees of commsdsl2%s compared" % app: 1, "several schemas" if multi else "one schema": 1})
            if ea or eb:
                if bool(ea) != bool(eb):
                    out.append(failed(ea or eb, xa, {"renamed.xml": xb[-1][1], "args.txt": " ".join(args)}))
                continue
            # names shown in documentation default to the name of the schema
            fa = {n: shown(n, t, multi and ln, new) for n, t in tree(a.out).items() if code_file(app, n)}
            fb = {n: shown(n, t, None, None) for n, t in tree(b.out).items() if code_file(app, n)}
            df = tree_diff(fa, fb)
            if df:
                out.append(Violation("commsdsl2%s %s differs from the renamed schema: %s" % (app, " ".join(args), df[1]), "rename: commsdsl2%s differs in %s" % (app, re.sub(r"[0-9]+", "#", os.path.basename(df[0]))),
                                     dict(xa, case=xa[-1][1], **{"renamed.xml": xb[-1][1], "args.txt": " ".join(args)})))
        finally:
            a.close()
            b.close()
    return out


LIB = dict(code=True, xattrs=False, nmsgs=0, ifaces=False, frames=False, maxver=0, sem=False, platforms=False, nfields=10)


def shown(f, t, ln, new):
    if f.startswith("doc/"):
        t = re.sub(rb"\s*\n\s*(///)?\s*", b" ", t)      # lines are broken by length
    for o, n in ((b"common", ln), (b"proto", new)):
        if n:
            t = t.replace(b'"%s"' % o, b'"%s"' % n.encode()).replace(b'\\"%s\\"' % o, b'\\"%s\\"' % n.encode())
    return t


@judged
def c08_multi(seed, st):
    """a protocol that uses the fields of another schema behaves as declared"""
    r = rng("C08m", seed)
    o = dict(BASE, **pick("C02", r))
    lib = gen.make("C08L-%d" % seed, name="common", **LIB)
    s = gen.make("C08-%d" % seed, lib=lib, **o)
    texts = [("lib.xml", gen.to_files(lib, seed_of("l", seed), 1)[0]), ("main.xml", gen.to_files(s, seed_of("m", seed), 1)[0])]
    main, ln, args = "proto", "common", [r.choice(["-s", "--multiple-schemas-enabled"])]
    if r.random() < 0.5:
        main = r.choice(["other", "Ns2"])
        ln = r.choice(["common", "lib2"])
        args += ["-n", ",".join((["common:" + ln] if ln != "common" else []) + ["proto:" + main])]
    x = texts + [("args.txt", " ".join(args))]
    try:
        p = cpp.Proj(texts, args)
    except cpp.Failed as e:
        return [failed(e, x)]
    try:
        inc = [cpp.hdr(main, (), "options", "DefaultOptions")]
        opts = main + "::options::DefaultOptionsT<>"
        if os.path.isfile(os.path.join(p.out, "include", ln, "options", "DefaultOptions.h")):
            inc.append(cpp.hdr(ln, (), "options", "DefaultOptions"))
            opts = "%s::options::DefaultOptionsT<%s::options::DefaultOptions>" % (main, ln)
            st.count["schemas using fields of another schema"] += 1
        d = cpp.MsgDriver(p, s.model, main=main, rng=r, others=(lib.model,), opts=opts, extra_inc=inc)
        if not d.msgs:
            return []
        d.build()
        cmds = wire_cmds(r, d, 30, 5)
        outs = d.talk([c[2] for c in cmds])
        seen_kinds(d, st)
        return diffs_to_viol(judge(cmds, outs, st), x, "multi: ")
    except cpp.Failed as e:
        return [failed(e, x)]
    finally:
        p.close()


def c08_job(seed, st):
    return c08_multi(seed, st) if seed % 2 else c08_rename(seed, st)


def c08(ck):
    build.ensure(APPS)
    ck.rule = ("a case is the output tree of one generator for one schema (or pair of schemas) under namespace override compared byte for byte with the output for the "
               "renamed schema, or one message operation of a protocol using fields of another schema compared with the reference codec; distinct by input")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c08_job, [base + k for k in range(ck.scale(40, 2400))])


# ---------------------------------------------------------------------------------- options
PROFILES["C10"] = [(2, dict(nmsgs=4, nfields=6)), (1, dict(nmsgs=3, nfields=8, depth=3, kinds=["string", "data", "list", "bundle", "variant", "ref", "optional", "int"])),
                   (1, dict(nmsgs=10, nfields=4, kinds=["int", "string", "list", "ref", "set"], depth=1))]


@judged
def c10_job(seed, st):
    r, s, texts = make("C10", seed)
    level = r.choice(["full", "limited", "none"])
    args = ["--customization", level] if level != "limited" or r.random() < 0.5 else []
    mainns = r.random() < 0.3
    if mainns:
        args.append("--force-main-ns-in-options")
    x = texts + [("args.txt", " ".join(args))]
    out = []
    try:
        p = cpp.Proj(texts, args)
    except cpp.Failed as e:
        return [failed(e, x)]
    try:
        o = options.Opts(s.model, level, mainns=mainns)
        ifs = cpp.entities(s.model, "interfaces")
        iface = cpp.iface_type("proto", ifs, r.choice(ifs) if ifs else None)
        kinds = [("", cpp.hdr("proto", (), "options", "DefaultOptions"), "Tags")]
        for k in ["DataView", "BareMetal", "Client", "Server"] + (["AllMessagesDynMemMsgFactory"] if bundles.any_factory(s.model) else []):
            kinds.append((k, cpp.hdr("proto", (), "options", k + "DefaultOptions"), "proto::options::%sDefaultOptionsT<%%s>" % k))
        if r.random() < 0.5:
            kinds.append(("BareMetal+Client", kinds[0][1], "proto::options::BareMetalDefaultOptionsT<proto::options::ClientDefaultOptionsT<%s> >"))
        pick_ = [kinds[0]] + r.sample(kinds[1:], min(len(kinds) - 1, 3))
        used = pick_ + [k for k in kinds[2:4] if k not in pick_ and any("+" in q[0] for q in pick_)]
        exe = p.compile(o.source(iface, used))
        cmds, exp = [], []
        for i, (k, _, _) in enumerate(used):
            for j, (n, _, f) in enumerate(o.probes):
                cmds.append("p%d" % (i * len(o.probes) + j))
                want = set()
                for kk in k.split("+"):
                    want |= set(f(kk))
                exp.append((n, k, " ".join(sorted(want))))
        for i, path in enumerate(o.absent):
            cmds.append("a%d" % i)
            exp.append(("::".join(path), None, 0))
        for i, path in enumerate(o.entries):
            cmds.append("b%d" % i)
            exp.append(("::".join(path), None, 1))
        outs = p.talk(exe, cmds)
        st.count["level " + level + (" with the main namespace" if mainns else "")] += 1
        st.count["schemas"] += 1
        for c, (n, k, e), got in zip(cmds, exp, outs):
            if k is not None:
                got = " ".join(sorted(got.split()))
            st.case("%s %s %s %s" % (level, k, n, e), **{("options set " + (k or "plain")) if k is not None else "entry present" if e else "entry absent": 1})
            if got != e:
                what = ("%s with %s options takes options {%s}, expected {%s}" % (n, k or "plain", got, e) if k is not None else
                        "default options: entry %s %s" % (n, "is expected to be an empty option" if e else "is not expected"))
                out.append(Violation("--customization %s: %s" % (level, what), "options " + re.sub(r"\d+", "", n), dict(x, case=texts[-1][1])))
        return out[:3]
    except cpp.Failed as e:
        return [failed(e, x)]
    finally:
        p.close()


def c10(ck):
    build.ensure(["comms"])
    ck.rule = ("a case is one field, message or layer class instantiated with one set of options and asked which options it took, or one entry of the default options asked for its "
               "existence; distinct by level, set, entity and expected answer")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c10_job, [base + k for k in range(ck.scale(30, 1600))])


# ---------------------------------------------------------------------------------- project
PROFILES["C01"] = [(2, dict(nmsgs=5, nfields=8)), (1, dict(nmsgs=4, nfields=8, depth=3)), (1, dict(maxver=5, ver_mult=2.0)), (1, dict(reuse_p=0.5, msg_reuse_p=0.5, nfields=10)),
                   (1, dict(cond_mult=2.0, nmsgs=5))]
HDRF = ["-std=c++17", "-isystem", cpp.MINI] + cpp.WARN


def project_files(model, forced=None):
    """files of the generated project apart from those of bundles, dispatch and factories"""
    c = codec.Codec(model)
    ref = cpp.referenced(model, c)
    want = {"CMakeLists.txt", "doc/main.dox", "doc/namespaces.dox", "doc/layout.xml", "doc/doxygen.conf"}

    def h(*a):
        want.add("include/" + cpp.hdr("proto", *a))
    h((), "Version")
    h((), "field", "FieldBase")
    for p, f in cpp.entities(model, "fields"):
        if f["ext"] in ref:
            h(p, "field", cpp.cls(f["name"]))
            h(p, "field", cpp.cls(f["name"]) + "Common")
    for p, m in cpp.entities(model, "messages"):
        h(p, "message", cpp.cls(m["name"]))
        h(p, "message", cpp.cls(m["name"]) + "Common")
    ifs = cpp.entities(model, "interfaces")
    for p, i in ifs:
        h(p, cpp.cls(i["name"]))
        if i["fields"]:
            h(p, cpp.cls(i["name"]) + "Common")
        h(p, "MsgId")
    if not ifs:
        h((), "Message")
        h((), "MsgId")
    for p, f in cpp.entities(model, "frames"):
        h(p, "frame", cpp.cls(f["name"]))
        glob = {x["ext"] for _, x in cpp.entities(model, "fields")}
        if any(isinstance(v, dict) and "minLen" in v and not (v.get("found") and v["ext"] in glob) for l in f["layers"] for v in l.values()):
            h(p, "frame", cpp.cls(f["name"]) + "Common")
    for k in ("", "DataView", "BareMetal", "Client", "Server"):
        h((), "options", k + "DefaultOptions")
    for pl in [""] + list(model["platforms"]):
        for n in ("AllMessages" if not pl else cpp.cls(pl) + "Messages", cpp.cls(pl or "x")[:len(pl)] + "ClientInputMessages", cpp.cls(pl or "x")[:len(pl)] + "ServerInputMessages"):
            h((), "options", n + "DynMemMsgFactoryDefaultOptions")
    return want


def install(p, st):
    """configures and installs the generated project; what differs from the generated one"""
    import subprocess, filecmp
    bld, pre = os.path.join(p.dir, "bld"), os.path.join(p.dir, "inst")
    for cmd in (["cmake", "-S", p.out, "-B", bld, "-DCMAKE_INSTALL_PREFIX=" + pre, "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON", "-DLibComms_DIR=" + os.path.join(cpp.MINI, "cmake"),
                 "-DCMAKE_CXX_COMPILER=" + build.CXX, "-DCMAKE_C_COMPILER=/usr/bin/clang"], ["cmake", "--build", bld, "--target", "install"]):
        r = subprocess.run(["/usr/bin/" + cmd[0]] + cmd[1:], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            raise cpp.Failed("cmake", r.stdout.decode("utf-8", "replace"), "cmake: " + cmd[1])
    st.count["projects configured and installed"] += 1
    bad = []
    a, b = os.path.join(p.out, "include"), os.path.join(pre, "include")
    for d, _, fs in os.walk(a):
        for f in fs:
            q = os.path.relpath(os.path.join(d, f), a)
            if not os.path.isfile(os.path.join(b, q)) or not filecmp.cmp(os.path.join(a, q), os.path.join(b, q), False):
                bad.append("header %s is not installed" % q)
    cfg = [f for d, _, fs in os.walk(pre) for f in fs if f in ("protoConfig.cmake", "protoConfigVersion.cmake")]
    if len(cfg) != (2 if "-V" in p.args else 1):
        bad.append("installed cmake configuration: %r" % cfg)
    return bad


@judged
def c01_job(seed, st):
    r, s, texts = make("C01", seed)
    args = []
    if r.random() < 0.5:
        args += ["--customization", r.choice(["full", "limited", "none"])]
    if r.random() < 0.25:
        args += ["--force-main-ns-in-options"]
    if r.random() < 0.25:
        args += ["--code-inject-comments"]
    if r.random() < 0.6:
        args += ["-V", "%d.%d.%d" % tuple(r.randint(0, 30) for _ in range(3))]
    x = texts + [("args.txt", " ".join(args))]
    try:
        p = cpp.Proj(texts, args)
    except cpp.Failed as e:
        return [failed(e, x)]
    out = []
    try:
        have = {os.path.relpath(os.path.join(d, f), p.out) for d, _, fs in os.walk(p.out) for f in fs}
        rest = {f for f in have if os.path.basename(os.path.dirname(f)) not in ("input", "dispatch", "factory")}
        want = project_files(s.model)
        st.count["schemas"] += 1
        st.case("files " + texts[0][1], **{"file sets": 1})
        df = sorted(want - rest), sorted(rest - want)
        if df[0] or df[1]:
            out.append(Violation("generated files: missing %r, unexpected %r" % (df[0][:8], df[1][:8]), "files %s %s" % ([re.sub(r"\d", "", q) for q in df[0][:3]], [re.sub(r"\d", "", q) for q in df[1][:3]]), dict(x, case=texts[-1][1])))
        hs = sorted(f[len("include/"):] for f in have if f.startswith("include/"))
        for h in r.sample(hs, min(len(hs), 14)):
            st.case("header %s %s" % (h, len(open(os.path.join(p.out, "include", h), errors="replace").read())), **{"stand-alone headers": 1})
            try:
                p.compile('#include "%s"\nint vfUnused() { return 0; }\n' % h, "h", link=False, base=HDRF)
            except cpp.Failed as e:
                out.append(failed(cpp.Failed(e.stage, e.text, "stand-alone " + e.key), x, {"header.txt": h}))
                break
        d = cpp.MsgDriver(p, s.model, rng=r)
        if d.msgs or d.fields:
            st.case("all " + texts[0][1], **{"instantiated with warnings as errors": 1})
            inc = "".join('#include "%s"\n' % h for h in r.sample(hs, len(hs)))
            try:
                p.compile(inc + d.src, "all", link=False, base=HDRF)
            except cpp.Failed as e:
                out.append(failed(cpp.Failed(e.stage, e.text, "all headers " + e.key), x))
        if seed % 5 == 0:
            for b in install(p, st)[:1]:
                out.append(Violation(b, "install " + re.sub(r"\d", "", b), dict(x, case=texts[-1][1])))
        return out[:3]
    except cpp.Failed as e:
        return [failed(e, x)]
    finally:
        p.close()


C01_PROBES = (
    # (key of the known finding, message of a schema that generates code which is not compilable)
    ("alias to the member of a field that depends on the version does not compile",
     '<message name="M" id="1"><fields><bundle name="b" sinceVersion="2"><int name="x" type="uint8"/></bundle></fields><alias name="al" field="$b.x"/></message>'),
    ("description ending with a backslash continues the comment",
     '<message name="M" id="1"><int name="x" type="uint8" description="ends with \\"/></message>'),
)


def c01_probe(k, st):
    """known findings of C01: valid schemas the code of which is not compilable"""
    key, body = C01_PROBES[k]
    text = ('<?xml version="1.0" encoding="UTF-8"?>\n<schema name="proto" endian="big" version="5" dslVersion="8">'
            '<fields><enum name="MsgId" type="uint8" semanticType="messageId"><validValue name="M" val="1"/></enum><int name="Version" type="uint16" semanticType="version"/></fields>'
            '<interface name="Iface"><ref name="version" field="Version"/></interface>' + body
            + '<frame name="Frame"><id name="id" field="MsgId"/><payload name="data"/></frame></schema>\n')
    st.case("probe: " + key, **{"known finding probes": 1})
    try:
        p = cpp.Proj([("s.xml", text)], [])
    except cpp.Failed as e:
        return [failed(e, [("s.xml", text)])]
    try:
        src = '#include "proto/Iface.h"\n#include "proto/message/M.h"\nusing I = proto::Iface<>;\nusing Msg = proto::message::M<I>;\nint vfUse(Msg& m) { %s return 0; }\n' % ("auto& a = m.field_al(); (void)a;" if "<alias" in body else "m.field_x().value() = 1;")
        try:
            p.compile(src, "probe", link=False, base=HDRF)
        except cpp.Failed as e:
            return [Violation(key, key, {"s.xml": text, "stderr.txt": e.text[:2000]})]
        return []
    finally:
        p.close()


def c01(ck):
    build.ensure(["comms"])
    ck.rule = ("a case is the set of files generated for a schema compared with the expected one, one generated header compiled alone, or all headers of a schema (random order) "
               "with all messages and fields instantiated, warnings being errors; distinct by content")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c01_probe, range(len(C01_PROBES)))
    ck.pmap(c01_job, [base + k for k in range(ck.scale(30, 1600))])


PROFILES["C09"] = PROFILES["C01"]
_D = None


def dump_model(ts):
    from .. import dumper
    global _D
    if _D is None:
        _D = dumper.Dumper()
    res = _D.run(ts)[0]
    return res["schemas"][0] if res and res.get("ok") else None


@judged
def c09_job(seed, st):
    from .. import inject
    r, s, texts = make("C09", seed)
    out = []

    def add(vs, pre):
        for v in vs[:3]:
            out.append(Violation(v[0], pre + v[1], dict(texts, case=texts[-1][1], **(v[2] if len(v) > 2 else {}))))
    apps = ["comms"] + r.sample(inject.APPS[1:], 2)
    try:
        for part in ["marked " + a for a in apps] + ["appended", "injected", "comments"]:
            if part == "injected":
                add(inject.injected(texts, r, st, dump_model), "")
            elif part == "appended":
                add(inject.appended(texts, r, st), "")
            elif part == "comments":
                if seed % 3 == 0:
                    out += inject_comments(seed, st) or []
            else:
                try:
                    add(inject.marked(part[7:], texts, r, st, inject.sources(s.model)), "")
                except cpp.Failed as e:
                    if part == "marked comms":
                        raise
                    st.count["generator %s not run on the schema (%s)" % (part[7:], e.key[:80])] += 1
    except cpp.Failed as e:
        return [failed(e, texts)]
    return out[:4]


def inject_comments(seed, st):
    """the code generated with the comments about the injection behaves as the one without"""
    return wire_job("C09", 12, ("ok", "fv"), args=["--code-inject-comments"])(seed, st)


def c09(ck):
    from .. import inject
    build.ensure(list(inject.APPS), dump=True)
    ck.rule = ("a case is a set of snippet files given to a generator (distinct by contents), followed to the generated files by their markers, or executed by a program (each snippet reports its execution), "
               "or a message of the code with the comments about the injection driven against the reference codec")
    ck.assumptions = ASSUME
    base = ck.seed * 1000003
    ck.pmap(c09_job, [base + k for k in range(ck.scale(24, 1200))])


CHECKS = {"C09": c09, "C10": c10, "C01": c01, "C08": c08, "C06": c06, "C07": c07, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
