"""P01 (hostile input), P10 (equivalent spellings)."""
import os, re, random, shutil, tempfile, time, traceback
from .. import build, gen, compare, hostile
from ..common import Violation, rng, seed_of
from ..dumper import Dumper

_d = None


def D():
    global _d
    if _d is None or _d.n > 3000:
        if _d:
            _d.close()
        _d = Dumper()
    return _d


def parse_job(job, st):
    """hostile files through the parsing library and the whole public model"""
    out = []
    for k in range(40):
        r = rng("P01", job, k)
        texts, muts = hostile.texts_of(seed_of("P01", job, k), r)
        multi = r.random() < 0.3
        res, ec, sig, err = D().run(texts, "m" if multi else "")
        files = {"in%d.xml" % i: t for i, t in enumerate(texts)} | {"case": texts[0]}
        if res is None:
            key = "parse: " + (hostile.crash_key(err) if sig != 9 else "no end")
            out.append(Violation("the library dies (exit %d signal %d) on %s: %s" % (ec, sig, ",".join(muts), key), key, files | {"stderr.txt": err[-8000:]}))
            continue
        errs = [l for l in res["log"][0::2] if l >= 3]
        if not res["ok"] and not errs:
            out.append(Violation("the schema is refused without any error (%s)" % ",".join(muts), "parse: refused silently", files))
        st.case(b"\0".join(texts), **{"parsed and dumped" if res["ok"] else "refused with an error": 1})
        for m in set(muts):
            st.count["mutation " + m] += 1
    return out


def app_job(job, st):
    """hostile files and command lines through the generators"""
    out = []
    for k in range(4):
        r = rng("P01a", job, k)
        texts, muts = hostile.texts_of(seed_of("P01a", job, k), r) if r.random() < 0.5 else ([t.encode() for t in gen.to_files(gen.make(seed_of("P01v", job, k)))], ["valid"])
        d = tempfile.mkdtemp(prefix="vfh")
        try:
            files = []
            for i, t in enumerate(texts):
                f = os.path.join(d, "in%d.xml" % i)
                open(f, "wb").write(t)
                files.append(f)
            refs = ["M", "proto"]
            try:
                refs = hostile.names_in(hostile.parse(texts[0]))
            except Exception:
                pass
            # several generators on one accepted schema
            res = D().run(texts)[0]
            apps = list(hostile.APPS) if res and res["ok"] else [r.choice(hostile.APPS)]
            for app in apps:
                args = hostile.args_of(app, r, d, refs)
                rc, o = hostile.run_app(app, files, args, d)
                if rc is None or rc == -9 or rc == -24:
                    rc, o = hostile.run_app(app, files, args, d, 200)
                rep = {"in%d.xml" % i: t for i, t in enumerate(texts)} | {"case": texts[0], "command.txt": " ".join(["commsdsl2" + app] + args), "output.txt": o[-8000:]}
                bad = None
                if rc is None or rc in (-9, -24):
                    bad = "no end"
                elif rc < 0 or rc == 86 or "nhandled exception" in o or "runtime error:" in o or "AddressSanitizer" in o:
                    bad = hostile.crash_key(o)
                elif rc and not o.strip():
                    bad = "failure (exit %d) without any message" % rc
                if bad:
                    key = "%s: %s" % (app, bad)
                    out.append(Violation("commsdsl2%s %s: %s (exit %s, changes: %s)" % (app, " ".join(args), bad, rc, ",".join(muts)), key, rep))
                else:
                    st.case("%s %s %s" % (app, args, texts[0][:20000]), **{"%s %s" % (app, "generated" if rc == 0 else "refused with a message"): 1})
                shutil.rmtree(os.path.join(d, "a"), ignore_errors=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


def p01(ck):
    build.ensure(hostile.APPS, dump=True)
    ck.rule = ("a case counts as non-trivial when the real library (or generator) ran to its end on it under ASan/UBSan with assertions enabled; distinct = distinct bytes of the input files (and command line)")
    ck.assumptions = ["hostile schemas are made by changing the schemas of the repository and generated ones (elements, properties, references, nesting, bytes); they sample the space of all inputs",
                      "40 s of processor time (200 s when repeated) count as an endless loop; leaks at exit are not judged"]
    base = ck.seed * 7919
    ck.pmap(parse_job, [base + k for k in range(ck.scale(150, 6000))])
    ck.pmap(app_job, [base + k for k in range(ck.scale(40, 1600))])


# ------------------------------------------------------------------ P10

def mdiff(a, b, path=""):
    """first difference of two model dumps"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted((set(a) | set(b)) - {"pos"}):
            if (k in a) != (k in b):
                return "%s/%s only in one" % (path, k), a.get(k), b.get(k)
            d = mdiff(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if path.endswith("/xattrs"):
            a, b = (sorted(zip(x[::2], x[1::2])) for x in (a, b))
            return None if a == b else (path, a, b)
        if path.endswith("/xelems"):
            # the contents are kept as written
            a, b = (sorted(re.match(r"<\w+", str(x)).group(0) for x in y) for y in (a, b))
            return None if a == b else (path, a, b)
        if len(a) != len(b):
            return path + " (number)", len(a), len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = mdiff(x, y, path)
            if d:
                return d
        return None
    return None if a == b or (a != a and b != b) else (path, a, b)


def tree_of(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


REENC = ["utf-8", "utf-8 bom", "utf-16", "decimal references", "hexadecimal references", "line ends", "crlf in tags"]


def reencode(t, r, st):
    """other bytes for the same XML document"""
    how = r.choice(REENC)
    st.count["encoding " + how] += 1
    b = t.encode("utf-8")
    if how == "utf-8 bom":
        return b"\xef\xbb\xbf" + b
    if how == "utf-16":
        return t.replace('encoding="UTF-8"', 'encoding="UTF-16"').encode("utf-16")
    if how.endswith("references"):
        # letters inside the values of the properties
        def one(m):
            v = m.group(2)
            i = [k for k, c in enumerate(v) if c.isalnum() and "&" not in v[max(0, k - 8):k + 1]]
            for k in sorted(r.sample(i, min(len(i), 2)), reverse=True):
                v = v[:k] + ("&#%d;" % ord(v[k]) if how[0] == "d" else "&#x%x;" % ord(v[k])) + v[k + 1:]
            return m.group(1) + v + m.group(3)
        out = []
        for x in re.split(r"(<!--.*?-->|<\?.*?\?>)", t, flags=re.S):
            out.append(x if x.startswith(("<!--", "<?")) else re.sub(r'([a-zA-Z] *= *")([^"<>]*)(")', one, x))
        return "".join(out).encode("utf-8")
    if how == "line ends":
        return b.replace(b"\n", b"\r\n")
    if how == "crlf in tags":
        return re.sub(rb"/>\n", b"\n\t />\r\n\n", b)
    return b


def p10_job(job, st):
    out = []
    for k in range(8):
        r = rng("P10", job, k)
        o = dict(code=True) if k == 0 else r.choice([{}, {}, dict(nmsgs=9, nfields=8), dict(code=True), dict(nfields=24, nmsgs=2), dict(nested_ns=True, reuse_p=0.5, msg_reuse_p=0.5)])
        try:
            s = gen.make(seed_of("P10", job, k), **o)
        except gen.GenError:
            st.count["no schema"] += 1
            continue
        base = [t.encode() for t in gen.to_files(s)]
        a = D().run(base)[0]
        if not a or not a["ok"]:
            st.count["canonical spelling refused"] += 1
            out.append(Violation("the canonical spelling of a valid schema is refused: %s" % (a["log"][-1] if a else "crash"), "refused canonical", {"canonical.xml": base[0]}))
            continue
        variants = []
        for v in range(4):
            n = r.choice([1, 1, 2, 3, 4])
            ts = gen.to_files(s, style_seed=seed_of("P10s", job, k, v), nfiles=n)
            ts = [reencode(t, r, st) for t in ts]
            variants.append(ts)
            b = D().run(ts)[0]
            files = {"canonical.xml": base[0]} | {"variant%d.xml" % i: t for i, t in enumerate(ts)}
            if not b or not b["ok"]:
                out.append(Violation("an equivalent spelling (%d files) is refused: %s" % (len(ts), (b["log"][-2:] if b else "crash")), "variant refused", files))
                continue
            d = mdiff(a["schemas"], b["schemas"])
            if d:
                out.append(Violation("an equivalent spelling (%d files) gives another model: %s: %r / %r" % ((len(ts),) + d), "model " + re.sub(r"\d+", "", d[0]), files))
                continue
            st.case(b"\0".join(ts), **{"variants with equal model": 1, "input files %d" % len(ts): 1, "bytes changed": int(ts != base)})
        if k == 0 and variants:
            out += p10_gen(base, r.choice(variants), r, st)
    return out


def p10_gen(base, ts, r, st):
    """the generators on two spellings"""
    out = []
    d = tempfile.mkdtemp(prefix="vfe")
    try:
        fs = []
        for nm, texts in (("a", base), ("b", ts)):
            l = []
            for i, t in enumerate(texts):
                p = os.path.join(d, "%s%d.xml" % (nm, i))
                open(p, "wb").write(t)
                l.append(p)
            fs.append(l)
        # the second one also gives its files by a list, with a prefix
        how = r.choice(["arguments", "list", "list and prefix", "mixed"])
        lst = os.path.join(d, "list.txt")
        b = fs[1]
        if how == "arguments":
            argb = b
        elif how == "list":
            open(lst, "w").write(r.choice(["\n", "\n\n", "\r\n" if 0 else "\n"]).join(b) + r.choice(["", "\n"]))
            argb = ["-i", lst]
        elif how == "list and prefix":
            open(lst, "w").write("\n".join(os.path.basename(x) for x in b) + "\n")
            argb = ["-i", lst, "-p", d]
        else:
            open(lst, "w").write("\n".join(b[:-1]) + "\n")
            argb = ["-i", lst, b[-1]]
        for app in hostile.APPS:
            res = []
            for nm, args in (("oa", fs[0]), ("ob", argb)):
                o = os.path.join(d, nm)
                rc, txt = hostile.run_app(app, [], ["-q", "-o", o] + list(args), d)
                res.append((rc, tree_of(o) if os.path.isdir(o) else {}, txt))
                shutil.rmtree(o, ignore_errors=True)
            files = {"canonical.xml": base[0]} | {"variant%d.xml" % i: t for i, t in enumerate(ts)}
            if res[0][0] != res[1][0]:
                out.append(Violation("commsdsl2%s: result %s for the canonical spelling, %s for an equivalent one (files by %s): %s" % (app, res[0][0], res[1][0], how, (res[0][2] + res[1][2])[-300:]), "%s result" % app, files))
                continue
            if res[0][0]:
                st.count["%s refuses both" % app] += 1
                continue
            a, b2 = res[0][1], res[1][1]
            bad = sorted(f for f in set(a) | set(b2) if a.get(f) != b2.get(f))
            if bad:
                f = bad[0]
                out.append(Violation("commsdsl2%s: %d generated files differ for two spellings, first %s" % (app, len(bad), f), "%s output" % app, files | {"a.out": a.get(f, b""), "b.out": b2.get(f, b"")}))
            else:
                st.case("%s %s %r" % (app, how, ts), **{"%s trees compared" % app: 1, "files compared": len(a), "files given by " + how: 1})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def p10(ck):
    build.ensure(hostile.APPS, dump=True)
    ck.rule = "a case is a pair of spellings of one schema; it counts as non-trivial when the library accepted both and every attribute of the two models (or every byte of the two generated trees) was compared; distinct = distinct bytes of the second spelling"
    ck.assumptions = ["equivalent spellings are the ones the generator of schemas makes: attribute / child element with value / child element with text, order of properties, wrappers of members, comments, processing instructions, white space, quotes, character references, encodings, repeated namespaces, split over files (given as arguments or by a list)"]
    base = ck.seed * 7919
    ck.pmap(p10_job, [base + k for k in range(ck.scale(48, 2500))])
