"""P02..P11: the parsed model of the real library against the reference model of generated schemas,
and refusal (with location) of schemas in which exactly one rule is broken. P01, P10 live in robust.py."""
import json, os, re
from .. import build, common, compare, dumper, gen, mutate
from ..common import Violation, rng, seed_of

NUM = {"int", "float"}
ENUM = {"enum", "set"}
COMP = {"string", "data", "list", "bitfield", "bundle", "variant", "optional", "ref"}

# schema profiles: (weight, options)
PROFILES = {
    "P03": [(4, dict(kinds=["int", "float", "bundle", "bitfield"], nfields=24, nmsgs=2, frames=False)), (1, {})],
    "P04": [(4, dict(kinds=["enum", "set", "bundle", "bitfield"], nfields=20, nmsgs=2, frames=False)), (1, {})],
    "P05": [(3, dict(nfields=18, nmsgs=2, frames=False)), (2, dict(kinds=["int", "string", "data", "list", "bundle", "variant", "optional", "ref", "bitfield"], nfields=20, nmsgs=2, depth=3)), (1, {})],
    "P06": [(3, dict(nfields=22, nmsgs=9, reuse_p=0.45, msg_reuse_p=0.6)), (1, dict(nfields=26, nmsgs=2, reuse_p=0.6, nested_ns=True))],
    "P07": [(3, dict(maxver=8, nfields=12, nmsgs=8, ver_mult=2.0)), (1, dict(maxver=5, nfields=16, nmsgs=6, reuse_p=0.4, msg_reuse_p=0.5))],
    "P08": [(2, {}), (2, dict(code=True, nfields=18)), (1, dict(maxver=8, nmsgs=8))],
    "P09": [(3, dict(nfields=12, nmsgs=9, cond_mult=3.0, kinds=["int", "enum", "set", "float", "bitfield", "bundle", "optional", "string", "list", "ref", "data"])), (1, dict(nmsgs=8, cond_mult=2.0, reuse_p=0.4, msg_reuse_p=0.5))],
    "P11": [(3, dict(nfields=8, nmsgs=12)), (1, dict(nfields=6, nmsgs=5, maxver=3)), (1, {})],
    "P02": [(1, {}), (1, dict(nmsgs=8, nfields=10)), (1, dict(code=True))],
}

VERKEYS = {"since", "depr", "removed"}
LENKEYS = {"minLen", "maxLen", "bitLen"}
CONDKEYS = {"cond", "validCond", "construct", "readCond"}
REFKEYS = {"ext", "extNs", "found", "copyCode"}


def classify(path, trail, origin):
    """Properties a difference at this place of the model speaks about."""
    keys = [k for k in path.split("/") if k]
    last = keys[-1] if keys else ""
    out = set()
    if any(k in CONDKEYS for k in keys):
        out.add("P09")
    elif last in VERKEYS:
        out.add("P07")
    elif last in LENKEYS:
        out.add("P08")
    elif last in REFKEYS:
        out.add("P06")
    if any(r for _, r in trail) or origin:
        out.add("P06")
    if trail:
        k = trail[-1][0]
        if not out or last == "bitLen":
            out.add("P03" if k in NUM else "P04" if k in ENUM else "P05")
    elif not out or out == {"P06"}:
        out.add("P11")
    if not trail and last not in VERKEYS and last not in LENKEYS and not any(k in CONDKEYS for k in keys):
        out.add("P11")
    return out


def pick_opts(pid, r):
    pr = PROFILES[pid]
    return dict(r.choice([o for w, o in pr for _ in range(w)]))


def describe(s, texts):
    return {"in%d.xml" % i: t for i, t in enumerate(texts)} | {"case": "\n".join(texts)}


def reused_msgs(s):
    return {it[2].E["name"] for it in s.items if it[1] == "messages" and ("reuse" in it[2].props or "copyFieldsFrom" in it[2].props)}


def crash_line(err):
    ls = [l for l in err.split("\n") if re.search(r"Assertion|ERROR: AddressSanitizer|runtime error|terminate called|what\(\)", l)]
    return (ls[0] if ls else err.strip()[-200:])[:300]


def crash_key(err):
    l = crash_line(err)
    m = re.search(r"(\w+\.(?:cpp|h)):\d+:.*Assertion `(.*)' failed", l)
    if m:
        return "assert %s %s" % (m.group(1), m.group(2))
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?) /repo/(\S+?):\d+", err)
    k = re.sub(r"==\d+==", "", re.sub(r"0x[0-9a-f]+", "ADDR", l))
    k = re.sub(r":\d+:\d+:", ":", k)
    return (k + " @ " + (fr[0][1] + " " + fr[0][0].split("(")[0] if fr else "?"))[:300]


def events(E):
    """Number of model values compared, by kind."""
    n = 0
    stack = [E]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            stack += [v for k, v in x.items() if not k.startswith("_")]
        elif isinstance(x, list):
            stack += x
        else:
            n += 1
    return n


def kinds_seen(E, st):
    stack = [E]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "kind" in x:
                st.count["field:" + str(x["kind"])] += 1
                if x.get("_reused"):
                    st.count["reused fields"] += 1
            stack += [v for k, v in x.items() if not k.startswith("_")]
        elif isinstance(x, list):
            stack += x


_D = None


def D():
    global _D
    if _D is None:
        _D = dumper.Dumper()
    return _D


def run_pos(pid, seed):
    r = rng("pos", pid, seed)
    opts = pick_opts(pid, r)
    s = gen.make(seed_of(pid, seed), **opts)
    style = None if r.random() < 0.3 else r.randrange(1 << 30)
    texts = gen.to_files(s, style, r.choice([1, 1, 2, 3]))
    return r, opts, s, texts


def pos_job(pid):
    def fn(i, st):
        r, opts, s, texts = run_pos(pid, i)
        res, ec, sig, err = D().run(texts)
        if len(st.samples) < 2 and i % 5 == 0:
            st.samples.append(texts[0][:1500])
        if res is None:
            return [Violation("the library dies on a valid schema: " + crash_line(err), "crash " + crash_key(err), describe(s, texts) | {"stderr.txt": err})]
        if not res["ok"]:
            m = [x for x in res["log"] if isinstance(x, str)]
            st.case(None, refused_valid=1)
            return [Violation("a valid schema is refused: " + "; ".join(m[:3]), "refused " + norm_msg(m[0] if m else "silently"), describe(s, texts))]
        out = []
        if pid == "P02" and res["log"]:
            m = [x for x in res["log"] if isinstance(x, str)]
            out.append(Violation("a valid schema is accepted with complaints: " + "; ".join(m[:3]), "complaint " + norm_msg(m[0]), describe(s, texts)))
        n = events(s.model)
        st.case(texts[0], accepted_schemas=1, model_values_compared=n)
        kinds_seen(s.model, st)
        ru = reused_msgs(s)
        for path, e, g, trail in compare.diff(s.model, res["schemas"][0]):
            ks = [k for k in path.split("/") if k]
            origin = "messages" in ks and ks.index("messages") + 1 < len(ks) and ks[ks.index("messages") + 1] in ru
            if pid == "P02" or pid not in classify(path, trail, origin):
                st.count["differences of other properties"] += 1
                continue
            kd = trail[-1][0] if trail else "-"
            out.append(Violation("model value %s differs: declared %s, parsed %s" % (path, short(e), short(g)),
                                 "diff %s %s%s" % (kd, path.split("/")[-1], " reused" if any(x for _, x in trail) else ""),
                                 describe(s, texts) | {"diff.txt": "%s\nexpected %r\ngot %r\n" % (path, e, g)}))
            if len(out) > 3:
                break
        return out
    return fn


def short(x):
    x = json.dumps(x, default=str)
    return x if len(x) < 300 else x[:300] + "..."


def norm_msg(m):
    m = re.sub(r'^.*?/?in\d+\.xml:\d+: ', '', m)
    m = re.sub(r'"[^"]*"', '""', m)
    return re.sub(r"\d+", "#", m)[:120]


def neg_job(pid, names):
    """One rule broken: must be refused, and an error must name a line of an offending element."""
    def fn(job, st):
        i, nm = job
        r = rng("neg", pid, i, nm)
        out = None
        for att in range(8):
            opts = pick_opts(pid, r) if r.random() < 0.5 else {}
            s = gen.make(seed_of("neg", pid, i, nm, att), **opts)
            m = mutate.apply(s, r, name=nm)
            if m:
                break
        else:
            st.count["rule not applicable"] += 1
            return []
        style = None if r.random() < 0.6 else r.randrange(1 << 30)
        texts = gen.to_files(s, style, r.choice([1, 1, 2]))
        return judge_neg(nm, s, m, texts, st)
    return fn


def judge_neg(nm, s, m, texts, st):
    res, ec, sig, err = D().run(texts)
    off, anc = m[2], m[3]
    what = ", ".join(o if isinstance(o, str) else "<%s %s>" % (o.tag, " ".join('%s="%s"' % kv for kv in list(o.props.items())[:6])) for o in off[:2])
    fl = describe(s, texts)
    if res is None:
        return [Violation("the library dies on an ill-formed schema (%s; %s): %s" % (nm, what, crash_line(err)), "crash " + crash_key(err), fl | {"stderr.txt": err})]
    lim = 3
    if res["ok"] and nm in mutate.WARN:
        lim = 2
    elif res["ok"]:
        return [Violation("an ill-formed schema is accepted (%s: %s)" % (nm, what), "accepted " + nm, fl)]
    errs = [x for l, x in zip(res["log"][0::2], res["log"][1::2]) if l >= lim]
    st.case(nm + texts[-1], refused=1, **{"rule " + nm: 1})
    if not errs:
        return [Violation("an ill-formed schema gets no %s message (%s: %s)" % ("error" if lim == 3 else "warning", nm, what), "silent " + nm, fl)]
    for e in errs:
        mm = re.match(r'.*/in(\d+)\.xml:(\d+): ', e)
        if not mm:
            continue
        f, l = int(mm.group(1)), int(mm.group(2))
        unplaced = any(not isinstance(o, str) and id(o) not in s.where for o in off)
        for o in list(off) + list(anc):
            if o == "schema":
                return []
            w = s.where.get(id(o))
            # for elements the start tag of an enclosing element is good enough (spread over up to 8 lines)
            if w and w[0] == f and (w[1] <= l <= w[2] if any(o is q for q in off) else w[1] <= l <= w[1] + (8 if unplaced else 3)):
                return []
    return [Violation("the error for %s (%s) does not name the place of the offending element: %s" % (nm, what, "; ".join(errs[:2])), "place " + nm, fl | {"errors.txt": "\n".join(errs)})]


def rules_of(pid):
    return [n for n, p, _ in mutate.RULES if pid in p]


RULE_TEXT = ("a case counts as non-trivial when the real library accepted the generated schema and its whole model was compared with the "
             "reference model, or when it refused a schema with one broken rule; distinct = distinct schema text (for refusals: rule + text)")


def check(pid, npos, nneg):
    def run(ck):
        build.ensure(dump=True)
        ck.rule = RULE_TEXT
        ck.assumptions = ["the reference model (vf/gen.py) states what the schema declares; it was written from the CommsDSL "
                          "documentation in /repo/doc, the test schemas and the unit tests",
                          "asserts are enabled and ASan/UBSan watch every run"]
        base = ck.seed * 1000003
        jobs = [base + k for k in range(ck.scale(npos, npos * 25))]
        ck.pmap(pos_job(pid), jobs)
        names = rules_of(pid)
        if nneg and names and len(ck.viol) < 60:
            n = ck.scale(nneg, nneg * 20)
            ck.pmap(neg_job(pid, names), [(base + k, nm) for k in range(n) for nm in names])
        ck.extra["rules_exercised"] = len([k for k in ck.stats.count if k.startswith("rule ") and k != "rule not applicable"])
        # field kind counts are enough in the evidence
    return run


from . import robust

CHECKS = {
    "P01": robust.p01,
    "P02": check("P02", 500, 20),
    "P03": check("P03", 1500, 40),
    "P04": check("P04", 1500, 50),
    "P05": check("P05", 1400, 25),
    "P06": check("P06", 1300, 40),
    "P07": check("P07", 1300, 60),
    "P08": check("P08", 1200, 150),
    "P09": check("P09", 1300, 60),
    "P10": robust.p10,
    "P11": check("P11", 1300, 25),
}
