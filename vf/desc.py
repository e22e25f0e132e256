"""Expected description of a generated field class (what refl.h reports with the d and D commands)."""
from . import codec
from .codec import wrap, NODEPR
from .wire import isnan

KIND = dict(data="list")


def label(f):
    return f["disp"] or f["name"]


def cname(n):
    return n[0].lower() + n[1:]


def desc(c, f, psince=None, name=None):
    """expected sub set of the description; name: display name when overridden by a reference"""
    x = c.make(f, psince)
    if isinstance(x, codec.VOpt):
        return dict(k="optional", f=desc(c, f, None, name))
    k = f["kind"]
    if k == "ref":
        return desc(c, c.fields[f["target"]], 0, name or label(f))
    o = dict(k=KIND.get(k, k))
    o["n"] = name or label(f)
    codec.VOpt.mask = True       # before a version is known
    try:
        o["ok"] = int(x.valid())
    except codec.Unsupported:
        pass
    o["d"] = x.tree()
    codec.VOpt.mask = False
    if f.get("fixed"):
        o["fx"] = 1
    if f["pseudo"]:
        o["ps"] = 1
    if f.get("availLim"):
        o["al"] = 1
    o["fi"] = 1 if f["failInv"] else None
    if k in ("int", "float"):
        o["sp"] = sorted([int(wrap(s["val"], x.size, x.signed)) if k == "int" else s["val"], s["disp"] or s["name"], s["name"]]
                         for s in f["specials"] if c.exists(s))
    if k == "int":
        g = f["scaling"]
        o["sc"] = list(g)
        o["do"] = f["dispOff"]
    if k in ("int", "enum", "set"):
        o["sg"] = int(x.signed)
    if k == "enum":
        o["vn"] = sorted([int(wrap(s["val"], x.size, x.signed)), s["disp"] or s["name"], s["name"]]
                         for s in f["values"] if c.value_exists(f, s))
    if k == "set":
        o["bn"] = {}
        for b in f["bits"]:
            if c.exists(b, False):
                o["bn"].setdefault(b["idx"], set()).add(b["disp"] or b["name"])
                if b["res"]:
                    o["bn"][b["idx"]].add("")
    if k in ("bitfield", "bundle", "variant"):
        ms = [m for m in f["members"]]
        o["mn2"] = [cname(m["name"]) for m in ms]
        o["m"] = [desc(c, m, f["since"] or 0) if k == "bundle" else desc(c, m) for m in ms]
    if k == "optional" and f.get("field"):
        o["f"] = desc(c, f["field"])
    if k == "list":
        o["e"] = desc(c, f["element"])
    return o


def message(c, m, iface):
    ms = [f for f in m["fields"]]
    return dict(id=m["id"], n=label(m), names=[cname(f["name"]) for f in ms], fi=int(m["failInv"]),
                f=[desc(c, f, m["since"] or 0) for f in ms])


def diff(e, o, p=""):
    """first difference of the expected description e and the observed one o"""
    if o is None:
        return p + ": nothing observed"
    for k, v in e.items():
        q = p + "." + k
        if k in ("m", "f") and isinstance(v, list):
            if len(v) != len(o.get(k, [])):
                return "%s: expected %d members, observed %d" % (q, len(v), len(o.get(k, [])))
            for i, (a, b) in enumerate(zip(v, o[k])):
                d = diff(a, b, "%s[%d]" % (q, i))
                if d:
                    return d
        elif isinstance(v, dict) and k in ("f", "e"):
            d = diff(v, o.get(k), q)
            if d:
                return d
        elif k == "fi":
            if bool(v) != bool(o.get(k)):
                return "%s: expected %r observed %r" % (q, v, o.get(k))
        elif k == "sc":
            b = o.get(k, [1, 1])
            if v[0] * b[1] != v[1] * b[0]:
                return "%s: expected %r observed %r" % (q, v, b)
        elif k == "do":
            if v != o.get(k, 0):
                return "%s: expected %r observed %r" % (q, v, o.get(k))
        elif k == "sp":
            d = specials(v, o.get(k, []), o["k"], q)
            if d:
                return d
        elif k == "vn":
            d = names(v, o, q)
            if d:
                return d
        elif k == "bn":
            for i, n in enumerate(o.get("bn", [])):
                w = v.get(i, {"", None})
                if n not in w:
                    return "%s[%d]: expected %r observed %r" % (q, i, w, n)
        elif k == "d":
            d = tree(v, o.get(k), q)
            if d:
                return d
        elif v != o.get(k):
            return "%s: expected %r observed %r" % (q, v, o.get(k))
    return None


def tree(a, b, q):
    from . import wire
    return wire.diff(a, b, q)


def specials(v, obs, kind, q):
    if len(v) != len(obs):
        return "%s: expected %d specials observed %d" % (q, len(v), len(obs))
    if kind == "int":
        e = sorted((a, t) for a, t, _ in v)
        e2 = sorted((a, t) for a, _, t in v)
        g = sorted((int(a), t) for a, t in obs)
        if e != g and e2 != g:
            return "%s: expected %r observed %r" % (q, e, g)
    else:
        if sorted(t for _, t, _ in v) != sorted(t for _, t in obs) and sorted(t for _, _, t in v) != sorted(t for _, t in obs):
            return "%s: expected %r observed %r" % (q, v, obs)
    return None


def names(v, o, q):
    vn = o.get("vn")
    if vn is None:
        return "%s: nothing observed" % q
    best = {}
    for a, t, n in v:
        best.setdefault(a, set()).add(t)
    if vn and isinstance(vn[0], list):
        got = {}
        for a, t in vn:
            got.setdefault(int(a), set()).add(t)
        for a in best:
            if a not in got or not got[a] <= best[a]:
                return "%s: value %d is called %r, expected %r" % (q, a, sorted(got.get(a, [])), sorted(best[a]))
        if set(got) != set(best):
            return "%s: expected values %r observed %r" % (q, sorted(best), sorted(got))
        vq = o.get("vq")
        for (a, t), z in zip(vn, vq):
            if z not in best[int(a)]:
                return "%s: valueName(%s) is %r, expected one of %r" % (q, a, z, sorted(best[int(a)]))
    else:
        for i, t in enumerate(vn):
            if i in best:
                if t not in best[i] or o["vq"][i] not in best[i]:
                    return "%s: value %d is called %r (%r), expected one of %r" % (q, i, t, o["vq"][i], sorted(best[i]))
            elif t:
                return "%s: undefined value %d is called %r" % (q, i, t)
        for a in best:
            if not 0 <= a < len(vn):
                return "%s: value %d has no name" % (q, a)
    return None


# ------------------------------------------------------------------ explicit accessors
def ucls(n):
    return n[0].upper() + n[1:]


def cint(v, x):
    v = wrap(v, x.size, x.signed)
    return "%dULL" % v if v >= 0 else "static_cast<long long>(0x%xULL)" % (v & ((1 << 64) - 1))


class Access:
    """C++ statements which use the generated named accessors and report the ones with a wrong result"""

    def __init__(self, c, limit=250):
        self.c = c
        self.n = 0
        self.code = []
        self.checks = 0
        self.limit = limit

    def ck(self, expr, name):
        self.code.append('    CK(%s, "%s");' % (expr, name))
        self.checks += 1

    def type(self, expr):
        self.n += 1
        self.code.append("    using T%d = %s;" % (self.n, expr))
        return "T%d" % self.n

    def field(self, f, T, psince, name):
        c = self.c
        if self.checks > self.limit:
            return
        if isinstance(c.make(f, psince), codec.VOpt):
            T = self.type(T + "::Field")
        k = f["kind"]
        if k == "ref":
            return self.field(c.fields[f["target"]], T, 0, name)
        if k in ("int", "float"):
            x = c.inner(f)
            for s in f["specials"]:
                if not c.exists(s):
                    continue
                n = ucls(s["name"])
                if k == "int":
                    self.ck("%s::value%s() == static_cast<%s::ValueType>(%s)" % (T, n, T, cint(s["val"], x)), name + " value" + n)
                self.ck("refl::special<%s>([](%s& f) { f.setValue(%s::value%s()); return f.is%s(); })" % (T, T, T, n, n), name + " is" + n)
                self.ck("refl::special<%s>([](%s& f) { f.set%s(); return f.is%s(); })" % (T, T, n, n), name + " set" + n)
        elif k == "enum" and f["sem"] != 2:
            x = c.inner(f)
            for v in f["values"]:
                if c.value_exists(f, v):
                    self.ck("%s::ValueType::%s == static_cast<%s::ValueType>(%s)" % (T, v["name"], T, cint(v["val"], x)), name + " " + v["name"])
        elif k == "set":
            for b in f["bits"]:
                if c.exists(b, False) and not b["res"]:
                    n = b["name"]
                    self.ck("%s::BitIdx_%s == %d" % (T, n, b["idx"]), name + " BitIdx_" + n)
                    self.ck("refl::bit<%s>([](%s& f, bool v) { f.setBitValue_%s(v); return f.getBitValue_%s(); }, %d)" % (T, T, n, n, b["idx"]), name + " " + n)
        elif k in ("bundle", "bitfield", "variant"):
            ms = [m for m in f["members"]]
            for i, m in enumerate(ms):
                n = cname(m["name"])
                self.ck("%s::FieldIdx_%s == %d" % (T, n, i), name + " FieldIdx_" + n)
                if k == "variant":
                    self.ck("refl::special<%s>([](%s& f) { f.initField_%s(); return f.currentField() == %d && static_cast<const void*>(&f.accessField_%s()) == static_cast<const void*>(&const_cast<const %s&>(f).accessField_%s()); })" % (
                        T, T, n, i, n, T, n), name + " " + n)
                self.field(m, self.type("%s::Field_%s" % (T, n)), (f["since"] or 0) if k == "bundle" else None, name + "." + m["name"])
            for a in f.get("aliases", []):
                self.alias(T, a, name, "field_")
        elif k == "optional":
            if f.get("field"):
                self.field(f["field"], self.type(T + "::Field"), None, name)
        elif k == "list":
            self.field(f["element"], self.type(T + "::ElementType"), None, name + "[]")

    def alias(self, T, a, name, pref):
        p = a["field"].split(".")
        e = "%s%s()" % (pref, cname(p[0])) + "".join(".field_%s()" % cname(x) for x in p[1:])
        self.ck("refl::special<%s>([](%s& f) { return static_cast<const void*>(&f.%s%s()) == static_cast<const void*>(&f.%s); })" % (T, T, pref, cname(a["name"]), e),
                name + " alias " + a["name"])

    def message(self, m, T):
        c = self.c
        T = self.type(T)
        ms = [f for f in m["fields"]]
        for i, f in enumerate(ms):
            n = cname(f["name"])
            self.ck("%s::FieldIdx_%s == %d" % (T, n, i), m["name"] + " FieldIdx_" + n)
            self.field(f, self.type("%s::Field_%s" % (T, n)), m["since"] or 0, m["name"] + "." + f["name"])
        for a in m["aliases"]:
            self.alias(T, a, m["name"], "field_")

    def source(self):
        return ('#define CK(e, n) do { if (!(e)) { bad += n; bad += ";"; } } while (false)\nstatic std::string accessBad()\n{\n    std::string bad;\n%s\n    return bad;\n}\n'
                % "\n".join(self.code))
