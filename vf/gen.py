"""Constructive random generator of CommsDSL schemas together with the model a correct parser
must report for them (same shape as drivers/dump.cpp prints). Everything expected here is
derived from the CommsDSL rules, never from the output of the code under test."""
import copy, random, struct
from .xmlgen import El

NODEPR = 0xFFFFFFFF
INF = (1 << 64) - 1
KINDS = ["int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant"]
IT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"]
ITLEN = [1, 1, 2, 2, 4, 4, 8, 8, 10, 10]
UNITS = [
    (1, ["ns", "nanosec", "nanoseconds"]), (2, ["us", "microsec", "microseconds"]), (3, ["ms", "millisec", "milliseconds"]),
    (4, ["s", "sec", "seconds"]), (5, ["min", "minutes"]), (6, ["h", "hours"]), (7, ["d", "days"]), (8, ["w", "weeks"]),
    (9, ["nm", "nanometers"]), (10, ["um", "micrometres"]), (11, ["mm", "millimeters"]), (12, ["cm", "centimeters"]),
    (13, ["m", "meters"]), (14, ["km", "kilometres"]), (15, ["nm/s", "nmps", "nanometers/second"]), (16, ["um/s", "umps"]),
    (17, ["mm/s", "mmps", "millimeters/second"]), (18, ["cm/s", "cmps"]), (19, ["m/s", "mps", "meters/second"]),
    (20, ["km/s", "kmps"]), (21, ["km/h", "kmph", "kilometers/hour"]), (22, ["hz", "Hertz"]), (23, ["KHz", "kilohertz"]),
    (24, ["MHz", "megahertz"]), (25, ["GHz", "gigahertz"]), (26, ["deg", "degrees"]), (27, ["rad", "radians"]),
    (28, ["nA", "nanoamps"]), (29, ["uA", "microamps"]), (30, ["mA", "milliamps"]), (31, ["A", "amps"]), (32, ["kA", "kiloamps"]),
    (33, ["nV", "nanovolts"]), (34, ["uV", "microvolts"]), (35, ["mV", "millivolts"]), (36, ["V", "volts"]), (37, ["kV", "kilovolts"]),
    (38, ["b", "bytes"]), (39, ["kb", "kilobytes"]), (40, ["mb", "megabytes"]), (41, ["gb", "gigabytes"]), (42, ["tb", "terabytes"]),
]
OVR = ["any", "replace", "extend", "none"]


def is_unsigned(t):
    return t in (1, 3, 5, 7, 9)


def is_big(t):
    return t in (7, 9)


def is_var(t):
    return t >= 8


def s64(v):
    v &= INF
    return v - (1 << 64) if v >> 63 else v


def type_range(t):
    if t == 8:
        return -(1 << 63), (1 << 63) - 1
    if t == 9:
        return 0, INF
    b = ITLEN[t] * 8
    return (0, (1 << b) - 1) if is_unsigned(t) else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def ser_range(t, length, bits):
    """Values representable on the wire for given length (bytes) or, in bitfields, bits."""
    if is_var(t):
        b = min(length * 7, 64)
        if t == 9:
            return 0, (1 << b) - 1
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    if is_unsigned(t):
        return 0, (1 << bits) - 1
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


class GenError(Exception):
    pass


class Ctx:
    def __init__(self, seed, **o):
        self.r = random.Random(seed)
        self.o = dict(nfields=14, nmsgs=5, code=False, dsl=None, versions=True, xattrs=True, conds=True, reuse=True,
                      nested_ns=True, texts=2, valuerefs=True, kinds=None, wild=True, ifaces=True, frames=True,
                      platforms=True, depth=2, maxver=None, name="proto", pseudo=True, sem=True, endian=None, dets=True,
                      vcond=True, deprmsgs=True, lib=None, reuse_p=0.18, msg_reuse_p=0.22, ver_mult=1, cond_mult=1)
        self.o.update(o)
        r = self.r
        self.version = self.o["maxver"] if self.o["maxver"] is not None else r.choice([0, 1, 3, 5, 8])
        if not self.o["versions"]:
            self.version = 0
        self.dsl = self.o["dsl"] if self.o["dsl"] is not None else r.choice([0, 7, 8])
        self.endian = r.randrange(2) if self.o["endian"] is None else self.o["endian"]
        self.names = set()
        self.glob = {}      # ref -> (kind, E) global fields in definition order
        self.msgs = {}
        self.ifaces = {}
        self.items = []     # (nspath tuple, section, El)
        self.tree = None
        self.n = 0
        self.schema_name = self.o["name"]
        if self.o["lib"]:
            # fields of another schema, known by their full names
            pre = "@" + self.o["lib"].c.schema_name + "."

            def full(x):
                if isinstance(x, dict):
                    if "_t" in x:
                        x["_t"] = pre + x["_t"]
                    x = list(x.values())
                if isinstance(x, list):
                    for y in x:
                        full(y)
            for k, E in self.o["lib"].c.glob.items():
                E = copy.deepcopy(E)
                full(E)
                E["_ref"] = pre + k
                self.glob[pre + k] = E

    # ---- basic random helpers
    def ch(self, p):
        return self.r.random() < p

    def name(self, prefix="f", upper=None):
        self.n += 1
        base = self.r.choice(["alpha", "beta", "gamma", "delta", "val", "len", "mode", "speed", "x", "status", "cfg", "Temp", "hdr", "raw_v", "Unit2x"])
        s = "%s%s%d" % (prefix, base.capitalize() if self.ch(0.5) else base, self.n)
        up = self.ch(0.5) if upper is None else upper
        return (s[0].upper() if up else s[0].lower()) + s[1:]

    def text(self, allow_ref=True):
        r = self.r
        lvl = self.o["texts"]
        words = ["plain", "Some", "text", "value", "of the", "field", "42", "max-rate", "A.B", "(x)"]
        if lvl >= 2:
            words += ["a<b", "c&d", "\"q\"", "it's", "100%", "a_b", "#1", "$5", "{z}", "~t", "é", "a\\b", "a^2", "/*", "x;y", "tab"]
        k = r.randrange(1, 5)
        s = " ".join(r.choice(words) for _ in range(k))
        if s[0] in "^\\":
            s = "t" + s
        return s

    def fmt(self, v, allow_hex=True):
        """Equivalent literal notations of an integer."""
        r = self.r
        if v >= 0 and allow_hex and r.random() < 0.3:
            return r.choice(["0x%x", "0x%X", "0X%x", "0x%04x"]) % v
        return str(v)

    def boolstr(self, b):
        return self.r.choice(["true", "True", "1", "TRUE"] if b else ["false", "False", "0", "FALSE"])

    def versions(self, el, since0, depr0, p=0.5, like=()):
        """Random since/deprecated within the parent's bounds; like: entries whose since version is often repeated."""
        since, depr = since0, depr0
        hi = min(self.version, depr0 - 1 if depr0 != NODEPR else self.version)
        if self.o["versions"] and self.version and self.ch(p * self.o["ver_mult"]):
            prev = [x["since"] for x in like if since0 < x["since"] <= hi]
            if prev and self.ch(0.5):
                since = self.r.choice(prev)
                el.p("sinceVersion", self.fmt(since))
            elif since0 <= hi and self.ch(0.75):
                since = self.r.randint(since0, hi)
                el.p("sinceVersion", self.fmt(since))
            lim = min(self.version, depr0)
            if since + 1 <= lim and self.ch(0.45):
                depr = self.r.randint(since + 1, lim)
                el.p("deprecated", str(depr))
        return since, depr

    # ---- value references
    def num_ref(self, lo, hi, v=None):
        """A reference (string) to a numeric value within [lo,hi], or None."""
        c = []
        for ref, E in self.glob.items():
            if E["kind"] not in ("enum", "int"):
                continue
            u = INF if is_big(E["type"]) else -1
            if E["kind"] == "enum":
                c += [(ref + "." + x["name"], x["val"] & u) for x in E["values"]]
            elif E["kind"] == "int":
                c.append((ref, E["def"] & u))
                c += [(ref + "." + x["name"], x["val"] & u) for x in E["specials"]]
        big = [x for x in c if x[1] >= 1 << 63]
        if big and hi == INF and self.ch(0.7):
            c = big
        c = [x for x in c if lo <= x[1] <= hi and (v is None or x[1] == v)]
        return self.r.choice(c) if c else None


def common(kind, since, depr):
    return dict(kind=kind, name="", disp="", desc="", sem=0, minLen=0, maxLen=0, bitLen=0, since=since, depr=depr,
                removed=False, pseudo=False, fixed=False, custom=False, failInv=False, forceGen=False, ovr=[0] * 7, copyCode="")


class P:
    """Where a field lives."""

    def __init__(self, kind, since=0, depr=NODEPR, ns=None, siblings=None, depth=0, bits=None, version_ok=False, role=""):
        self.kind = kind            # ns, bundle, message, interface, bitfield, list, prefix, optional, variant, layer
        self.since, self.depr = since, depr
        self.ns = ns
        self.siblings = siblings if siblings is not None else []
        self.depth = depth
        self.bits = bits
        self.version_ok = version_ok
        self.role = role


# ------------------------------------------------------------------ field
def add_max(a, b):
    return min(INF, a + b)


def mx(v):
    return v["ge"] if isinstance(v, dict) else v


def loose(v):
    return isinstance(v, dict)


def resolve(c, E):
    while E["kind"] == "ref":
        E = c.glob[E["_t"]]
    return E


def choose_src(c, kind, p):
    cand = [ref for ref, E in c.glob.items() if E["kind"] == kind and not E.get("_noreuse")]
    return c.r.choice(cand) if cand and c.o["reuse"] else None


def field(c, p, kind=None, name=None, **kw):
    r = c.r
    kinds = [k for k in KINDS if not c.o["kinds"] or k in c.o["kinds"]]
    if kind is None:
        if p.kind == "bitfield":
            kind = r.choice(["int", "int", "enum", "set"])
        elif p.depth >= c.o["depth"]:
            kind = r.choice([k for k in kinds if k in ("int", "enum", "set", "float", "string", "data", "ref")] or ["int"])
        else:
            kind = r.choice(kinds)
    if kind == "ref" and (p.kind == "bitfield" or not c.glob):
        kind = "int"
    if kind in ("optional", "variant") and p.kind in ("optional",):
        kind = "int"
    el = El(kind)
    E = None
    since, depr = p.since, p.depr
    reused = None
    noreuse_ok = kind not in ("ref",) and p.kind != "bitfield"
    if noreuse_ok and c.ch(kw.pop("reuse_p", c.o["reuse_p"])):
        reused = choose_src(c, kind, p)
    if p.version_ok and p.kind in ("bundle", "message"):
        since, depr = c.versions(el, p.since, p.depr, kw.pop("ver_p", 0.3))
    kw.pop("ver_p", None)
    if reused:
        src = c.glob[reused]
        E = copy.deepcopy(src)
        el.p("reuse", reused)
        for k in ("_t0",):
            E.pop(k, None)
        E.update(since=since, depr=depr, removed=False, ovr=[0] * 7, copyCode="")
        E.pop("xattrs", None)
        E.pop("xelems", None)
        E["_reused"] = reused
        if c.ch(0.25):
            b = c.ch(0.7)
            el.p("reuseCode", c.boolstr(b))
            if b:
                E["copyCode"] = reused
        elif c.ch(0.1):
            pass
    else:
        E = common(kind, since, depr)
    E["_since0"] = since
    # name
    if name or not (reused and c.ch(0.15) and not p.kind == "ns"):
        E["name"] = name or c.name(dict(int="i", enum="e", set="s", float="d", bitfield="bf", bundle="b", string="str", data="dat",
                                       list="l", ref="r", optional="o", variant="v")[kind])
        el.p("name", E["name"])
    elif E["name"] in [s["name"] for s in p.siblings] or any(s["name"].lower() == E["name"].lower() for s in p.siblings):
        E["name"] = c.name("n")
        el.p("name", E["name"])
    if depr != NODEPR and p.version_ok and el.props.get("deprecated") and c.ch(0.4):
        E["removed"] = True
        el.p("removed", c.boolstr(True))
    # texts
    for prop, key, pr in (("displayName", "disp", 0.25), ("description", "desc", 0.2)):
        if c.ch(pr):
            t = c.text()
            x = t
            strs = [(ref, e["def"]) for ref, e in c.glob.items() if e["kind"] == "string" and e["def"]]
            if strs and c.ch(0.12) and c.o["valuerefs"]:
                ref, x = r.choice(strs)
                t = "^" + ref
            elif c.ch(0.04) and c.o["texts"] >= 2:
                x = "^" + t
                t = "\\^" + t
            el.p(prop, t)
            E[key] = x
    # flags
    if not kw.get("bare"):
        if c.ch(0.06) and c.o["pseudo"] and p.kind in ("ns", "message", "bundle") and kind in ("int", "enum", "set", "float") and not p.role:
            E["pseudo"] = True
            el.p("pseudo", c.boolstr(True))
        for prop, key, pr in (("customizable", "custom", 0.06), ("failOnInvalid", "failInv", 0.06), ("forceGen", "forceGen", 0.05)):
            if c.ch(pr) and not (c.o["code"] and kind == "ref" and key == "failInv"):
                v = c.ch(0.8)
                el.p(prop, c.boolstr(v))
                E[key] = v
        if c.ch(0.05) and p.kind in ("bundle", "message") and kind == "int" and not c.o["code"]:
            E["fixed"] = True
            el.p("fixedValue", c.boolstr(True))
        if not c.o["code"]:
            for i, prop in enumerate(["valueOverride", "readOverride", "writeOverride", "refreshOverride", "lengthOverride", "validOverride", "nameOverride"]):
                if c.ch(0.03):
                    v = r.randrange(4)
                    el.p(prop, r.choice([OVR[v], OVR[v].upper(), OVR[v].capitalize()]))
                    E["ovr"][i] = v
            if c.ch(0.04) and "reuseCode" not in el.props:
                same = [ref for ref, e in c.glob.items() if e["kind"] == kind]
                if same:
                    E["copyCode"] = r.choice(same)
                    el.p("copyCodeFrom", E["copyCode"])
        if c.o["xattrs"] and c.ch(0.06):
            v = c.text()
            el.p("x_tag%d" % r.randrange(3), v)
            el.attr_only |= {k for k in el.props if k.startswith("x_")}
            E["xattrs"] = [[k, el.props[k]] for k in el.props if k.startswith("x_")]
            E["xattrs"] = sum(E["xattrs"], []) if not reused else None
    BUILD[kind](c, p, el, E, reused, kw)
    if E["minLen"] is not None and c.ch(0.06) and not kw.get("bare") and p.kind != "bitfield" and not E.get("_minLenUnk"):
        el.p("validateMinLength", str(E["minLen"]))
        if kind == "bundle":
            E["_noreuse"] = True     # the check is inherited by reuse
    if p.kind == "ns":
        E["_ref"] = ".".join(list(p.ns) + [E["name"]])
        E["ext"] = "@" + c.schema_name + "." + E["_ref"]
        E["extNs"] = E["_ref"]
        E["found"] = True
    else:
        E["ext"] = ""
        E["extNs"] = ""
        E.pop("found", None)
        E.pop("_ref", None)
    el.E = E
    el.place = p.kind
    el.sibs = p.siblings
    return el, E


def endian_of(c, el, E, reused):
    if reused and not c.ch(0.2):
        return
    if not c.ch(0.35):
        E["endian"] = c.endian if not reused else E["endian"]
        return
    E["endian"] = c.r.randrange(2)
    el.p("endian", c.r.choice([["little", "Little", "LITTLE"], ["big", "Big", "BIG"]][E["endian"]]))


def int_base(c, p, el, E, reused, kw, types=range(10)):
    """type/length/bitLength, shared by int and enum. Returns ser range bits."""
    r = c.r
    if not reused:
        t = kw.get("type")
        if t is None:
            t = r.choice([x for x in types if p.kind != "bitfield" or x < 8])
        E["type"] = t
        length = ITLEN[t]
        bits = None
        if p.kind == "bitfield":
            bits = p.bits
            if t in (0, 1) and bits > 8 or ITLEN[t] * 8 < bits:
                t = r.choice([x for x in types if x < 8 and ITLEN[x] * 8 >= bits])
                E["type"] = t
                length = ITLEN[t]
        if kw.get("maxlen") and length > kw["maxlen"]:
            length = kw["maxlen"]
            el.p("length", str(length))
        elif p.kind != "bitfield" and c.ch(0.25) and not kw.get("fulllen"):
            length = r.randint(1, ITLEN[t])
            el.p("length", c.fmt(length))
        if p.kind == "bitfield":
            full = ITLEN[t] * 8
            if bits != full or c.ch(0.5):
                el.p("bitLength", str(bits))
            length = ITLEN[t]
            E["bitLen"] = bits
        el.p("type", IT[t] if not c.ch(0.1) else IT[t].upper())
        E["_len"] = length
    elif c.ch(0.1):
        el.p("type", IT[E["type"]])
    t = E["type"]
    E["minLen"] = 1 if is_var(t) else E["_len"]
    E["maxLen"] = E["_len"]
    if p.kind == "bitfield":
        E["minLen"] = E["maxLen"] = None     # meaningless for a part of a byte
    bits = E["bitLen"] if p.kind == "bitfield" else E["_len"] * 8
    return ser_range(t, E["_len"], bits)


def pick_val(c, lo, hi):
    r = c.r
    x = r.random()
    if x < 0.12:
        return lo
    if x < 0.24:
        return hi
    if x < 0.6:
        m = max(lo, min(hi, r.randint(-20, 300)))
        return m
    if x < 0.8:
        b = (1 << r.choice([7, 8, 15, 16, 31, 32, 53, 63, 63])) * r.choice([1, 1, 1, -1]) + r.choice([0, 0, -1, 1])
        if lo <= b <= hi:
            return b
    return r.randint(lo, hi)


def b_int(c, p, el, E, reused, kw):
    r = c.r
    smin, smax = int_base(c, p, el, E, reused, kw)
    t = E["type"]
    tmin, tmax = type_range(t)
    if not reused:
        E.update(serOffset=0, scaling=[1, 1], ranges=[], specials=[], units=0, vcv=False, dispDec=0, dispOff=0, signExt=True,
                 availLim=False, **{"def": 0})
        E["_nonuniq"] = False
    endian_of(c, el, E, reused)
    if not reused and c.ch(0.15) and t < 8 and p.role != "prefix":
        span = smax - smin
        m = min(span // 2, 1 << 30, (1 << 62))
        if c.o["code"]:
            m = min(m, 1000)
        if m > 1:
            E["serOffset"] = r.randint(-m, m)
            if E["serOffset"]:
                el.p("serOffset", str(E["serOffset"]))
    off = E["serOffset"]
    mn, mxv = smin - off, smax - off
    if is_unsigned(t):
        mn = max(0, mn)
        if mxv > INF:
            mxv = INF if t in (7, 9) else mxv
    else:
        mn = max(mn, -(1 << 63)); mxv = min(mxv, (1 << 63) - 1)
    if t not in (7, 9):
        mn, mxv = max(mn, tmin), min(mxv, tmax)
    E["min"], E["max"] = s64(mn), s64(mxv)
    lo, hi = max(mn, tmin), min(mxv, tmax)     # values that are both legal and serialisable
    if lo > hi:
        raise GenError("int range")
    E["_lo"], E["_hi"] = lo, hi
    if c.ch(0.15):
        a, b = r.choice([(1, 10), (1, 1000), (2, 3), (100, 1), (-1, 5), (7, 9), (1, 1)])
        E["scaling"] = [a, b]
        el.p("scaling", "%d/%d" % (a, b) if b != 1 or c.ch(0.5) else str(a))
    if c.ch(0.05):
        E["_nonuniq"] = True
        el.p("nonUniqueSpecialsAllowed", c.boolstr(True))
    since, depr = E["since"], E["depr"]
    if c.ch(0.25) and p.role != "prefix":
        vals = set()
        for _ in range(r.randint(1, 3)):
            v = pick_val(c, lo, hi)
            if v in vals and not E["_nonuniq"]:
                continue
            vals.add(v)
            n = c.name("Spec")
            s = El("special", name=n)
            lit = c.fmt(v)
            rf = c.num_ref(lo, hi) if c.ch(0.15) and c.o["valuerefs"] else None
            if rf and (rf[1] not in vals or E["_nonuniq"]):
                lit, v = rf
                vals.add(v)
            s.p("val", lit)
            sv, dv = c.versions(s, since, depr, 0.3)
            X = dict(name=n, val=s64(v), since=sv, depr=dv, desc="", disp="")
            if c.ch(0.2):
                X["desc"] = c.text(); s.p("description", X["desc"])
            if c.ch(0.2):
                X["disp"] = c.text(); s.p("displayName", X["disp"])
            el.multi.append(("special", s))
            E["specials"].append(X)
    E["specials"].sort(key=lambda x: x["name"].encode())
    defval = None
    if c.ch(0.35):
        v = pick_val(c, lo, hi)
        lit = c.fmt(v)
        x = r.random()
        inr = [q for q in E["specials"] if lo <= (q["val"] & INF if is_big(t) else q["val"]) <= hi]
        if x < 0.2 and inr:
            q = r.choice(inr)
            lit, v = q["name"], q["val"]
        elif x < 0.35 and c.o["valuerefs"]:
            rf = c.num_ref(lo, hi)
            if rf:
                lit, v = rf
        E["def"] = s64(v)
        if c.ch(0.2) and p.role != "prefix":
            el.p("defaultValidValue", lit)
            E["ranges"] = E["ranges"] + [dict(min=E["def"], max=E["def"], since=since, depr=depr)]
        else:
            el.p("defaultValue", lit)
    elif not reused and not lo <= 0 <= hi:
        E["def"] = s64(lo)
        el.p("defaultValue", str(lo))
    if c.ch(0.09):
        E["vcv"] = True
        el.p("validCheckVersion", c.boolstr(True))
    if c.ch(0.6 if E["vcv"] else 0.3) and p.role != "prefix":
        for _ in range(r.randint(1, 4)):
            form = r.choice(["validRange", "validRange", "validValue", "validMin", "validMax"])
            a, b = sorted([pick_val(c, lo, hi), pick_val(c, lo, hi)])
            if c.ch(0.25) and E["ranges"]:
                # adjacent to an existing one
                q = r.choice(E["ranges"])
                qm = q["max"] & INF if is_big(t) else q["max"]
                if qm < hi:
                    a = qm + 1
                    b = max(a, b)
            m = El(form)
            fa, fb = c.fmt(a), c.fmt(b)
            if form == "validRange":
                m.p("value", r.choice(["[%s,%s]", "[%s, %s]", "[ %s , %s ]"]) % (fa, fb))
            elif form == "validValue":
                m.p("value", fa); b = a
            elif form == "validMin":
                m.p("value", fa); b = mxv
            else:
                m.p("value", fb); a = mn
            sv, dv = c.versions(m, since, depr, 0.7 if E["vcv"] else 0.3, E["ranges"])
            el.multi.append((form, m))
            E["ranges"] = E["ranges"] + [dict(min=s64(a), max=s64(b), since=sv, depr=dv)]
    if c.ch(0.15):
        u, al = r.choice(UNITS)
        E["units"] = u
        a = r.choice(al)
        el.p("units", a if c.ch(0.7) else a.upper())
    if c.ch(0.08):
        E["dispDec"] = r.randint(0, 6); el.p("displayDecimals", str(E["dispDec"]))
    if c.ch(0.08):
        E["dispOff"] = r.randint(-3000, 3000); el.p("displayOffset", str(E["dispOff"]))
    part = p.kind == "bitfield" and E["bitLen"] and E["bitLen"] < 8 * ITLEN[t]
    if not is_unsigned(t) and t < 8 and (E["_len"] < ITLEN[t] or part) and c.ch(0.4):
        E["signExt"] = c.ch(0.4); el.p("signExt", c.boolstr(E["signExt"]))
    if c.ch(0.05) and p.kind != "bitfield":
        E["availLim"] = True; el.p("availableLengthLimit", c.boolstr(True))


def b_enum(c, p, el, E, reused, kw):
    r = c.r
    smin, smax = int_base(c, p, el, E, reused, kw)
    t = E["type"]
    since, depr = E["since"], E["depr"]
    if not reused:
        E.update(values=[], nonUniq=False, vcv=False, hex=False, availLim=False, **{"def": 0})
    endian_of(c, el, E, reused)
    lo, hi = smin, smax
    E["_lo"], E["_hi"] = lo, hi
    if c.ch(0.08) and not kw.get("unique"):
        E["nonUniq"] = True; el.p("nonUniqueAllowed", c.boolstr(True))
    used = {x["val"] for x in E["values"]}
    cnt = r.randint(0, 2) if reused else kw.get("count", r.choice([1, 2, 3, 5, 8]))
    nxt = None
    fixed = kw.get("values")
    for i in range(cnt if fixed is None else len(fixed)):
        if fixed is not None:
            n, v = fixed[i]
        else:
            n = c.name("Val") if c.ch(0.7) else c.name("val")
            for _ in range(20):
                v = nxt if nxt is not None and c.ch(0.6) and nxt <= hi else pick_val(c, lo, hi)
                if s64(v) not in used or (E["nonUniq"] and c.ch(0.5)):
                    break
            else:
                continue
        lit = c.fmt(v)
        if c.o["valuerefs"] and c.ch(0.08) and fixed is None:
            rf = c.num_ref(lo, hi)
            if rf and s64(rf[1]) not in used:
                lit, v = rf
        used.add(s64(v))
        nxt = v + 1
        m = El("validValue", name=n)
        m.p("val", lit)
        # generating an older version needs at least one value
        sv, dv = c.versions(m, since, depr, 0.3 if fixed is None and (i or not c.o.get("code")) else 0)
        X = dict(name=n, val=s64(v), since=sv, depr=dv, desc="", disp="")
        if c.ch(0.15):
            X["desc"] = c.text(); m.p("description", X["desc"])
        if c.ch(0.15):
            X["disp"] = c.text(); m.p("displayName", X["disp"])
        el.multi.append(("validValue", m))
        E["values"] = E["values"] + [X]
    E["values"].sort(key=lambda x: x["name"].encode())
    if c.ch(0.35) or (not reused and not lo <= 0 <= hi):
        if E["values"] and c.ch(0.7):
            x = r.choice(E["values"])
            E["def"] = x["val"]
            el.p("defaultValue", x["name"])
        else:
            v = pick_val(c, lo, hi)
            E["def"] = s64(v)
            el.p("defaultValue", c.fmt(v))
    if c.ch(0.08):
        E["vcv"] = True; el.p("validCheckVersion", c.boolstr(True))
    if is_unsigned(t) and c.ch(0.15):
        E["hex"] = True; el.p("hexAssign", c.boolstr(True))
    if c.ch(0.05) and p.kind != "bitfield":
        E["availLim"] = True; el.p("availableLengthLimit", c.boolstr(True))
    vals = [x["val"] for x in E["values"]]
    E["uniq"] = len(set(vals)) == len(vals)
    sem = kw.get("sem", 0)
    if sem:
        E["sem"] = sem
        el.p("semanticType", r.choice(["messageId", "messageid", "MessageId"]))


def b_set(c, p, el, E, reused, kw):
    r = c.r
    since, depr = E["since"], E["depr"]
    if not reused:
        E.update(bits=[], nonUniq=False, vcv=False, defBit=False, resBit=False, availLim=False)
        if p.kind == "bitfield":
            bl = p.bits
            E["bitLen"] = bl
            ln = (bl + 7) // 8
            t = {1: 1, 2: 3, 3: 5, 4: 5}.get(ln, 7)
            x = r.random()
            if x < 0.5:
                el.p("bitLength", str(bl))
            else:
                el.p("bitLength", str(bl)); el.p("type", IT[t])
            E["_len"] = ln if "type" not in el.props else ITLEN[t]
        else:
            x = r.random()
            if x < 0.5:
                ln = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 8])
                el.p("length", str(ln))
                t = {1: 1, 2: 3, 3: 5, 4: 5}.get(ln, 7)
            else:
                t = r.choice([1, 3, 5, 7])
                ln = ITLEN[t]
                el.p("type", IT[t])
                if c.ch(0.3):
                    ln = r.randint(1, ln); el.p("length", str(ln))
            E["_len"] = ln
        E["type"] = t
    ln = E["_len"]
    nb = E["bitLen"] if p.kind == "bitfield" else ln * 8
    E["_nbits"] = nb
    E["minLen"] = E["maxLen"] = ln if p.kind != "bitfield" else None
    endian_of(c, el, E, reused)
    if not reused:
        if c.ch(0.25):
            E["defBit"] = c.ch(0.7); el.p("defaultValue", c.boolstr(E["defBit"]))
        if c.ch(0.25):
            E["resBit"] = c.ch(0.7); el.p("reservedValue", c.boolstr(E["resBit"]))
    if c.ch(0.08):
        E["nonUniq"] = True; el.p("nonUniqueAllowed", c.boolstr(True))
    if c.ch(0.08):
        E["vcv"] = True; el.p("validCheckVersion", c.boolstr(True))
    used = {x["idx"]: x for x in E["bits"]}
    for _ in range(r.randint(0, 2) if reused else r.choice([0, 1, 2, 4, min(nb, 8)])):
        for _ in range(20):
            idx = r.randrange(nb)
            if idx not in used or (E["nonUniq"] and c.ch(0.5) and not reused):
                break
        else:
            continue
        m = El("bit")
        n = c.name("Bit") if c.ch(0.5) else c.name("bit")
        m.p("name", n).p("idx", c.fmt(idx))
        dup = used.get(idx)
        apart = None
        if dup is not None and c.ch(0.5) and not dup["res"]:
            olds = [x for x in E["bits"] if x["idx"] == idx]
            lo, hi = max(x["depr"] for x in olds), min(depr, c.version + 1)
            if lo < hi:
                apart = (r.randint(lo, hi - 1), depr)
                m.p("sinceVersion", str(apart[0]))
        if dup is None or apart:
            sv, dv = apart or c.versions(m, since, depr, 0.3)
            X = dict(name=n, idx=idx, since=sv, depr=dv, res=False, resVal=E["resBit"], desc="", disp="")
            X["def"] = E["defBit"]
            if c.ch(0.25):
                X["def"] = c.ch(0.5); m.p("defaultValue", c.boolstr(X["def"]))
            if c.ch(0.15) and sv == since and dv == depr and "sinceVersion" not in m.props:
                X["res"] = True; m.p("reserved", c.boolstr(True))
                if c.ch(0.5):
                    X["resVal"] = c.ch(0.5); m.p("reservedValue", c.boolstr(X["resVal"]))
        else:
            X = dict(dup, name=n, desc="", disp="")
            if X["def"] != E["defBit"] or c.ch(0.3):
                m.p("defaultValue", c.boolstr(X["def"]))
            if X["res"]:
                m.p("reserved", c.boolstr(True))
            if X["resVal"] != E["resBit"]:
                m.p("reservedValue", c.boolstr(X["resVal"]))
            if X["since"] != since:
                m.p("sinceVersion", str(X["since"]))
            if X["depr"] != depr:
                m.p("deprecated", str(X["depr"]))
        if c.ch(0.15):
            X["desc"] = c.text(); m.p("description", X["desc"])
        if c.ch(0.15):
            X["disp"] = c.text(); m.p("displayName", X["disp"])
        if not apart:
            used[idx] = X
        el.multi.append(("bit", m))
        E["bits"] = E["bits"] + [X]
    E["bits"].sort(key=lambda x: x["name"].encode())
    idxs = [x["idx"] for x in E["bits"]]
    E["uniq"] = len(set(idxs)) == len(idxs)
    if c.ch(0.05) and p.kind != "bitfield":
        E["availLim"] = True; el.p("availableLengthLimit", c.boolstr(True))


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def b_float(c, p, el, E, reused, kw):
    r = c.r
    since, depr = E["since"], E["depr"]
    if not reused:
        E["type"] = r.randrange(2)
        el.p("type", ["float", "double"][E["type"]])
        E.update(ranges=[], specials=[], vcv=False, units=0, dispDec=0, nonUniqSpec=False, **{"def": 0.0})
        E["endian"] = c.endian
        E["_nonuniq"] = False
    if c.ch(0.3) or (reused and E["endian"] != c.endian):
        E["endian"] = r.randrange(2)
        el.p("endian", ["little", "big"][E["endian"]])
    E["minLen"] = E["maxLen"] = [4, 8][E["type"]]

    def val():
        v = r.choice([0.0, 1.5, -2.25, 100.125, 1e6, -0.5, 3.0, 12345.678, 1e-3, 7.0, 250.75, 1.25e-7, 0.1234567890123, 98765432.123456])
        if E["type"] == 0:
            v = f32(v) if not c.ch(0.5) else v
        return v

    def lit(v):
        return r.choice([repr(v), "%.17g" % v, "%.20e" % v]) if v == v and abs(v) != float("inf") else r.choice(
            {True: ["nan", "NaN"]}.get(v != v, ["inf", "+inf", "Inf"] if v > 0 else ["-inf"]))
    if c.ch(0.05):
        E["_nonuniq"] = True; el.p("nonUniqueSpecialsAllowed", c.boolstr(True))
    if c.ch(0.2):
        for _ in range(r.randint(1, 3)):
            v = val() if c.ch(0.6) else r.choice([float("nan"), float("inf"), -float("inf")])
            if any(x["val"] == v or (x["val"] != x["val"] and v != v) for x in E["specials"]):
                continue
            n = c.name("Spec")
            s = El("special", name=n)
            s.p("val", lit(v))
            sv, dv = c.versions(s, since, depr, 0.3)
            X = dict(name=n, val=v, since=sv, depr=dv, desc="", disp="")
            if c.ch(0.2):
                X["desc"] = c.text(); s.p("description", X["desc"])
            if c.ch(0.2):
                X["disp"] = c.text(); s.p("displayName", X["disp"])
            el.multi.append(("special", s))
            E["specials"] = E["specials"] + [X]
    E["specials"].sort(key=lambda x: x["name"].encode())
    if c.ch(0.4):
        v = val() if c.ch(0.85) else r.choice([float("nan"), float("inf"), -float("inf")])
        l = lit(v)
        if E["specials"] and c.ch(0.2):
            x = r.choice(E["specials"])
            l, v = x["name"], x["val"]
        E["def"] = v
        el.p("defaultValue", l)
    if c.ch(0.25):
        E["vcv"] = True; el.p("validCheckVersion", c.boolstr(True))
    fmax = 3.4028234663852886e+38 if E["type"] == 0 else 1.7976931348623157e+308
    if c.ch(0.6 if E["vcv"] else 0.25):
        if c.ch(0.15):
            el.p("validFullRange", c.boolstr(True))
            E["ranges"] = E["ranges"] + [dict(min=-fmax, max=fmax, since=since, depr=depr)]
        for _ in range(r.randint(1, 5 if E["vcv"] else 3)):
            form = r.choice(["validRange"] * (8 if E["vcv"] else 1) + ["validValue", "validMin", "validMax"])
            a, b = sorted([val(), val()])
            m = El(form)
            if form == "validRange":
                m.p("value", "[%s, %s]" % (repr(a), repr(b)))
            elif form == "validValue":
                m.p("value", repr(a)); b = a
            elif form == "validMin":
                m.p("value", repr(a)); b = fmax
            else:
                m.p("value", repr(b)); a = -fmax
            sv, dv = c.versions(m, since, depr, 0.7 if E["vcv"] else 0.3, E["ranges"])
            el.multi.append((form, m))
            E["ranges"] = E["ranges"] + [dict(min=a, max=b, since=sv, depr=dv)]
    if c.ch(0.15):
        u, al = r.choice(UNITS)
        E["units"] = u
        el.p("units", r.choice(al))
    if c.ch(0.08):
        E["dispDec"] = r.randint(0, 6); el.p("displayDecimals", str(E["dispDec"]))
    sp = [x["val"] for x in E["specials"]]
    E["nonUniqSpec"] = None


def same_range(x, v, since, depr):
    return x["since"] == since and x["depr"] == depr and (x["min"] == v or (x["min"] != x["min"] and v != v))


def split_bits(r, total, n):
    cuts = sorted(r.sample(range(1, total), n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


def b_bitfield(c, p, el, E, reused, kw):
    r = c.r
    if not reused:
        total = r.choice([8, 8, 16, 16, 24, 32, 40, 64]) if not c.o["code"] else r.choice([8, 8, 16, 16, 24, 32])
        parts = split_bits(r, total, r.randint(2, min(5, total - 1)))
        E["members"] = []
        el.wrap = "members"
        for b in parts:
            me, mE = field(c, P("bitfield", E["since"], E["depr"], bits=b, siblings=E["members"], depth=9), bare=True)
            el.body.append(me)
            E["members"].append(mE)
        E["minLen"] = E["maxLen"] = total // 8
        E["endian"] = c.endian
        if c.ch(0.3):
            E["endian"] = r.randrange(2)
            el.p("endian", ["little", "big"][E["endian"]])
    else:
        for m in E["members"]:
            if m["since"] is not None:
                m["since"] = max(m["since"], E["since"])
    if c.ch(0.12 * c.o["cond_mult"]) and c.o["conds"] and c.o["vcond"] and not E.get("validCond"):
        cond_prop(c, el, E, "validCond", "validCond", E["members"], iface=False)


def rel_version(E, since):
    for m in E.get("members", []):
        strip_vers(m)


def strip_vers(E):
    """Versions below the first level of a copied composite are not specified."""
    for k in ("since", "depr"):
        E[k] = None
    for k in ("members", ):
        for m in E.get(k, []):
            strip_vers(m)
    for k in ("element", "lenPrefix", "countPrefix", "elemLenPrefix", "term", "field"):
        if isinstance(E.get(k), dict) and "kind" in E[k] and not E[k].get("ext"):
            strip_vers(E[k])


def inner_versions(E):
    """Is anything inside this field introduced later than the field itself?"""
    for k in ("members",):
        for q in E.get(k, []):
            if q["since"] != E["since"] or inner_versions(q):
                return True
    for k in ("element", "field"):
        if isinstance(E.get(k), dict) and "kind" in E[k] and not E[k].get("ext") and inner_versions(E[k]):
            return True
    return False


def member_vers(E, since, depr=None):
    """first level of reused members."""
    if since > 0 and any(inner_versions(m) for m in E["members"]):
        # what becomes of the versions two levels down is not specified
        raise GenError("nested versions")
    keep = []
    for m in E["members"]:
        if m["removed"] and m["depr"] is not None and m["depr"] <= since:
            continue
        s = m["since"]
        sub = copy.deepcopy(m)
        if since > 0:
            for k in ("members",):
                for q in sub.get(k, []):
                    strip_vers(q)
            for k in ("element", "lenPrefix", "countPrefix", "elemLenPrefix", "term", "field"):
                if isinstance(sub.get(k), dict) and "kind" in sub[k] and not sub[k].get("ext"):
                    strip_vers(sub[k])
        if s is not None:
            sub["since"] = max(s, since)
        keep.append(sub)
    return keep


def bundle_lens(c, E, members, since):
    mn, m, ls = 0, 0, False
    for x in members:
        if x["pseudo"]:
            pass
        # the members of a bundle all count; a message does not count fields added in later versions
        if "id" not in E or x["since"] is None or x["since"] <= since:
            mn += x["minLen"]
        m = add_max(m, mx(x["maxLen"]))
        ls = ls or loose(x["maxLen"])
    E["minLen"] = mn
    E["maxLen"] = {"ge": m} if ls else m


def deref_sem(c, E):
    return E["sem"]


def b_bundle(c, p, el, E, reused, kw):
    r = c.r
    if reused:
        E["members"] = member_vers(E, E["since"])
        live = {m["name"] for m in E["members"]}
        if not E["members"]:
            raise GenError("empty")
        al = E.get("aliases", [])
        if al and c.ch(0.3):
            b = c.ch(0.5)
            el.p("reuseAliases", c.boolstr(b))
            if not b:
                al = []
        if any("." in a["field"] for a in al):
            raise GenError("nested alias reuse")
        al = [a for a in al if a["field"].split(".")[0] in live]
        E["aliases"] = al
        if E.get("validCond"):
            if len(live) != len(c.glob[reused]["members"]):
                raise GenError("cond on removed")
        el.wrap = "members"
        if not any(m["since"] == E["since"] for m in E["members"] if m["since"] is not None):
            raise GenError("no base member")
        # replace a member
        cand = [i for i, m in enumerate(E["members"]) if m["kind"] == "int" and not m.get("_used") and m["sem"] == 0 and not m.get("_det")]
        if cand and c.ch(0.6) and not E.get("validCond") and not E["aliases"] and c.dsl in (0, 7, 8) and not E.get("_hascond"):
            i = r.choice(cand)
            old = E["members"][i]
            me, mE = field(c, P("bundle", E["since"], E["depr"], siblings=E["members"], depth=9), kind=r.choice(["int", "enum", "float"]), name=old["name"], bare=True, reuse_p=0)
            rep = El("replace")
            rep.body = [me]
            el.multi.append(("replace", rep))
            E["members"][i] = mE
    else:
        E["members"] = []
        E["aliases"] = []
        el.wrap = "members"
    extra = r.choice([0, 0, 1]) if reused else kw.get("nmem", r.randint(1, 4))
    members(c, el, E, "bundle", extra, p)
    add_aliases(c, el, E, E["members"])
    bundle_lens(c, E, E["members"], E["since"])
    if any(m["sem"] == 3 for m in E["members"]):
        E["maxLen"] = {"ge": 0}
    if c.ch(0.12 * c.o["cond_mult"]) and c.o["conds"] and c.o["vcond"] and not E.get("validCond"):
        cond_prop(c, el, E, "validCond", "validCond", E["members"], iface=False)


def members(c, el, E, pk, n, p, ver_ok=True, key="members"):
    r = c.r
    mem = E[key]
    depth = getattr(p, "depth", 0) + 1
    for i in range(n):
        base_ok = any(m["since"] == E["since"] for m in mem)
        P2 = P(pk, E["since"], E["depr"], siblings=mem, depth=depth, version_ok=ver_ok and (base_ok or pk == "message"))
        kind = None
        x = r.random()
        if c.o["dets"] and x < 0.08 and pk in ("bundle", "message") and not (c.o["kinds"] and "string" not in c.o["kinds"]):
            # a detached prefix pair
            pe, pE = field(c, P(pk, E["since"], E["depr"], siblings=mem, depth=9, role="prefix"), kind="int", type=r.choice([1, 3]), bare=True, reuse_p=0, fulllen=True)
            pE["_det"] = True
            el.body.append(pe); mem.append(pE)
            k2 = r.choice(["string", "data", "list"])
            me, mE = field(c, P(pk, E["since"], E["depr"], siblings=mem, depth=depth), kind=k2, det=pE["name"], reuse_p=0)
            el.body.append(me); mem.append(mE)
            continue
        if x > 0.9 and mem and depth <= c.o["depth"] and c.o["conds"] and not (c.o["kinds"] and "optional" not in c.o["kinds"]):
            kind = "optional"
        me, mE = field(c, P2, kind=kind)
        el.body.append(me); mem.append(mE)


def add_aliases(c, el, E, mem):
    r = c.r
    if not c.ch(0.2):
        return
    for _ in range(r.randint(1, 2)):
        cand = [m["name"] for m in mem]
        sub = [m["name"] + "." + q["name"] for m in mem if m["kind"] in ("bundle", "bitfield") for q in m["members"]
               if not (c.o["code"] and (m["since"] > E.get("since", 0) or m["depr"] != NODEPR))]     # known finding
        if sub and c.ch(0.3) and not el.props.get("reuse"):
            t = r.choice(sub)
            E["_noreuse"] = True     # see known finding on aliases of nested members
        elif cand:
            t = r.choice(cand)
        else:
            return
        n = c.name("alias", upper=False)
        a = El("alias")
        a.p("name", n).p("field", "$" + t)
        A = dict(name=n, field=t, desc="")
        if c.ch(0.3):
            A["desc"] = c.text(); a.p("description", A["desc"])
        el.multi.append(("alias", a))
        E["aliases"] = E["aliases"] + [A]


def prefix_field(c, p, E, types=(1, 3, 5, 9), role="prefix"):
    """(how, El or ref string, E) for a length/count prefix."""
    r = c.r
    globs = [ref for ref, e in c.glob.items() if e["kind"] == "int" and is_unsigned(e["type"]) and e["serOffset"] == 0 and not e["pseudo"] and e["_lo"] == 0
             and not e["ranges"] and not e["specials"] and not e["availLim"] and e["_len"] <= 4]
    if globs and c.ch(0.5):
        ref = r.choice(globs)
        return "ext", ref, c.glob[ref]
    me, mE = field(c, P(role, E["since"], E["depr"], depth=9, role="prefix"), kind="int", type=r.choice(types), bare=True, reuse_p=0)
    return "own", me, mE


def use_prefix(c, el, E, prop, key):
    how, x, pE = prefix_field(c, None, E)
    if how == "ext":
        el.p(prop, x)
        X = copy.deepcopy(pE)
        E[key] = X
    else:
        w = El(prop)
        w.body = [x]
        el.multi.append((prop, w))
        E[key] = pE
    return E[key]


def pmax(pE):
    m = pE["max"]
    return m & INF if is_big(pE["type"]) else m


def strdata(c, p, el, E, reused, kw, isstr):
    r = c.r
    since, depr = E["since"], E["depr"]
    if not reused:
        E.update(fixedLen=0, detPrefix="", valid=[], **{"def": ""})
        if isstr:
            E.update(enc="", zeroTerm=False)
        if kw.get("det"):
            E["detPrefix"] = kw["det"]
            el.p("lengthPrefix", "$" + kw["det"])
            mode = "det"
        else:
            mode = r.choice(["fixed", "prefix", "prefix", "rest"] + (["zero"] if isstr else []))
            if c.o["code"] and mode == "rest" and p.kind not in ("message",):
                mode = "prefix"
        if mode == "fixed":
            E["fixedLen"] = r.randint(1, 20)
            el.p("length", c.fmt(E["fixedLen"]))
        elif mode == "prefix":
            use_prefix(c, el, E, "lengthPrefix", "lenPrefix")
        elif mode == "zero":
            E["zeroTerm"] = True
            el.p("zeroTermSuffix", c.boolstr(True))
    if isstr and c.ch(0.1):
        E["enc"] = r.choice(["utf-8", "ascii"]); el.p("encoding", E["enc"])
    lim = E["fixedLen"] or 40
    if E.get("lenPrefix"):
        lim = min(lim, pmax(E["lenPrefix"]))

    def sval():
        if isstr:
            t = c.text()[:lim] or "z"
            t = t.strip() or "z"
            while len(t.encode()) > lim:
                t = t[:-1]
            if t[:1] in "^\\":
                t = "z" + t[1:]
            if c.o.get("code"):
                t = t.rstrip("\\")  # see the known finding about comments that end with a backslash
            return t.strip() or "z", None
        n = r.randint(1, min(lim, 8)) if lim else 0
        h = "".join("%02x" % r.randrange(256) for _ in range(n))
        sp = h
        if c.ch(0.4):
            sp = " ".join(h[i:i + 2] for i in range(0, len(h), 2))
        if c.ch(0.3):
            sp = sp.upper()
        return h, sp
    if lim and c.ch(0.35):
        v, sp = sval()
        lit = sp if sp is not None else v
        same = [(ref, e["def"]) for ref, e in c.glob.items() if e["kind"] == E["kind"] and e["def"]
                and (len(e["def"].encode()) if isstr else len(e["def"]) // 2) <= lim]
        if same and c.ch(0.2) and c.o["valuerefs"]:
            ref, v = r.choice(same)
            lit = "^" + ref
        E["def"] = v
        if c.ch(0.2):
            el.p("defaultValidValue", lit)
            E["valid"] = E["valid"] + [dict(val=v, since=since, depr=depr)]
        else:
            el.p("defaultValue", lit)
    if lim and c.ch(0.15):
        for _ in range(r.randint(1, 3)):
            v, sp = sval()
            if any(x["val"] == v for x in E["valid"]):
                continue
            m = El("validValue")
            m.p("value", sp if sp is not None else v)
            sv, dv = c.versions(m, since, depr, 0.3)
            el.multi.append(("validValue", m))
            E["valid"] = E["valid"] + [dict(val=v, since=sv, depr=dv)]
    if E["fixedLen"]:
        E["minLen"] = E["maxLen"] = E["fixedLen"]
    elif E.get("lenPrefix"):
        q = E["lenPrefix"]
        E["minLen"] = q["minLen"]
        E["maxLen"] = add_max(mx(q["maxLen"]), pmax(q))
    elif E.get("zeroTerm"):
        E["minLen"], E["maxLen"] = 1, INF
    elif E["detPrefix"]:
        E["minLen"], E["maxLen"] = 0, {"ge": 0}
    else:
        E["minLen"], E["maxLen"] = 0, INF


def b_string(c, p, el, E, reused, kw):
    strdata(c, p, el, E, reused, kw, True)


def b_data(c, p, el, E, reused, kw):
    strdata(c, p, el, E, reused, kw, False)


def fixed_len(E):
    return not loose(E["maxLen"]) and E["minLen"] == E["maxLen"]


def b_list(c, p, el, E, reused, kw):
    r = c.r
    if reused:
        list_lens(c, E)
        return
    E.update(count=0, detCount="", detLen="", detElemLen="", elemFixed=False, detTerm="")
    globs = [ref for ref, e in c.glob.items() if e["kind"] not in ("optional",) and e["minLen"] > 0 and not e["pseudo"]]
    if globs and c.ch(0.5):
        ref = r.choice(globs)
        el.p("element", ref)
        E["element"] = copy.deepcopy(c.glob[ref])
    else:
        for _ in range(20):
            st = c.n
            ee, eE = field(c, P("list", E["since"], E["depr"], depth=p.depth + 1), kind=r.choice([k for k in ("int", "enum", "float", "string", "bundle", "data", "bitfield", "set") if (k != "bundle" or p.depth < c.o["depth"]) and (not c.o["kinds"] or k in c.o["kinds"])]), bare=c.ch(0.5), reuse_p=0.1)
            if eE["minLen"] > 0:
                break
        else:
            raise GenError("elem")
        el.wrap = "element"
        el.body = [ee]
        E["element"] = eE
    if kw.get("det"):
        if c.ch(0.5):
            E["detCount"] = kw["det"]; el.p("countPrefix", "$" + kw["det"])
        else:
            E["detLen"] = kw["det"]; el.p("lengthPrefix", "$" + kw["det"])
    else:
        modes = ["count", "countPrefix", "countPrefix", "lengthPrefix", "rest"]
        modes.append("term")
        mode = r.choice(modes)
        if c.o["code"] and mode == "rest" and p.kind not in ("message",):
            mode = "countPrefix"
        if mode == "count":
            E["count"] = r.randint(1, 9); el.p("count", c.fmt(E["count"]))
        elif mode == "countPrefix":
            use_prefix(c, el, E, "countPrefix", "countPrefix")
        elif mode == "lengthPrefix":
            use_prefix(c, el, E, "lengthPrefix", "lenPrefix")
        elif mode == "term":
            w = El("termSuffix")
            te, tE = field(c, P("prefix", E["since"], E["depr"], depth=9, role="prefix"), kind="int", type=1, bare=True, reuse_p=0)
            w.body = [te]
            el.multi.append(("termSuffix", w))
            E["term"] = tE
    if c.ch(0.2):
        fx = fixed_len(E["element"]) and c.ch(0.6)
        use_prefix(c, el, E, "elemLengthPrefix", "elemLenPrefix")
        if fx:
            E["elemFixed"] = True
            el.p("elemFixedLength", c.boolstr(True))
    list_lens(c, E)


def list_lens(c, E):
    e = E["element"]
    emin, emax, ls = e["minLen"], mx(e["maxLen"]), loose(e["maxLen"])
    ep = E.get("elemLenPrefix")
    pmn = pmx = 0
    extra_once_min = extra_once_max = 0
    if ep:
        if E["elemFixed"]:
            extra_once_min, extra_once_max = ep["minLen"], mx(ep["maxLen"])
        else:
            emin += ep["minLen"]
            emax = add_max(emax, mx(ep["maxLen"]))
    if E["count"]:
        mn = E["count"] * emin + extra_once_min
        m = min(INF, E["count"] * emax + extra_once_max) if emax < INF else INF
        E["minLen"], E["maxLen"] = mn, ({"ge": m} if ls else m)
        return
    if E.get("countPrefix"):
        q = E["countPrefix"]
        E["minLen"] = q["minLen"]
        n = pmax(q)
        m = add_max(mx(q["maxLen"]), min(INF, n * emax + extra_once_max)) if emax < INF else INF
        # how an element length prefix of an empty list is accounted for is left open
        E["maxLen"] = {"ge": m} if (ls or E.get("elemLenPrefix")) else m
        if E.get("elemLenPrefix"):
            E["minLen"] = q["minLen"] if not E["elemFixed"] else q["minLen"]
        return
    if E.get("lenPrefix"):
        q = E["lenPrefix"]
        E["minLen"] = q["minLen"]
        E["maxLen"] = add_max(mx(q["maxLen"]), pmax(q))
        return
    if E.get("term"):
        E["minLen"], E["maxLen"] = E["term"]["minLen"], INF
        return
    E["minLen"] = 0
    E["maxLen"] = {"ge": 0} if (E["detCount"] or E["detLen"]) else INF


def ref_targets(c, p, pred=None):
    return [ref for ref, e in c.glob.items() if (pred is None or pred(e))]


def b_ref(c, p, el, E, reused, kw):
    r = c.r
    pred = kw.get("pred")
    if p.role == "layer":
        pass

    def ok(e):
        if p.kind == "optional" and e["kind"] == "optional":
            return False
        if c.o["code"] and e["pseudo"] and p.kind not in ("ns", "message", "bundle"):
            return False
        if c.o["code"] and tail_unsized(c, e) and p.kind != "message":
            return False
        if isinstance(e["maxLen"], int) and e["maxLen"] == 0:
            return False
        return pred is None or pred(e)
    cand = ref_targets(c, p, ok)
    if not cand:
        raise GenError("no ref target")
    ref = r.choice(cand)
    T = c.glob[ref]
    prefix = "@" + c.schema_name + "." if c.ch(0.15) and ref[0] != "@" else ""
    el.p("field", prefix + ref)
    E["_t"] = ref
    E["target"] = T["ext"]
    E["targetMin"] = T["minLen"]
    if c.o["code"] and T["pseudo"]:
        el.p("pseudo", "true")
        E["pseudo"] = True
    if c.o["code"] and T["failInv"]:
        el.p("failOnInvalid", "true")       # required by the code generator
        E["failInv"] = True
    if "displayName" not in el.props:
        E["disp"] = T["disp"]
    E["minLen"], E["maxLen"] = T["minLen"], T["maxLen"]
    sem = T["sem"]
    E["sem"] = 0 if sem == 2 else sem
    E["bitLen"] = None


def tail_unsized(c, E):
    E = resolve(c, E)
    k = E["kind"]
    if k in ("string", "data"):
        return not (E["fixedLen"] or E.get("lenPrefix") or E.get("zeroTerm") or E["detPrefix"])
    if k == "list":
        return not (E["count"] or E.get("countPrefix") or E.get("lenPrefix") or E["detCount"] or E["detLen"] or E.get("term"))
    if k == "bundle":
        return any(tail_unsized(c, m) for m in E["members"])
    if k == "optional":
        return tail_unsized(c, E["field"])
    if k == "variant":
        return any(tail_unsized(c, m) for m in E["members"])
    return False




def b_optional(c, p, el, E, reused, kw):
    r = c.r
    if reused:
        E["minLen"] = 0
        E["maxLen"] = E["field"]["maxLen"]
        return
    E.update(mode=0, missReadFail=False, missInvalid=False)
    globs = [ref for ref, e in c.glob.items() if e["kind"] not in ("optional",) and not (c.o["code"] and tail_unsized(c, e) and p.kind != "message")]
    if globs and c.ch(0.35):
        ref = r.choice(globs)
        el.p("field", ref)
        E["field"] = copy.deepcopy(c.glob[ref])
    else:
        fe, fE = field(c, P("optional", E["since"], E["depr"], depth=p.depth + 1), kind=r.choice([k for k in ("int", "enum", "float", "string", "set", "ref", "bundle", "list") if (k in ("int", "enum", "float", "string", "set") or p.depth < c.o["depth"]) and (not c.o["kinds"] or k in c.o["kinds"])]), bare=c.ch(0.5), reuse_p=0.1)
        el.wrap = "field"
        el.body = [fe]
        E["field"] = fE
    x = r.random()
    if x < 0.75:
        m = r.randrange(3)
        E["mode"] = m
        el.p("defaultMode", r.choice([["tentative", "tent", "Tentative"], ["exists", "exist", "Exists"], ["missing", "miss", "MISSING"]][m]))
    if c.ch(0.1) and not c.o["code"]:
        E["missReadFail"] = True; el.p("missingOnReadFail", c.boolstr(True))
    if c.ch(0.1) and not c.o["code"]:
        E["missInvalid"] = True; el.p("missingOnInvalid", c.boolstr(True))
    E["minLen"] = 0
    E["maxLen"] = E["field"]["maxLen"]
    if c.o["conds"] and p.kind in ("bundle", "message") and p.siblings and c.ch(0.7):
        cond_prop(c, el, E, "cond", "cond", p.siblings, iface=bool(c.ifaces) and (not c.o["code"] or p.kind == "message"), mark=p)


def b_variant(c, p, el, E, reused, kw):
    r = c.r
    if not reused:
        E["members"] = []
        el.wrap = "members"
        n = r.randint(1, 4)
        for i in range(n):
            # key/value style bundle
            if c.ch(0.6) and p.depth + 1 < 3:
                me, mE = field(c, P("variant", E["since"], E["depr"], siblings=E["members"], depth=p.depth + 1), kind="bundle", bare=True, reuse_p=0)
            else:
                me, mE = field(c, P("variant", E["since"], E["depr"], siblings=E["members"], depth=9), kind=r.choice(["int", "float", "string", "enum"]), bare=True, reuse_p=0)
            el.body.append(me); E["members"].append(mE)
        E["defIdx"] = -1
    else:
        E["members"] = member_vers(E, E["since"])
        if not E["members"]:
            raise GenError("empty")
        if len(E["members"]) != len(c.glob[reused]["members"]) and E["defIdx"] >= 0:
            raise GenError("default member of shortened variant")
        el.wrap = "members"
        if c.ch(0.6) and c.dsl in (0, 7, 8):
            for i in sorted(r.sample(range(len(E["members"])), r.choice([1, 1, min(2, len(E["members"]))])), reverse=c.ch(0.5)):
                old = E["members"][i]
                me, mE = field(c, P("variant", E["since"], E["depr"], siblings=[], depth=9), kind=r.choice(["int", "enum", "float", "string"]), name=old["name"], bare=True, reuse_p=0)
                rep = [m for t, m in el.multi if t == "replace"]
                if not rep:
                    rep = [El("replace")]
                    rep[0].body = []
                    el.multi.append(("replace", rep[0]))
                rep[0].body.append(me)
                E["members"][i] = mE
        if c.ch(0.3):
            me, mE = field(c, P("variant", E["since"], E["depr"], siblings=E["members"], depth=9), kind=r.choice(["int", "float", "string", "enum"]), bare=True, reuse_p=0)
            el.body.append(me); E["members"].append(mE)
    if c.ch(0.4):
        i = r.randrange(len(E["members"]))
        if c.ch(0.1):
            E["defIdx"] = -1; el.p("defaultMember", "-1")
        else:
            E["defIdx"] = i
            el.p("defaultMember", r.choice([str(i), E["members"][i]["name"]]))
    ls = any(loose(m["maxLen"]) for m in E["members"])
    E["minLen"] = 0
    m = max(mx(m["maxLen"]) for m in E["members"])
    E["maxLen"] = {"ge": m} if ls else m


BUILD = dict(int=b_int, enum=b_enum, set=b_set, float=b_float, bitfield=b_bitfield, bundle=b_bundle, string=b_string, data=b_data,
             list=b_list, ref=b_ref, optional=b_optional, variant=b_variant)


# ------------------------------------------------------------------ conditions
def opinfo(s):
    if s == "":
        return dict(type=0, mode=0, acc="")
    if s[0] not in "$%":
        return dict(type=1, mode=0, acc=s)
    m = {"#": 1, "?": 2}.get(s[1:2], 0)
    return dict(type=2 if s[0] == "$" else 3, mode=m, acc=s[2 if m else 1:])


def cexpr(l, op, rr):
    return dict(l=l, op=op, r=rr, li=opinfo(l), ri=opinfo(rr))


def cond_operands(c, sib, pref):
    """[(class, path, field E)]"""
    out = []
    for s in sib:
        t = resolve(c, s)
        n = pref + s["name"]
        out.append((t["kind"], n, t))
        if t["kind"] in ("bundle", "bitfield") and s["kind"] != "x":
            for m in t["members"]:
                out.append((resolve(c, m)["kind"], n + "." + m["name"], resolve(c, m)))
    return out


def cond_leaf(c, sib, iface, only_eq=False, usesib=True):
    r = c.r
    ops = cond_operands(c, sib, "$") if usesib else []
    if iface:
        for i in list(c.ifaces.values())[:1 if c.o["code"] else None]:
            ops += cond_operands(c, i["fields"], "%")
    r.shuffle(ops)
    for kind, n, E in ops:
        cmpop = r.choice(["=", "!=", ">", "<", ">=", "<="]) if not only_eq else "="
        if kind == "int":
            others = [x for x in ops if x[0] in ("int", "enum") and x[1] != n]
            if c.o["code"]:
                # known finding: the right operand is converted to the type of the left one
                others = [x for x in others if x[0] == "int" and x[2]["type"] == E["type"]]
            if others and c.ch(0.15) and not only_eq:
                return (n, cmpop, r.choice(others)[1])
            if E["sem"]:
                # version and length fields compare with plain numbers only
                return (n, cmpop, str(pick_val(c, E["_lo"], min(E["_hi"], (1 << 63) - 1))))
            if c.o["valuerefs"] and c.ch(0.15):
                rf = c.num_ref(E["_lo"], E["_hi"])
                if rf:
                    return (n, cmpop, rf[0])
            if E["specials"] and c.ch(0.2):
                return (n, cmpop, r.choice(E["specials"])["name"])
            v = pick_val(c, E["_lo"], E["_hi"])
            return (n, cmpop, str(v))
        if kind == "enum":
            if only_eq or c.ch(0.8):
                cmpop = r.choice(["=", "!="]) if not only_eq else "="
            if E["values"] and c.ch(0.7):
                return (n, cmpop, r.choice(E["values"])["name"])
            return (n, cmpop, str(pick_val(c, E["_lo"], E["_hi"])))
        if kind == "set" and E["bits"]:
            b = r.choice(E["bits"])
            if b["res"]:
                continue
            return ("", r.choice(["", "!"]), n + "." + b["name"])
        if kind == "float" and not only_eq and c.ch(0.5):
            return (n, r.choice([">", "<", ">=", "<="]), r.choice(["1.5", "-2.25", "100.0", "0.0"]))
        if only_eq:
            continue
        if kind in ("string", "data", "list") and "." not in n:
            return (n[0] + "#" + n[1:], cmpop, str(r.randint(0, 12)))
        if kind == "optional" and "." not in n:
            return ("", r.choice(["", "!"]), n[0] + "?" + n[1:])
    return None


def leaf_str(c, x):
    l, op, rr = x
    if l == "":
        return op + (" " if op and c.ch(0.2) else "") + rr
    sp = c.r.choice(["", " ", " ", "  "])
    return l + sp + op + sp + rr


def cond_tree(c, sib, iface, depth, only_eq=False, usesib=True, tag="cond"):
    r = c.r
    t = r.choice(["and", "or"]) if not only_eq else "and"
    el = El(t)
    conds = []
    for _ in range(r.randint(2, 3)):
        if depth > 0 and c.ch(0.3) and not only_eq:
            x = cond_tree(c, sib, iface, depth - 1, only_eq, usesib, tag)
            if x is None:
                return None
            el.body.append(x[0]); conds.append(x[1])
        else:
            x = cond_leaf(c, sib, iface, only_eq, usesib)
            if x is None:
                return None
            m = El(tag)
            m.p("value", leaf_str(c, x))
            el.body.append(m)
            conds.append(cexpr(*x))
    return el, dict(list=t, conds=conds)


def cond_prop(c, el, E, prop, key, sib, iface, mark=None, only_eq=False, usesib=True):
    """Adds a random condition, as attribute or as element tree."""
    if c.ch(0.5):
        x = cond_leaf(c, sib, iface, only_eq, usesib)
        if x is None:
            return
        el.p(prop, leaf_str(c, x))
        if prop != "cond":
            el.attr_only.add(prop)       # the element form is reserved for <and>/<or>
        E[key] = cexpr(*x)
    else:
        x = cond_tree(c, sib, iface, 2, only_eq, usesib, prop)
        if x is None:
            return
        if prop == "cond":
            el.multi.append((x[0].tag, x[0]))
        else:
            w = El(prop)
            w.body = [x[0]]
            el.multi.append((prop, w))
        E[key] = x[1]
    if mark is not None:
        for s in sib:
            s["_used"] = True
    E["_hascond"] = True


# ------------------------------------------------------------------ messages etc
def message(c, ns, idval, idlit, order=None):
    r = c.r
    el = El("message")
    el.wrap = "fields"
    since, depr = (0, NODEPR)
    M = dict(name=c.name("Msg", upper=True), disp="", desc="", id=idval, order=order or 0, removed=False, custom=False, failInv=False,
             sender=0, ovr=[0] * 6, copyCode="", platforms=[], aliases=[], fields=[])
    src = None
    if c.msgs and c.ch(c.o["msg_reuse_p"]) and c.o["reuse"]:
        cand = [m for m in c.msgs.values() if not m.get("_noreuse") and not m.get("_vml")]
        if cand:
            src = r.choice(cand)
    since, depr = c.versions(el, 0, NODEPR, 0.25 if c.o["deprmsgs"] else 0)
    reuse = False
    if src is not None and since == 0 and c.ch(0.6) and not any(m["removed"] for m in src["fields"]):
        reuse = True
        N = copy.deepcopy(src)
        N.update(name=M["name"], id=idval, order=M["order"] if order is not None else src["order"], removed=False, ovr=[0] * 6, copyCode="")
        for k in ("xattrs", "xelems"):
            N.pop(k, None)
        M = N
        el.p("reuse", src["_ref"])
        if c.ch(0.3):
            el.p("reuseCode", c.boolstr(True)); M["copyCode"] = src["_ref"]
        if M["aliases"] and c.ch(0.3):
            b = c.ch(0.5)
            el.p("reuseAliases", c.boolstr(b))
            if not b:
                M["aliases"] = []
        if any("." in a["field"] for a in M["aliases"]):
            raise GenError("nested alias reuse")
    el.p("name", M["name"]).p("id", idlit)
    M["since"], M["depr"] = since, depr
    if order is not None:
        el.p("order", c.fmt(order))
    if depr != NODEPR and c.ch(0.4):
        M["removed"] = True; el.p("removed", c.boolstr(True))
    for prop, key, pr in (("displayName", "disp", 0.3), ("description", "desc", 0.3)):
        if c.ch(pr):
            M[key] = c.text(); el.p(prop, M[key])
    if c.ch(0.1):
        M["custom"] = c.ch(0.8); el.p("customizable", c.boolstr(M["custom"]))
    if c.ch(0.08):
        M["failInv"] = c.ch(0.8); el.p("failOnInvalid", c.boolstr(M["failInv"]))
    if c.ch(0.3):
        M["sender"] = r.randrange(3); el.p("sender", r.choice([["both", "Both"], ["client", "CLIENT"], ["server", "Server"]][M["sender"]]))
    if c.platforms and c.ch(0.3):
        sub = r.sample(c.platforms, r.randint(1, len(c.platforms)))
        plus = c.ch(0.5) or len(sub) == len(c.platforms)
        txt = sub + r.choices(sub, k=r.randint(1, 3)) if plus and c.ch(0.2) else sub
        el.p("platforms", ("+" if plus else "-") + r.choice([",", ", ", " , "]).join(txt))
        M["platforms"] = sorted(sub) if plus else sorted(set(c.platforms) - set(sub))
    if not c.o["code"]:
        for i, prop in enumerate(["readOverride", "writeOverride", "refreshOverride", "lengthOverride", "validOverride", "nameOverride"]):
            if c.ch(0.04):
                v = r.randrange(4); el.p(prop, OVR[v]); M["ovr"][i] = v
        if c.msgs and c.ch(0.04) and "reuseCode" not in el.props:
            M["copyCode"] = r.choice(list(c.msgs)); el.p("copyCodeFrom", M["copyCode"])
    if c.o["xattrs"] and c.ch(0.08):
        v = c.text(); el.p("x_m", v); el.attr_only.add("x_m"); M["xattrs"] = ["x_m", v]
    if c.o["xattrs"] and c.ch(0.06):
        M["xelems"] = ["<x_extra a=\"1\"/>"]
        el.multi.append(("x_extra", El("x_extra", a="1")))
    if src is not None and not reuse:
        bundles = [ref for ref, e in c.glob.items() if e["kind"] == "bundle" and not e.get("_noreuse")]
        if bundles and c.ch(0.4):
            S = c.glob[r.choice(bundles)]
            fl = S["members"]
        else:
            S = src
            fl = src["fields"]
        tmp = dict(members=copy.deepcopy(fl))
        M["fields"] = member_vers(tmp, since)
        el.p("copyFieldsFrom", S["_ref"])
        names = {f["name"] for f in M["fields"]}
        al = [a for a in copy.deepcopy(S["aliases"])]
        if any("." in a["field"] for a in al):
            raise GenError("nested")
        if len(names) != len(fl):
            if S.get("_hascond") or any(f.get("_hascond") or f.get("detPrefix") or f.get("detCount") or f.get("detLen") for f in M["fields"]):
                raise GenError("dangling")
            al = [a for a in al if a["field"] in names]
        if c.ch(0.3):
            b = c.ch(0.5)
            el.p("copyFieldsAliases", c.boolstr(b))
            if not b:
                al = []
        M["aliases"] = al
        n = r.choice([0, 0, 1])
    elif reuse:
        n = r.choice([0, 0, 1])
    else:
        n = r.choice([0, 1, 2, 3, 4, 6])
    if reuse:
        # replacement of a member
        cand = [i for i, m in enumerate(M["fields"]) if m["kind"] == "int" and not m.get("_used") and m["sem"] == 0 and not m.get("_det")]
        if cand and c.ch(0.6) and not M.get("validCond") and not M["aliases"] and not M.get("_hascond"):
            i = r.choice(cand)
            old = M["fields"][i]
            me, mE = field(c, P("message", since, depr, siblings=M["fields"], depth=9), kind=r.choice(["int", "enum", "float"]), name=old["name"], bare=True, reuse_p=0)
            rep = El("replace")
            rep.body = [me]
            el.multi.append(("replace", rep))
            M["fields"][i] = mE
    E2 = dict(members=M["fields"], since=since, depr=depr)
    if c.o["code"] and any(tail_unsized(c, f) for f in M["fields"]):
        n = 0
    for _ in range(n):
        members(c, el, E2, "message", 1, P("ns"), True)
        if c.o["code"] and tail_unsized(c, E2["members"][-1]):
            break
    M["fields"] = E2["members"]
    A = dict(aliases=M["aliases"])
    add_aliases(c, el, A, M["fields"])
    M["aliases"] = A["aliases"]
    if A.get("_noreuse"):
        M["_noreuse"] = True
    bundle_lens(c, M, M["fields"], since)
    if c.o["conds"]:
        if c.ch(0.15 * c.o["cond_mult"]) and c.o["vcond"] and not M.get("validCond"):
            cond_prop(c, el, M, "validCond", "validCond", M["fields"], iface=bool(c.ifaces))
        if c.ifaces and not M.get("construct") and c.ch(0.2 * c.o["cond_mult"]):
            cond_prop(c, el, M, "construct", "construct", [], True, only_eq=True, usesib=False)
            if M.get("construct"):
                if not M.get("readCond") and c.ch(0.4):
                    el.p("constructAsReadCond", c.boolstr(True)); M["readCond"] = copy.deepcopy(M["construct"])
                if not M.get("validCond") and c.ch(0.4):
                    el.p("constructAsValidCond", c.boolstr(True)); M["validCond"] = copy.deepcopy(M["construct"])
        if c.ifaces and not M.get("readCond") and c.ch(0.2 * c.o["cond_mult"]):
            src2 = [m for m in c.msgs.values() if m.get("readCond")]
            if src2 and c.ch(0.3):
                q = r.choice(src2)
                el.p("copyReadCondFrom", q["_ref"]); M["readCond"] = copy.deepcopy(q["readCond"])
            else:
                cond_prop(c, el, M, "readCond", "readCond", [], True, usesib=False)
    M["_ref"] = ".".join(list(ns) + [M["name"]])
    M["ext"] = "@" + c.schema_name + "." + M["_ref"]
    M["extNs"] = M["_ref"]
    if c.ch(0.08) and n and "copyFieldsFrom" not in el.props and not reuse:
        el.p("validateMinLength", str(M["minLen"]))
        M["_vml"] = True      # inherited by reuse
    c.msgs[M["_ref"]] = M
    el.E = M
    return el, M


def interface(c, ns):
    r = c.r
    el = El("interface")
    el.wrap = "fields"
    I = dict(name=c.name("Iface", upper=True), desc="", copyCode="", aliases=[], fields=[])
    if c.ifaces and (c.o["code"] or (c.ch(0.3) and c.o["reuse"])):
        src = r.choice(list(c.ifaces.values()))     # code: every interface has the fields used in conditions
        if c.o["code"] or not any("." in a["field"] for a in src["aliases"]):
            nm = I["name"]
            if c.ch(0.5):
                I = copy.deepcopy(src)
                I["name"] = nm
                el.p("reuse", src["_ref"])
                I["copyCode"] = ""
                if c.ch(0.3):
                    el.p("reuseCode", c.boolstr(True)); I["copyCode"] = src["_ref"]
            else:
                I["fields"] = copy.deepcopy(src["fields"])
                I["aliases"] = copy.deepcopy(src["aliases"])
                el.p("copyFieldsFrom", src["_ref"])
    el.p("name", I["name"])
    if c.ch(0.3):
        I["desc"] = c.text(); el.p("description", I["desc"])
    E2 = dict(members=I["fields"], since=0, depr=NODEPR, aliases=I["aliases"])
    kinds = ["int", "int", "set", "enum"]
    for i in range(r.randint(0 if I["fields"] else 1, 2)):
        pE = P("interface", siblings=I["fields"], depth=9)
        if "_verfield" not in c.__dict__ and c.version and c.ch(0.5) and c.o["sem"]:
            c._verfield = True
            fe, fE = field(c, pE, kind="int", type=r.choice([1, 3]), bare=True, reuse_p=0, fulllen=True)
            for k in list(fe.props):
                if k in ("serOffset", "defaultValidValue", "scaling"):
                    pass
            fE["sem"] = 1
            fe.p("semanticType", r.choice(["version", "Version"]))
            fE["_ver"] = True
        else:
            fe, fE = field(c, pE, kind=r.choice(kinds), reuse_p=0.1)
        el.body.append(fe); I["fields"].append(fE)
    add_aliases(c, el, E2, I["fields"])
    I["aliases"] = E2["aliases"]
    I["_ref"] = ".".join(list(ns) + [I["name"]])
    I["ext"] = "@" + c.schema_name + "." + I["_ref"]
    I["extNs"] = I["_ref"]
    c.ifaces[I["_ref"]] = I
    el.E = I
    return el, I


ALGS = {1: ["sum", "SUM"], 2: ["crc-ccitt", "crc_ccitt"], 3: ["crc-16", "CRC_16"], 4: ["crc-32", "crc_32"], 5: ["xor", "XOR"]}


def layer_el(c, kind, name=None):
    el = El(kind)
    L = dict(kind=kind, name=name or c.name("ly"), disp="", desc="")
    el.p("name", L["name"])
    if c.ch(0.15):
        L["disp"] = c.text(); el.p("displayName", L["disp"])
    if c.ch(0.15):
        L["desc"] = c.text(); el.p("description", L["desc"])
    el.wrap = "field"
    return el, L


def layer_field(c, el, L, pred=None, **kw):
    cand = [ref for ref, e in c.glob.items() if pred and pred(e)]
    if cand and c.ch(0.4):
        ref = c.r.choice(cand)
        el.p("field", ref)
        el.wrap = None
        L["field"] = copy.deepcopy(c.glob[ref])
    else:
        fe, fE = field(c, P("layer", depth=9, role="prefix"), bare=True, reuse_p=0, **kw)
        el.body = [fe]
        L["field"] = fE


def frame(c, ns):
    r = c.r
    el = El("frame")
    el.wrap = "layers"
    F = dict(name=c.name("Frame", upper=True), disp="", desc="", layers=[])
    el.p("name", F["name"])
    if c.ch(0.3):
        F["desc"] = c.text(); el.p("description", F["desc"])
    if c.ch(0.3):
        F["disp"] = c.text(); el.p("displayName", F["disp"])
    pre = []
    if c.ch(0.5):
        pre.append("sync")
    order = ["size", "id"]
    if c.ch(0.3):
        order = ["id", "size"]
    pre += [x for x in order if x == "id" or c.ch(0.8)]
    topif = [i for i in c.ifaces.values()]
    if topif and c.ch(0.5):
        pre.insert(r.randint(0, len(pre)), "value")
    if not c.o["code"] and c.ch(0.2):
        pre.insert(r.randint(0, len(pre)), "custom")
    post = []
    if c.ch(0.5):
        post.append("checksum")
    elif c.ch(0.2) and "sync" not in pre:
        pre.insert(1 if pre and pre[0] == "sync" else 0, "checksum")
    if c.ch(0.25) and c.dsl in (0, 8):
        post.append("sync")
    body = []
    for k in pre + ["payload"] + post:
        le, L = layer_el(c, k)
        after = "payload" in [x[1]["kind"] for x in body]
        if k == "payload":
            le.wrap = None
        elif k == "sync":
            fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=r.choice([1, 3]), bare=True, reuse_p=0, fulllen=True)
            if "defaultValue" not in fe.props:
                v = r.randint(1, 255)
                fe.p("defaultValue", "0x%x" % v)
                fE["def"] = v
            le.body = [fe]
            L["field"] = fE
            L.update(seek=False, vbr=False, after=after)
            L["from"] = ""
            if after and c.ch(0.3) and not c.o["code"] and c.dsl in (0, 8):
                prev = [x[1]["name"] for x in body if x[1]["kind"] in ("size", "id", "sync") and not x[1].get("after")]
                if prev and not any(x[1].get("from") for x in body if x[1]["kind"] in ("checksum", "sync")):
                    L["vbr"] = True; le.p("verifyBeforeRead", c.boolstr(True))
                    L["from"] = prev[0]; le.p("from", prev[0])
        elif k == "size":
            layer_field(c, le, L, lambda e: e["kind"] == "int" and is_unsigned(e["type"]) and not e["pseudo"] and e["_len"] in (1, 2, 4) and e["type"] < 8 and not e["ranges"] and e["_lo"] == 0 and e["serOffset"] == 0 and not e["specials"] and not e["availLim"] and not e["fixed"],
                        kind="int", type=r.choice([3, 5]), fulllen=True)
        elif k == "id":
            ids = [ref for ref, e in c.glob.items() if e["kind"] == "enum" and e["sem"] == 2]
            if ids:
                le.p("field", ids[0]); le.wrap = None
                L["field"] = copy.deepcopy(c.glob[ids[0]])
            else:
                fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=r.choice([1, 3]), bare=True, reuse_p=0, fulllen=True)
                le.body = [fe]; L["field"] = fE
        elif k == "value":
            i = r.choice(topif)
            f = r.choice(i["fields"])
            if any(x[1]["kind"] == "value" and x[1]["fieldName"] == f["name"] for x in body):
                continue
            le.p("interfaces", i["_ref"])
            le.p("interfaceFieldName", f["name"])
            L["ifaces"] = [i["ext"]]
            L["fieldName"] = f["name"]
            L["pseudo"] = False
            fE = copy.deepcopy(f)
            # a value layer carries its own field definition of the same type
            t = resolve(c, f)
            g = El("int")
            if t["kind"] != "int":
                fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=1, bare=True, reuse_p=0, fulllen=True)
            else:
                fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=t["type"] if t["type"] < 8 else 5, bare=True, reuse_p=0, fulllen=True)
            le.body = [fe]; L["field"] = fE
            if c.ch(0.15) and not c.o["code"]:
                L["pseudo"] = True; le.p("pseudo", c.boolstr(True))
        elif k == "checksum":
            a = r.randint(1, 5)
            le.p("alg", r.choice(ALGS[a]))
            L["alg"] = a
            L["customAlg"] = ""
            t = {1: r.choice([1, 3, 5]), 2: 3, 3: 3, 4: 5, 5: r.choice([1, 3])}[a]
            fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=t, bare=True, reuse_p=0, fulllen=True)
            le.body = [fe]; L["field"] = fE
            L["from"] = L["until"] = ""
            L["vbr"] = False
            if after:
                cand = [x[1]["name"] for x in body if x[1]["kind"] != "payload"] or [x[1]["name"] for x in body]
                if c.o["code"]:
                    cand = [x[1]["name"] for x in body]
                L["from"] = r.choice(cand)
                le.p("from", L["from"])
            else:
                L["until"] = "?"
            if c.ch(0.5):
                L["vbr"] = True; le.p("verifyBeforeRead", c.boolstr(True))
        elif k == "custom":
            fe, fE = field(c, P("layer", depth=9, role="prefix"), kind="int", type=1, bare=True, reuse_p=0, fulllen=True)
            le.body = [fe]; L["field"] = fE
            L["semLayer"] = 0
            L["from"] = L["until"] = ""
            if c.ch(0.3):
                s = r.choice(["size", "sync", "value"])
                L["semLayer"] = dict(custom=0, sync=1, size=2, id=3, value=4)[s]
                le.p("semanticLayerType", s)
        le.E = L
        body.append((le, L))
    for i, (le, L) in enumerate(body):
        if L.get("until") == "?":
            cand = [x[1]["name"] for x in body[i + 1:]]
            pi = [j for j, x in enumerate(body) if x[1]["kind"] == "payload"][0]
            L["until"] = body[pi][1]["name"] if c.o["code"] or c.ch(0.6) else r.choice([x[1]["name"] for x in body[max(i + 1, pi):]])
            le.p("until", L["until"])
    for le, L in body:
        el.body.append(le); F["layers"].append(L)
    F["_ref"] = ".".join(list(ns) + [F["name"]])
    F["ext"] = "@" + c.schema_name + "." + F["_ref"]
    F["extNs"] = F["_ref"]
    el.E = F
    return el, F


# ------------------------------------------------------------------ schema
class Schema:
    """items: (nspath, section, El) in definition order; model: expected dump of the schema."""


def new_ns(c, path):
    n = dict(name=path[-1] if path else "", disp="", desc="", namespaces=[], fields=[], messages=[], interfaces=[], frames=[])
    return n


def retry(c, fn):
    for _ in range(60):
        st = (c.n, dict(c.glob), dict(c.msgs), dict(c.ifaces), c.__dict__.get("_verfield"))
        try:
            return fn()
        except GenError:
            c.glob, c.msgs, c.ifaces = st[1], st[2], st[3]
            if st[4] is None:
                c.__dict__.pop("_verfield", None)
    raise RuntimeError("generator stuck")


def make(seed, **o):
    c = Ctx(seed, **o)
    r = c.r
    s = Schema()
    s.c = c
    root = El("schema")
    S = dict(name=c.schema_name, disp="", desc="", id=0, version=c.version, dsl=c.dsl, endian=c.endian, nonUniqMsgId=False,
             ext="@" + c.schema_name, platforms=[])
    root.p("name", c.schema_name)
    if c.version or c.ch(0.3):
        root.p("version", c.fmt(c.version))
    if c.dsl:
        root.p("dslVersion", str(c.dsl))
    if c.endian or c.ch(0.5):
        root.p("endian", r.choice([["little", "Little"], ["big", "BIG"]][c.endian]))
    if c.ch(0.4):
        S["desc"] = c.text(); root.p("description", S["desc"])
    if c.ch(0.4):
        S["disp"] = c.text(); root.p("displayName", S["disp"])
    if c.ch(0.3):
        S["id"] = r.randint(0, 1 << 20); root.p("id", c.fmt(S["id"]))
    nonuniq = c.ch(0.2)
    if nonuniq:
        S["nonUniqMsgId"] = True; root.p("nonUniqueMsgIdAllowed", c.boolstr(True))
    if c.o["xattrs"] and c.ch(0.3):
        v = c.text(); root.p("x_s", v); root.attr_only.add("x_s"); S["xattrs"] = ["x_s", v]
    s.root = root
    c.platforms = []
    if c.o["platforms"] and c.ch(0.4):
        c.platforms = ["Plat%d" % i for i in range(1, r.randint(2, 4))]
        S["platforms"] = sorted(c.platforms)
    s.platforms = list(c.platforms)
    paths = [()]
    if c.o["nested_ns"]:
        for _ in range(r.randint(0, 3)):
            b = r.choice(paths)
            if len(b) < 2:
                paths.append(b + (c.name("ns", upper=False),))
    s.nsprops = {}
    nss = {}
    for pth in paths:
        n = new_ns(c, pth)
        e = El("ns")
        if pth:
            e.p("name", pth[-1])
            if c.ch(0.3):
                n["desc"] = c.text(); e.p("description", n["desc"])
            if c.ch(0.2):
                n["disp"] = c.text(); e.p("displayName", n["disp"])
        n["extNs"] = ".".join(pth)
        n["ext"] = "@" + c.schema_name + ("." + n["extNs"] if pth else "")
        s.nsprops[pth] = e
        nss[pth] = n
    s.items = []
    # message ids
    nm = c.o["nmsgs"]
    ids, seen = [], set()
    idmax = 255
    while len(ids) < nm:
        v = r.randint(0, 60) if c.ch(0.7) else r.randint(0, idmax)
        if v not in seen:
            seen.add(v); ids.append(v)
    idnames = [(c.name("Id", upper=True), v) for v in ids]
    idref = None

    def put_field(path, **kw):
        el, E = retry(c, lambda: field(c, P("ns", ns=path), **kw))
        c.glob[E["_ref"]] = E
        nss[path]["fields"].append(E)
        s.items.append((path, "fields", el))
        return E
    if nm and c.ch(0.75):
        path = r.choice(paths)
        E = put_field(path, kind="enum", type=r.choice([1, 3]), sem=2, values=idnames, unique=True, reuse_p=0, fulllen=True)
        idref = E["_ref"]
    nf = c.o["nfields"]
    ni = 0
    if c.o["ifaces"]:
        ni = r.choice([0, 1, 1, 2])
    plan = ["f"] * nf + ["m"] * nm
    r.shuffle(plan)
    plan = ["f"] * min(4, nf) + plan
    ipos = [r.randrange(3, len(plan) + 1) if len(plan) > 3 else len(plan) for _ in range(ni)]
    out = []
    for i, x in enumerate(plan + [None]):
        out += ["i"] * ipos.count(i)
        if x:
            out.append(x)
    if ni and ipos and max(ipos) >= len(plan):
        pass
    if c.o["frames"]:
        out += ["F"] * r.choice([1, 1, 2])
    last = None
    idi = 0
    for x in out:
        path = last if last is not None and c.ch(0.5) else r.choice(paths)
        last = path
        if x == "f":
            put_field(path)
        elif x == "m":
            n, v = idnames[idi]
            idi += 1
            lit = idref + "." + n if idref and c.ch(0.8) else c.fmt(v)
            order = None
            if nonuniq and idi > 1 and c.ch(0.3):
                # share the id of an earlier message with a different order
                prev = [m for m in c.msgs.values()]
                q = r.choice(prev)
                v = q["id"]
                lit = c.fmt(v)
                order = max(m["order"] for m in prev if m["id"] == v) + r.randint(1, 3)
            el, M = retry(c, lambda: message(c, path, v, lit, order))
            nss[path]["messages"].append(M)
            s.items.append((path, "messages", el))
        elif x == "i":
            el, I = retry(c, lambda: interface(c, path))
            nss[path]["interfaces"].append(I)
            s.items.append((path, "interfaces", el))
        elif x == "F":
            el, F = retry(c, lambda: frame(c, path))
            nss[path]["frames"].append(F)
            s.items.append((path, "frames", el))
    # assemble expected tree
    for pth in sorted(paths, key=len, reverse=True):
        n = nss[pth]
        for k in ("fields", "messages", "interfaces", "frames", "namespaces"):
            n[k].sort(key=lambda e: e["name"].encode())
        n["hasMsgs"] = None
        if pth:
            nss[pth[:-1]]["namespaces"].append(n)
    used = {()}
    for pth, _, _ in s.items:
        for i in range(len(pth) + 1):
            used.add(pth[:i])
    for pth in paths:
        used.add(pth)
    rn = nss[()]
    rn["namespaces"].sort(key=lambda e: e["name"].encode())
    tops = rn.pop("namespaces")
    s.has_root = any(p == () for p, _, _ in s.items)
    rn["namespaces"] = []
    S["namespaces"] = ([rn] if s.has_root else []) + tops
    S["namespaces"].sort(key=lambda e: e["name"].encode())
    ms = sorted(c.msgs.values(), key=lambda m: (m["id"], m["order"]))
    S["all"] = [m["ext"] for m in ms]
    s.model = S
    s.paths = paths
    s.nss = nss
    return s


SECT = dict(fields="fields", messages="messages", interfaces="interfaces", frames="frames")


def to_files(s, style_seed=None, nfiles=1, noise=True):
    """Renders the schema into nfiles XML texts; style_seed None = canonical."""
    from .xmlgen import Style, render
    st = Style(style_seed, noise)
    r = st.rng or random.Random(0)
    spell = st.rng is not None
    # groups of consecutive items
    groups = []
    for path, sect, el in s.items:
        if groups and groups[-1][0] == path and groups[-1][1] == sect and (not spell or r.random() < 0.8):
            groups[-1][2].append(el)
        else:
            groups.append((path, sect, [el]))
    n = max(1, min(nfiles, len(groups)))
    cuts = sorted(r.sample(range(1, len(groups)), n - 1)) if n > 1 else []
    parts = [groups[a:b] for a, b in zip([0] + cuts, cuts + [len(groups)])]
    texts = []
    declared = set()
    for fi, part in enumerate(parts):
        root = El("schema")
        root.props = dict(s.root.props)
        root.attr_only = set(s.root.attr_only)
        if fi and spell and r.random() < 0.5:
            root.props = {k: v for k, v in root.props.items() if k == "name" or r.random() < 0.5}
        root.body = []
        if fi == 0 and s.platforms:
            pl = [El("platform", name=x) for x in s.platforms]
            if spell and r.random() < 0.5:
                root.body += pl
            else:
                w = El("platforms")
                w.body = pl
                root.body.append(w)
        todo = [g for g in part]
        if fi == 0:
            # namespaces without any item still have to exist, and the first mention carries the properties
            for pth in s.paths:
                if pth and not any(g[0][:len(pth)] == pth for g in groups):
                    todo.insert(0, (pth, None, []))
        i = 0
        while i < len(todo):
            path, sect, els = todo[i]
            if not path:
                root.body += section(sect, els, r, spell)
                i += 1
                continue
            # merge a run of groups below the same top namespace into one element
            j = i
            run = []
            while j < len(todo) and todo[j][0][:1] == path[:1] and (j == i or r.random() < 0.6):
                run.append(todo[j]); j += 1
            root.body.append(ns_el(s, path[:1], run, declared, r, spell))
            i = j
        body = render(root, st)
        head = '<?xml version="1.0" encoding="UTF-8"?>' + st.junk().replace("\n\n", "\n").replace("\t", "")
        s.where = getattr(s, "where", None) or {}
        for k, (a, b) in st.lines.items():
            s.where[k] = (fi, a + 1 + head.count("\n"), b + 1 + head.count("\n"))
        texts.append(head + body + "\n")
    return texts


def section(sect, els, r, spell):
    if sect is None:
        return []
    if sect == "fields" or (not spell) or r.random() < 0.5:
        w = El(SECT[sect])
        w.body = els
        return [w]
    return list(els)


def ns_el(s, path, run, declared, r, spell):
    e = El("ns")
    e.props = dict(s.nsprops[path].props)
    if path in declared and spell and r.random() < 0.5:
        e.props = {"name": e.props["name"]}
    declared.add(path)
    i = 0
    while i < len(run):
        p, sect, els = run[i]
        if p == path:
            e.body += section(sect, els, r, spell)
            i += 1
            continue
        j = i
        sub = []
        while j < len(run) and run[j][0][:len(path) + 1] == p[:len(path) + 1]:
            sub.append(run[j]); j += 1
        e.body.append(ns_el(s, p[:len(path) + 1], sub, declared, r, spell))
        i = j
    return e
