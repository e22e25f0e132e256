"""Reference implementation of the wire format and of the observable behaviour of generated code.
Works on a model in the shape of gen.py / drivers/dump.cpp. Value trees: ints; floats as hex of their
bits; strings and data as hex; members and elements as lists; optionals {m: mode, f: value};
variants {i: index, f: value or None}."""
import copy, struct

OK, UPD, NED, PROTO, OVERFLOW, BADID, BADDATA = range(7)
NODEPR = 0xFFFFFFFF
INF64 = (1 << 64) - 1
TENT, EXISTS, MISSING = 0, 1, 2
BITS = [8, 8, 16, 16, 32, 32, 64, 64, 64, 64]


class Unsupported(Exception):
    pass


def uns(t):
    return t % 2 == 1


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def fval(x):
    if isinstance(x, str):
        if "nan" in x:
            return float("nan")
        return float.fromhex(x) if "0x" in x else float(x)
    return float(x)


class Codec:
    """ver: schema version generated; dep: version dependent code; minrem: minimal remote version."""

    def __init__(self, model, others=(), forced=None, minrem=0, indep=False):
        self.model = model
        self.endian = model.get("endian", 0)
        self.ver = model["version"] if forced is None else forced
        self.minrem = minrem
        self.fields = {}
        self.ifaces = []
        self.msgs = {}
        self.frames = []
        self.psince = {}
        for m in (model,) + tuple(others):
            for ns in m["namespaces"]:
                self._ns(ns)
        self.dep = (not indep) and any(f["sem"] == 1 for i in self.ifaces for f in [self.deref(x) for x in i["fields"]])
        self._dep = {}

    def _since(self, f, since):
        """latest version any of the holders of every nested field appeared in"""
        for k, v in f.items():
            for i, y in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(y, dict) and "kind" in y and "minLen" in y and not y["ext"]:
                    if self.psince.get(id(y), since) != since:
                        # the same object below several holders
                        y = copy.deepcopy(y)
                        if i is None:
                            f[k] = y
                        else:
                            v[i] = y
                    self.psince[id(y)] = since
                    self._since(y, max(since, y["since"] or 0))

    def _ns(self, ns):
        for f in ns["fields"]:
            self.fields[f["ext"]] = f
            self._since(f, f["since"] or 0)
        for i in ns["interfaces"]:
            self.ifaces.append(i)
        for m in ns["messages"]:
            self.msgs[m["ext"]] = m
            self._since(m, m["since"] or 0)
        for f in ns["frames"]:
            self.frames.append(f)
        for n in ns["namespaces"]:
            self._ns(n)

    def deref(self, f):
        while f["kind"] == "ref":
            f = self.fields[f["target"]]
        return f

    def value_exists(self, f, v, rem=False):
        """of an enum; a field newer than the generated version retains its own values"""
        since, depr = v["since"], v["depr"]
        if since <= max(f["since"] or 0, self.psince.get(id(f), 0)):
            since = 0
        if (NODEPR if f["depr"] is None else f["depr"]) <= depr:
            depr = NODEPR
        return since <= self.ver and not (rem and depr <= self.minrem)

    def meant(self, f):
        """validity of a field that does not belong to the generated version is not specified"""
        if max(f["since"] or 0, self.psince.get(id(f), 0)) > self.ver or (self.minrem and f["depr"] is not None and f["depr"] <= self.minrem):
            raise Unsupported("validity of a field that is not in the generated version")

    def exists(self, f, removed=None):
        if self.ver < (f["since"] or 0):
            return False
        if removed is not None:
            return not (removed and f["depr"] <= self.minrem)
        return not (f.get("removed", True) and (NODEPR if f["depr"] is None else f["depr"]) <= self.minrem)

    def versioned(self, f, psince):
        """Is presence of the field version dependent?"""
        if f["removed"] and f["depr"] is None:
            raise Unsupported("contradicting versions after copying into a later message")
        if not self.dep:
            return False
        if not (self.minrem < (f["since"] or 0) or (f["removed"] and f["depr"] != NODEPR)):
            return False
        return max(psince, self.psince.get(id(f), 0)) < (f["since"] or 0) or (f["removed"] and f["depr"] != NODEPR)

    def numref(self, s):
        """numeric value of a reference: namespaces.field[.member...][.named value]"""
        for ref, f in self.fields.items():
            if s != ref and not s.startswith(ref + "."):
                continue
            rest = [x for x in s[len(ref) + 1:].split(".") if x]
            f = self.deref(f)
            while rest and f["kind"] in ("bundle", "bitfield"):
                f = [m for m in f["members"] if self.deref(m)["name"] == rest[0] or m["name"] == rest[0]]
                if not f:
                    break
                f = self.deref(f[0])
                rest.pop(0)
            if not f or f["kind"] not in ("int", "enum") or len(rest) > 1:
                continue
            if not rest:
                return f["def"]
            for v in f["values" if f["kind"] == "enum" else "specials"]:
                if v["name"] == rest[0]:
                    return v["val"]
        return None

    def make(self, f, psince=None, parent=None):
        """psince: since version of the parent when the field may be version optional"""
        if psince is not None and self.versioned(f, psince):
            return VOpt(self, f)
        return self.inner(f)

    def inner(self, f, sem=None):
        k = f["kind"]
        if k == "ref":
            t = self.fields[f["target"]]
            x = self.make(t, 0)
            return x
        return CLS[k](self, f)


class Inst:
    def __init__(self, c, f):
        self.c = c
        self.f = f
        self.ver = c.ver
        self.init()

    def setver(self, v):
        if self.dep():
            self.ver = v

    def dep(self):
        return False

    def refresh(self):
        pass

    def valid(self):
        return True

    def real(self):
        return self

    def checked(self, es):
        if es == OK and self.f.get("failInv") and not self.valid():
            return BADDATA
        return es


def vranges(c, rs, vcv, ver, f):
    """ranges that apply"""
    c.meant(f)
    if vcv and c.dep and f["since"] is None:
        raise Unsupported("versions of a field copied into a later message")
    if vcv and c.dep and VOpt.mask:
        raise Unsupported("validity before a version is known")
    if vcv and c.dep and not (f["since"] or 0) <= ver < (f["depr"] if f["depr"] is not None else NODEPR):
        raise Unsupported("validity in a version the field is not meant for")
    alive = [r for r in rs if (c.value_exists(f, r, not (vcv and c.dep)) if f["kind"] == "enum" else c.exists(r))]
    if len(alive) != len(rs) and (not alive or f["kind"] == "float"):
        raise Unsupported("valid values that are not in the generated version")
    rs = alive
    if vcv and c.dep:
        return [r for r in rs if r["since"] <= ver < r["depr"] or not (c.minrem < r["since"] or r["depr"] != NODEPR)]
    return rs


class Num(Inst):
    def init(self):
        f = self.f
        self.setup()
        self.v = f.get("def", 0)
        if f["kind"] == "int" and f["sem"] == 1 and self.v == 0:
            self.v = self.c.ver
        self.v = wrap(self.v, BITS[self.t] if self.f["kind"] != "set" else self.sbits, self.signed)
        self.forced = self.len
        self.ver = self.c.ver

    def setup(self):
        f = self.f
        self.t = f["type"]
        self.signed = not uns(self.t)
        self.var = self.t >= 8
        self.pseudo = f.get("pseudo", False)
        self.len = f["maxLen"]
        self.bits = f["bitLen"] if f.get("bitLen") else self.len * 8
        self.size = BITS[self.t]
        self.off = f.get("serOffset", 0)
        self.avail = f.get("availLim", False)
        self.minlen = f["minLen"]

    def tree(self):
        return self.v

    def load(self, x):
        if not self.f.get("fixed"):
            self.v = wrap(x, self.size, self.signed)

    def signext(self):
        return self.f.get("signExt", True)

    def ser(self):
        return (self.v + self.off) & INF64

    def setser(self, raw):
        self.v = wrap(raw - self.off, self.size, self.signed)

    def length(self):
        if self.pseudo:
            return 0
        if self.var:
            return len(self.enc())
        if self.avail:
            return self.forced
        return self.len

    def enc(self):
        x = self.ser()
        if self.signed:
            x = wrap(x, 64, True)
        out = []
        while len(out) < self.len:
            b = x & 0x7f
            x >>= 7
            out.append(b)
            last = (x == 0 and not (b & 0x40)) or (x == -1 and b & 0x40) if self.signed else x == 0
            if last and len(out) >= self.minlen:
                break
        if self.f["endian"]:
            out.reverse()
        return bytes([b | 0x80 for b in out[:-1]] + out[-1:])

    def write(self):
        if self.pseudo:
            return b""
        if self.var:
            return self.enc()
        n = self.length()
        bits = self.bits if n == self.len else 8 * n
        return (self.ser() & ((1 << bits) - 1)).to_bytes(n, "big" if self.f["endian"] else "little")

    def read(self, b, p, e):
        if self.pseudo:
            return self.checked(OK), p
        if self.var:
            v = n = 0
            while True:
                if p + n >= e:
                    return NED, p
                if n >= self.len:
                    return PROTO, p
                x = b[p + n]
                v = (v << 7 | x & 0x7f) if self.f["endian"] else v | (x & 0x7f) << (7 * n)
                v &= (1 << 70) - 1
                n += 1
                if not x & 0x80:
                    break
            if n < self.minlen:
                return PROTO, p
            v &= INF64
            if self.signed and 7 * n < 64:
                v = wrap(v, 7 * n, True)
            self.setser(v)
            return self.checked(OK), p + n
        n = self.len
        if self.avail:
            n = min(n, max(e - p, 1))
        if e - p < n:
            return NED, p
        v = int.from_bytes(b[p:p + n], "big" if self.f["endian"] else "little")
        self.raw(v, self.bits if n == self.len else 8 * n)
        self.forced = n
        return self.checked(OK), p + n

    def raw(self, v, bits):
        v &= (1 << bits) - 1
        if self.signed and self.signext():
            v = wrap(v, bits, True)
        self.setser(v)

    def dep(self):
        f = self.f
        c = self.c
        if not (c.dep and f.get("vcv")):
            return False
        return any(c.minrem < r["since"] or r["depr"] != NODEPR for r in self.vers())


class Int(Num):
    def vers(self):
        return [r for r in self.f["ranges"] if r["since"] <= self.c.ver]

    def valid(self):
        f = self.f
        if f["ranges"]:
            self.c.meant(f)
        if not [r for r in f["ranges"] if self.c.exists(r)]:
            return True
        big = self.t in (7, 9)
        for r in vranges(self.c, f["ranges"], f["vcv"], self.ver, f):
            a, z = r["min"], r["max"]
            if big:
                a &= INF64
                z &= INF64
            if a <= self.v <= z:
                return True
        return False

    def refresh(self):
        f = self.f
        if f.get("failInv") and not f.get("fixed") and f["ranges"] and not self.valid():
            self.v = min(wrap(r["min"], self.size, self.signed) for r in f["ranges"])


class Enum(Num):
    def vers(self):
        return [r for r in self.f["values"] if r["since"] <= self.c.ver]

    def valid(self):
        f = self.f
        vs = vranges(self.c, f["values"], f["vcv"], self.ver, f)
        return any(wrap(x["val"], self.size, self.signed) == self.v for x in vs)


class Set(Num):
    def setup(self):
        f = self.f
        if f.get("type") is not None:
            self.t = f["type"]
        Num.setup(self)
        self.signed = False
        n = f["maxLen"] or f["_len"]
        self.sbits = self.size = 8 if n <= 1 else 16 if n == 2 else 32 if n <= 4 else 64
        self.nbits = self.bits

    def init(self):
        f = self.f
        Num.init(self)
        v = 0
        for i in range(self.nbits):
            if self.defbit(i):
                v |= 1 << i
        self.v = v

    def bit(self, i):
        return [b for b in self.f["bits"] if b["idx"] == i]

    def defbit(self, i):
        bs = [b for b in self.bit(i) if b["since"] <= self.c.ver]
        if not bs:
            return self.f["defBit"]
        return max(bs, key=lambda b: b["since"])["def"]

    def vers(self):
        f = self.f
        since, depr = f["since"] or 0, NODEPR if f["depr"] is None else f["depr"]
        return [b for b in f["bits"] if b["since"] > since or b["depr"] < depr]

    def dep(self):
        return self.c.dep and self.f["vcv"] and bool(self.vers())

    def valid(self):
        f = self.f
        self.c.meant(f)
        vcv = f["vcv"] and self.c.dep
        since, depr = f["since"] or 0, NODEPR if f["depr"] is None else f["depr"]
        if vcv and f["since"] is None:
            raise Unsupported("versions of a field copied into a later message")
        if vcv and VOpt.mask:
            raise Unsupported("validity before a version is known")
        for i in range(self.nbits):
            bs = self.bit(i)
            x = self.v >> i & 1
            if not bs:
                if x != f["resBit"]:
                    return False
            else:
                ok = False
                for b in bs:
                    if b["res"]:
                        ok = ok or x == b["resVal"]
                    elif b["since"] > self.c.ver:
                        if not vcv:
                            raise Unsupported("validity of bits of later versions")
                        ok = ok or x == b["resVal"]
                    elif vcv and (b["depr"] >= depr <= self.ver or b["since"] <= since > self.ver):
                        # a version the field is not meant for: checked or not, depending on the other bits' versions
                        raise Unsupported("validity in a version the field is not meant for")
                    elif vcv and not ((b["since"] <= since or b["since"] <= self.ver) and (b["depr"] >= depr or self.ver < b["depr"])):
                        ok = ok or x == b["resVal"]
                    else:
                        ok = True
                if not ok:
                    return False
        return True


class Float(Inst):
    def init(self):
        f = self.f
        self.n = 4 if f["type"] == 0 else 8
        self.fmt = "f" if self.n == 4 else "d"
        d = fval(f["def"])
        try:
            b = struct.pack(">" + self.fmt, d)
        except OverflowError:
            b = struct.pack(">" + self.fmt, float("inf") if d > 0 else float("-inf"))
        self.v = b
        self.pseudo = f["pseudo"]

    def tree(self):
        return self.v.hex()

    def num(self):
        return struct.unpack(">" + self.fmt, self.v)[0]

    def load(self, x):
        if not self.f.get("fixed"):
            self.v = bytes.fromhex(x)

    def length(self):
        return 0 if self.pseudo else self.n

    def write(self):
        if self.pseudo:
            return b""
        return self.v if self.f["endian"] else self.v[::-1]

    def read(self, b, p, e):
        if self.pseudo:
            return self.checked(OK), p
        if e - p < self.n:
            return NED, p
        x = b[p:p + self.n]
        self.v = x if self.f["endian"] else x[::-1]
        return self.checked(OK), p + self.n

    def dep(self):
        c = self.c
        return bool(c.dep and self.f["vcv"] and any(c.minrem < r["since"] or r["depr"] != NODEPR for r in self.f["ranges"] if r["since"] <= c.ver))

    def valid(self):
        f = self.f
        if not f["ranges"]:
            return True
        x = self.num()
        for r in vranges(self.c, f["ranges"], f["vcv"], self.ver, f):
            a, z = fval(r["min"]), fval(r["max"])
            if self.n == 4:
                a, z = f32(a), f32(z)
            if x != x:
                if a != a:
                    return True
            elif a <= x <= z:
                return True
        return False


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return x


class Bitfield(Inst):
    def init(self):
        self.m = [self.c.inner(x) for x in self.f["members"]]

    def tree(self):
        return [x.tree() for x in self.m]

    def load(self, t):
        for x, y in zip(self.m, t):
            x.load(y)

    def nbytes(self):
        return sum(x.real().bits for x in self.m) // 8

    def length(self):
        return self.nbytes()

    def write(self):
        v = pos = 0
        for x in self.m:
            x = x.real()
            v |= (x.ser() & ((1 << x.bits) - 1)) << pos
            pos += x.bits
        return v.to_bytes(pos // 8, "big" if self.f["endian"] else "little")

    def read(self, b, p, e):
        n = self.nbytes()
        if e - p < n:
            return NED, p
        v = int.from_bytes(b[p:p + n], "big" if self.f["endian"] else "little")
        es = OK
        for x in self.m:
            x = x.real()
            if es == OK:
                x.raw(v, x.bits)
                es = x.checked(OK)
            v >>= x.bits
        return self.checked(es), p + n

    iface = None

    def valid(self):
        if not all(x.valid() for x in self.m):
            return False
        vc = self.f.get("validCond")
        return cond(vc, self) if vc else True

    def dep(self):
        return any(x.dep() for x in self.m)

    def setver(self, v):
        for x in self.m:
            x.setver(v)


def is_len(x):
    return x.f["sem"] == 3


class Fields(Inst):
    """Sequence of fields: bundle, message, or the transport fields of an interface."""
    top = False

    def init(self):
        f = self.f
        self.m = []
        self.names = []
        for x in f[self.KEY]:
            self.m.append(self.c.make(x, f.get("since") or 0))
            self.names.append(x["name"])
        self.iface = None

    def tree(self):
        return [x.tree() for x in self.m]

    def load(self, t):
        for x, y in zip(self.m, t):
            x.load(y)

    def length(self):
        return sum(x.length() for x in self.m)

    def write(self):
        return b"".join(x.write() for x in self.m)

    def dep(self):
        return any(x.dep() for x in self.m)

    def setver(self, v):
        for x in self.m:
            x.setver(v)

    def get(self, path):
        n, _, rest = path.partition(".")
        x = self.m[self.names.index(n)]
        return x, rest

    # --- siblings
    def attach(self, iface):
        """gives access to the interface fields in conditions"""
        self.iface = iface
        for x in self.m:
            r = x.real()
            if isinstance(r, (Fields, Opt, Seq, Variant)):
                r.setiface(iface)

    setiface = attach

    def prepare(self, i):
        """before reading of member i"""
        x = self.m[i]
        r = x
        if isinstance(x, VOpt):
            r = x.x
        if isinstance(r, Opt) and r.f.get("cond"):
            r.mode = EXISTS if cond(r.f["cond"], self) else MISSING
        if isinstance(r, Opt):
            r = r.x.real() if not isinstance(r.x, VOpt) else r.x.x
        if isinstance(r, Seq):
            r.forced = [None, None, None]
            for j, k in enumerate(("detPrefix" if r.f["kind"] != "list" else "detCount", "detLen", "detElemLen")):
                d = r.f.get(k)
                if d:
                    px, rest = self.get(d)
                    n = plain(px)
                    r.forced[j] = n

    def read(self, b, p, e):
        es = OK
        lim = e
        for i, x in enumerate(self.m):
            self.prepare(i)
            start = p
            es, p = x.read(b, p, lim)
            if es != OK:
                return es, p
            y = x.real()
            if self.KEY == "members" and y is not None and isinstance(y, Int) and y.f["sem"] == 3 and present(x):
                n = y.v
                rest = lim - p
                if rest < n:
                    return NED, p
                lim = p + n
                self.remlen = lim
        return OK, p

    def refresh(self):
        for x in self.m:
            x.refresh()
        for x in self.m:
            r = x.x if isinstance(x, VOpt) else x
            if isinstance(r, Opt) and r.f.get("cond"):
                r.mode = EXISTS if cond(r.f["cond"], self) else MISSING
            if isinstance(r, Opt):
                if r.mode != EXISTS:
                    continue
                r = r.x.x if isinstance(r.x, VOpt) else r.x
            if isinstance(r, Seq):
                for j, k in enumerate(("detPrefix" if r.f["kind"] != "list" else "detCount", "detLen", "detElemLen")):
                    d = r.f.get(k)
                    if d:
                        px, rest = self.get(d)
                        r.refreshpref(j, px)

    def valid(self):
        if not all(x.valid() for x in self.m):
            return False
        vc = self.f.get("validCond")
        return cond(vc, self) if vc else True


def present(x):
    """does the field exist on the wire"""
    if isinstance(x, VOpt):
        return x.mode == EXISTS and present(x.x)
    if isinstance(x, Opt):
        return x.mode == EXISTS and present(x.x)
    return True


def plain(x):
    """the numeric value of a (possibly optional) prefix field"""
    while isinstance(x, (VOpt, Opt)):
        if x.mode != EXISTS:
            return None
        x = x.x
    return x.v


class Bundle(Fields):
    KEY = "members"

    def init(self):
        Fields.init(self)
        self.li = next((i for i, x in enumerate(self.m) if isinstance(x.real(), Int) and x.real().f["sem"] == 3), None)
        self.relen()

    def relen(self):
        if self.li is None:
            return
        x = self.m[self.li]
        if present(x):
            n = sum(y.length() for y in self.m[self.li + 1:])
            x.real().v = wrap(n, x.real().size, x.real().signed)

    def setver(self, v):
        Fields.setver(self, v)
        self.relen()

    def refresh(self):
        Fields.refresh(self)
        self.relen()

    def read(self, b, p, e):
        es = OK
        lim = e
        end = None
        for i, x in enumerate(self.m):
            self.prepare(i)
            es, p = x.read(b, p, lim)
            if es != OK:
                return es, p
            if i == self.li and present(x):
                n = x.real().v
                if n < 0 or lim - p < n:
                    return NED, p
                lim = end = p + n
        if end is not None:
            p = end
        return self.checked(OK), p


class Seq(Inst):
    def init(self):
        f = self.f
        self.raw = f["kind"] != "list"
        self.iface = None
        self.forced = [None, None, None]
        if self.raw:
            d = f["def"]
            self.v = d.encode() if f["kind"] == "string" else bytes.fromhex(d)
            self.fix = f["fixedLen"]
        else:
            self.fix = f["count"]
            self.v = [self.elem() for _ in range(self.fix)]

    def setiface(self, i):
        self.iface = i

    def elem(self):
        x = self.c.inner(self.f["element"])
        return x

    def tree(self):
        return self.v.hex() if self.raw else [x.tree() for x in self.v]

    def load(self, t):
        if self.f.get("fixed"):
            return
        if self.raw:
            self.v = bytes.fromhex(t)
        else:
            self.v = []
            for y in t:
                x = self.elem()
                x.load(y)
                self.v.append(x)

    def setver(self, v):
        self.ver = v
        if not self.raw:
            for x in self.v:
                x.setver(v)

    def dep(self):
        if self.raw:
            return False
        if "_dep" not in self.__dict__:
            self._dep = self.elem().dep()
        return self._dep

    def px(self, k, v):
        """bytes of a prefix field of own, None when there is none"""
        p = self.f.get(k)
        if not p:
            return None
        x = self.c.inner(p)
        y = x.real()
        y.v = wrap(v, y.size, y.signed)
        return x

    def body(self):
        if self.raw:
            v = self.v
            if self.fix:
                v = v[:self.fix] + bytes(max(0, self.fix - len(v)))
            return v
        out = b""
        vs = self.v
        if self.fix:
            vs = vs[:self.fix] + [self.elem() for _ in range(self.fix - len(vs))]
        for i, x in enumerate(vs):
            w = x.write()
            if self.f.get("elemLenPrefix") and (i == 0 or not self.f["elemFixed"]):
                out += self.px("elemLenPrefix", len(w)).write()
            out += w
        return out

    def write(self):
        out = b""
        b = self.body()
        n = len(self.v)
        if self.raw:
            if self.f.get("lenPrefix"):
                out += self.px("lenPrefix", n).write()
        else:
            if self.f.get("countPrefix"):
                out += self.px("countPrefix", n).write()
            if self.f.get("lenPrefix"):
                out += self.px("lenPrefix", len(b)).write()
        out += b
        out += self.term()
        return out

    def term(self):
        f = self.f
        if f.get("zeroTerm"):
            return b"\0"
        if f.get("term"):
            return self.c.inner(f["term"]).write()
        return b""

    def length(self):
        return len(self.write())

    def refreshpref(self, j, px):
        while isinstance(px, (VOpt, Opt)):
            px = px.x
        if j == 0:
            n = len(self.v)
            cur = px.v
        elif j == 1:
            n = len(self.body())
        else:
            if not self.v:
                return
            n = self.v[0].length()
        if px.v == n or px.f.get("fixed"):
            return
        px.v = wrap(n, px.size, px.signed)
        if px.v != n:
            raise Unsupported("contents do not fit the prefix")

    def refresh(self):
        if not self.raw:
            for x in self.v:
                x.refresh()
            if self.fix and len(self.v) != self.fix:
                self.v = self.v[:self.fix] + [self.elem() for _ in range(self.fix - len(self.v))]

    def valid(self):
        f = self.f
        if not self.raw:
            if not all(x.valid() for x in self.v):
                return False
        for k in ("lenPrefix", "countPrefix"):
            if f.get(k):
                n = len(self.v) if (self.raw or k == "countPrefix") else len(self.body())
                if not self.px(k, n).valid():
                    return False
        if self.raw and f["valid"]:
            self.c.meant(f)
            vs = [v for v in f["valid"] if self.c.exists(v)]
            if not vs:
                return True
            for v in vs:
                t = v["val"].encode() if f["kind"] == "string" else bytes.fromhex(v["val"])
                if self.v == t:
                    return True
            return False
        return True

    def rpx(self, k, b, p, e):
        x = self.c.inner(self.f[k])
        es, p = x.read(b, p, e)
        return es, p, (plain(x) if es == OK else None)

    def read(self, b, p, e):
        es, p = self._read(b, p, e)
        return self.checked(es), p

    def _read(self, b, p, e):
        f = self.f
        count = ser = None
        self.v = b"" if self.raw else []
        if self.raw:
            if f.get("lenPrefix"):
                es, p, count = self.rpx("lenPrefix", b, p, e)
                if es != OK:
                    return es, p
            if self.forced[0] is not None:
                count = self.forced[0]
            if self.fix:
                count = self.fix
            t = self.term()
            if t:
                i = p
                x = self.c.inner(f["term"]) if f.get("term") else None
                while True:
                    if e - i < len(t):
                        return NED, p
                    if b[i:i + len(t)] == t:
                        break
                    i += 1
                self.v = b[p:i]
                return OK, i + len(t)
            if count is None:
                self.v = b[p:e]
                return OK, e
            if count < 0 or e - p < count:
                return NED, p
            self.v = b[p:p + count]
            if self.fix and f["kind"] == "string":
                self.v = self.v.split(b"\0")[0]
            return OK, p + count
        if f.get("countPrefix"):
            es, p, count = self.rpx("countPrefix", b, p, e)
            if es != OK:
                return es, p
        if f.get("lenPrefix"):
            es, p, ser = self.rpx("lenPrefix", b, p, e)
            if es != OK:
                return es, p
        if self.forced[0] is not None:
            count = self.forced[0]
        if self.forced[1] is not None:
            ser = self.forced[1]
        if self.fix:
            count = self.fix
        lim = e
        if ser is not None:
            if ser < 0 or e - p < ser:
                return NED, p
            lim = p + ser
        el = None
        t = self.term()
        while True:
            if t:
                if lim - p < len(t):
                    return NED, p
                if b[p:p + len(t)] == t:
                    return OK, p + len(t)
            if count is not None and len(self.v) >= (count if count >= 0 else INF64):
                break
            if count is None and p == lim:
                break
            start = p
            n = None
            if f.get("elemLenPrefix") and (el is None or not f["elemFixed"]):
                es, p, el = self.rpx("elemLenPrefix", b, p, lim)
                if es != OK:
                    return es, p
            n = el
            if self.forced[2] is not None:
                n = self.forced[2]
            x = self.elem()
            x.setver(self.ver) if self.dep() else None
            if n is None:
                es, p = x.read(b, p, lim)
                if es != OK:
                    return es, p
            else:
                if n < 0 or lim - p < n:
                    return NED, p
                es, _ = x.read(b, p, p + n)
                if es != OK:
                    return PROTO if es == NED else es, p
                p += n
            self.v.append(x)
            if p == start and (count is None or count > 1000):
                raise Unsupported("reading elements that occupy no bytes")
        if ser is not None and p != lim:
            pass
        return OK, (lim if ser is not None else p)


class Opt(Inst):
    def init(self):
        f = self.f
        self.x = self.c.make(f["field"], f["since"] or 0)
        self.mode = f["mode"]
        self.iface = None

    def setiface(self, i):
        r = self.x.real()
        if isinstance(r, (Fields, Opt, Seq, Variant)):
            r.setiface(i)

    def tree(self):
        return dict(m=self.mode, f=self.x.tree())

    def load(self, t):
        self.mode = t["m"]
        self.x.load(t["f"])

    def dep(self):
        return self.x.dep()

    def setver(self, v):
        self.x.setver(v)

    def length(self):
        return self.x.length() if self.mode == EXISTS else 0

    def write(self):
        return self.x.write() if self.mode == EXISTS else b""

    def read(self, b, p, e):
        if self.mode == MISSING:
            return OK, p
        if self.mode == TENT and p == e:
            self.mode = MISSING
            return OK, p
        es, q = self.x.read(b, p, e)
        if es == OK:
            self.mode = EXISTS
        elif self.f.get("missReadFail"):
            self.mode = MISSING
            return OK, p
        if es == OK and self.f.get("missInvalid") and not self.valid():
            self.mode = MISSING
            return OK, p
        return self.checked(es), q

    def valid(self):
        return self.mode != EXISTS or self.x.valid()

    def refresh(self):
        if self.mode == EXISTS:
            self.x.refresh()
            if self.f.get("missInvalid") and not self.valid():
                self.mode = MISSING


class VOpt(Inst):
    """Version dependent presence."""

    def init(self):
        f = self.f
        self.x = self.c.inner(f)
        self.mode = EXISTS if self.has(self.c.ver) else MISSING

    def has(self, v):
        f = self.f
        return (f["since"] or 0) <= v and not (f.get("removed") and (NODEPR if f["depr"] is None else f["depr"]) <= v)

    def real(self):
        return self.x.real()

    mask = False

    def tree(self):
        t = Opt.tree(self)
        if VOpt.mask:
            t["m"] = None
        return t

    load = Opt.load
    length = Opt.length
    write = Opt.write

    def valid(self):
        if VOpt.mask:
            if self.x.valid():
                return True
            raise Unsupported("validity before a version is known")
        return Opt.valid(self)

    def setver(self, v):
        self.x.setver(v)
        self.mode = EXISTS if self.has(v) else MISSING

    def dep(self):
        return True

    def read(self, b, p, e):
        if self.mode == MISSING:
            return OK, p
        if self.mode == TENT and p == e:
            self.mode = MISSING
            return OK, p
        es, q = self.x.read(b, p, e)
        if es == OK:
            self.mode = EXISTS
        return es, q

    def refresh(self):
        if self.mode == EXISTS:
            self.x.refresh()


class Variant(Inst):
    def init(self):
        self.ms = [x for x in self.f["members"]]
        self.i = -1
        self.x = None
        self.iface = None
        d = self.f["defIdx"]
        if d is not None and d >= 0:
            m = self.f["members"][d]
            if m in self.ms:
                self.select(self.ms.index(m))

    def setiface(self, i):
        self.iface = i

    def select(self, i):
        self.i = i
        self.x = self.c.inner(self.ms[i]) if i >= 0 else None
        if self.x is not None and isinstance(self.x, Fields):
            self.x.attach(self.iface)

    def tree(self):
        return dict(i=self.i, f=None if self.x is None else self.x.tree())

    def load(self, t):
        if t["f"] is None:
            self.select(-1)
        else:
            self.select(t["i"])
            self.x.load(t["f"])

    def dep(self):
        if "_dep" not in self.__dict__:
            self._dep = any(self.c.inner(m).dep() for m in self.ms)
        return self._dep

    def setver(self, v):
        self.ver = v
        if self.x is not None:
            self.x.setver(v)

    def length(self):
        return 0 if self.x is None else self.x.length()

    def write(self):
        return b"" if self.x is None else self.x.write()

    def valid(self):
        return self.x is not None and self.x.valid()

    def refresh(self):
        if self.x is not None:
            self.x.refresh()

    def read(self, b, p, e):
        for i in range(len(self.ms)):
            self.select(i)
            if self.dep():
                self.x.setver(self.ver)
            es, q = self.x.read(b, p, e)
            if es == OK:
                return self.checked(OK), q
        self.select(-1)
        return BADDATA, p


class Message(Fields):
    KEY = "fields"
    top = True

    def __init__(self, c, f, iface=None):
        self.ifacef = iface
        Inst.__init__(self, c, f)

    def init(self):
        Fields.init(self)
        self.t = Transport(self.c, self.ifacef) if self.ifacef else None
        self.attach(self.t)
        self.vi = None
        if self.t is not None:
            for i, x in enumerate(self.t.m):
                if x.real().f["sem"] == 1:
                    self.vi = i
        if self.vi is None and any(x.dep() for x in self.m):
            raise Unsupported("version dependent fields and no version in the interface")
        con = self.f.get("construct")
        if con and self.t is not None:
            apply_construct(con, self.t)
        self.verupdate()

    def verupdate(self):
        if self.vi is not None:
            v = self.t.m[self.vi].real().v & 0xFFFFFFFF
            for x in self.m:
                if x.dep():
                    x.setver(v)

    def read(self, b, p, e):
        rc = self.f.get("readCond")
        if rc and not cond(rc, self):
            return BADDATA, p
        self.verupdate()
        es, p = Fields.read(self, b, p, e)
        if es == OK and self.f.get("failInv") and not self.valid():
            return BADDATA, p
        return es, p

    def refresh(self):
        self.verupdate()
        Fields.refresh(self)


class Transport(Fields):
    KEY = "fields"

    def init(self):
        self.m = [self.c.inner(x) for x in self.f["fields"]]
        self.names = [x["name"] for x in self.f["fields"]]
        self.iface = None


def apply_construct(e, t):
    if "list" in e:
        for x in e["conds"]:
            apply_construct(x, t)
        return
    l, r = e["li"], e["ri"]
    if e["l"] == "":
        neg = e["op"] == "!"
        x, bit = find(t, r["acc"])
        b = next(b for b in x.f["bits"] if b["name"] == bit)
        m = 1 << b["idx"]
        x.v = (x.v & ~m) | (0 if neg else m)
        return
    x, _ = find(t, l["acc"])
    x.v = wrap(literal(x, r["acc"], t), x.size, x.signed)


def find(scope, path):
    """-> (instance (inner most existing or None), rest of the path)"""
    names = path.split(".")
    x = None
    cur = scope
    while names:
        if isinstance(cur, (Fields, Bitfield)):
            nm = [y["name"] for y in cur.f["members" if not isinstance(cur, (Message, Transport)) else "fields"]]
            if names[0] not in nm:
                return None, ".".join(names)
            x = cur.m[nm.index(names[0])]
            names.pop(0)
            cur = x
            while isinstance(cur, (VOpt, Opt)):
                if names or isinstance(cur, VOpt):
                    if cur.mode != EXISTS:
                        return None, ".".join(names)
                    cur = cur.x
                else:
                    break
        else:
            break
    return cur, ".".join(names)


def literal(x, s, scope):
    """value of a literal with respect to the field it is compared with"""
    k = x.f["kind"]
    if k == "enum":
        for v in x.f["values"]:
            if v["name"] == s:
                return wrap(v["val"], x.size, x.signed)
    if k == "int":
        for v in x.f["specials"]:
            if v["name"] == s:
                return wrap(v["val"], x.size, x.signed)
    if k == "float":
        for v in x.f["specials"]:
            if v["name"] == s:
                return fval(v["val"])
        try:
            return float(s)
        except ValueError:
            raise Unsupported("literal " + s)
    try:
        return int(s, 0)
    except ValueError:
        n = x.c.numref(s) if k in ("int", "enum") else None
        if n is None:
            raise Unsupported("literal " + s)
        return wrap(n, x.size, x.signed)


def operand(o, scope):
    t = scope if o["type"] == 2 else (scope.iface if not isinstance(scope, Transport) else scope)
    if t is None:
        return None, ""
    return find(t, o["acc"])


def cond(e, scope):
    if "list" in e:
        f = all if e["list"] == "and" else any
        return f(cond(x, scope) for x in e["conds"])
    l, r, op = e["li"], e["ri"], e["op"]
    if e["l"] == "":
        x, rest = operand(r, scope)
        if r["mode"] == 2:
            v = x is not None and x.mode == EXISTS if isinstance(x, Opt) else x is not None
        else:
            if x is None:
                return False
            b = next(b for b in x.f["bits"] if b["name"] == rest)
            v = bool(x.v >> b["idx"] & 1)
        return not v if op == "!" else v
    x, rest = operand(l, scope)
    if x is None:
        return False

    def opt(x):
        while isinstance(x, (Opt, VOpt)):
            if x.mode != EXISTS:
                return None
            x = x.x
        return x
    x = opt(x)
    if x is None:
        return False
    a = len(x.v) if l["mode"] == 1 else (x.num() if isinstance(x, Float) else x.v)
    if r["type"] == 1:
        b = int(r["acc"], 0) if l["mode"] == 1 else literal(x, r["acc"], scope)
        if isinstance(x, Float) and x.n == 4:
            b = struct.unpack("f", struct.pack("f", b))[0]
    else:
        y, _ = operand(r, scope)
        y = opt(y) if y is not None else None
        if y is None:
            return False
        b = len(y.v) if r["mode"] == 1 else (y.num() if isinstance(y, Float) else y.v)
    return {"=": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


CLS = dict(int=Int, enum=Enum, set=Set, float=Float, bitfield=Bitfield, bundle=Bundle, string=Seq, data=Seq, list=Seq, optional=Opt, variant=Variant)
