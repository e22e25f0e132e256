"""Reference implementation of frames: what is written around a message and how input is decoded."""
from . import codec
from .codec import OK, NED, PROTO, BADID, wrap, Message

SYNC, SIZE, ID, VALUE, PAYLOAD, CHECKSUM = "sync", "size", "id", "value", "payload", "checksum"


def crc(data, bits, poly, init, xor, refl):
    r = init
    top = 1 << (bits - 1)
    mask = (1 << bits) - 1
    for x in data:
        if refl:
            x = int("{:08b}".format(x)[::-1], 2)
        r ^= x << (bits - 8)
        for _ in range(8):
            r = ((r << 1) ^ poly if r & top else r << 1) & mask
    if refl:
        r = int(("{:0%db}" % bits).format(r)[::-1], 2)
    return r ^ xor


def csum(alg, data):
    if alg == 1:
        return sum(data)
    if alg == 2:
        return crc(data, 16, 0x1021, 0xffff, 0, False)
    if alg == 3:
        return crc(data, 16, 0x8005, 0, 0, True)
    if alg == 4:
        return crc(data, 32, 0x04C11DB7, 0xffffffff, 0xffffffff, True)
    if alg == 5:
        r = 0
        for x in data:
            r ^= x
        return r
    raise codec.Unsupported("custom checksum")


def nested(layers):
    """outermost layer first; a layer that follows the payload encloses the one it starts from and
    the ones written before it"""
    out = [l for l in layers]
    pi = next(i for i, l in enumerate(out) if l["kind"] == PAYLOAD)
    out, post = out[:pi + 1], out[pi + 1:]
    prev = len(out)
    for l in post:
        frm = l.get("from")
        at = next(i for i, x in enumerate(out) if x["name"] == frm) if frm else len([x for x in out]) - 1
        at = min(at, prev)
        out.insert(at, l)
        prev = at
    return out, {id(l) for l in post}


class Err(Exception):
    def __init__(self, es):
        self.es = es


class Frame:
    def __init__(self, c, F, iface, msgs):
        """msgs: model messages the frame can create, in the order of the bundle"""
        self.c = c
        self.F = F
        self.iface = iface
        self.msgs = msgs
        self.nest, post = nested(F["layers"])
        self.suffix = [id(l) in post for l in self.nest]
        for l in self.nest:
            if l["kind"] not in (SYNC, SIZE, ID, VALUE, PAYLOAD, CHECKSUM) or l.get("customAlg"):
                raise codec.Unsupported("custom layer")
            if l["kind"] == CHECKSUM and c.deref(l["field"]).get("availLim"):
                raise codec.Unsupported("checksum of unspecified minimal length")
            if l.get("seek"):
                raise codec.Unsupported("seek")

    def inst(self, i):
        return self.c.inner(self.nest[i]["field"]).real()

    def tidx(self, l):
        return next(j for j, f in enumerate(self.iface["fields"]) if f["name"] == l["fieldName"])

    # ------------------------------------------------------------------ writing
    def write(self, m, i=0):
        l = self.nest[i]
        k = l["kind"]
        if k == PAYLOAD:
            return m.write()
        rest = self.write(m, i + 1)
        x = self.inst(i)
        if k == SIZE:
            x.v = wrap(len(rest), x.size, x.signed)
        elif k == ID:
            x.v = wrap(m.f["id"], x.size, x.signed)
        elif k == VALUE:
            if l["pseudo"]:
                return rest
            x.v = wrap(m.t.m[self.tidx(l)].real().v, x.size, x.signed)
        elif k == CHECKSUM:
            x.v = wrap(csum(l["alg"], rest), x.size, x.signed)
        if self.suffix[i]:
            return rest + x.write()
        return x.write() + rest

    # ------------------------------------------------------------------ reading
    def read(self, b):
        """(status, consumed, index of the message, message)"""
        self.vals = {}
        self.cur = None
        try:
            p = self.rd(b, 0, len(b), 0)
        except Err as e:
            return e.es, 0, None, None
        return OK, p, self.cur[0], self.cur[1]

    def rfield(self, x, b, p, e):
        es, q = x.read(b, p, e)
        if es != OK:
            raise Err(es)
        return q

    def rd(self, b, p, e, i):
        l = self.nest[i]
        k = l["kind"]
        if k == PAYLOAD:
            if self.cur is None:
                raise Err(BADID)
            es, q = self.cur[1].read(b, p, e)
            if es != OK:
                raise Err(es)
            return q
        x = self.inst(i)
        d = x.v
        if self.suffix[i]:
            if l["vbr"]:
                n = len(x.write())
                if e - p < n:
                    raise Err(NED)
                cut = e - n
                self.rfield(x, b, cut, e)
                if x.v != (d if k == SYNC else wrap(csum(l["alg"], b[p:cut]), x.size, x.signed)):
                    raise Err(PROTO)
                self.rd(b, p, cut, i + 1)
                return e
            n = x.f["minLen"] if k == CHECKSUM else len(x.write())
            if e - p < n:
                raise Err(NED)
            q = self.rd(b, p, e - n, i + 1)
            r = self.rfield(x, b, q, e)
            if x.v != (d if k == SYNC else wrap(csum(l["alg"], b[p:q]), x.size, x.signed)):
                raise Err(PROTO)
            return r
        if k == VALUE and l["pseudo"]:
            q = p
        else:
            q = self.rfield(x, b, p, e)
        if k == SYNC:
            if x.v != d:
                raise Err(PROTO)
            return self.rd(b, q, e, i + 1)
        if k == SIZE:
            n = x.v & codec.INF64
            if e - q < n:
                raise Err(NED)
            try:
                self.rd(b, q, q + n, i + 1)
            except Err as z:
                raise Err(PROTO if z.es == NED else z.es)
            return q + n
        if k == VALUE:
            self.setval(l, x.v)
            return self.rd(b, q, e, i + 1)
        if k == CHECKSUM:
            if l["vbr"]:
                if x.v != wrap(csum(l["alg"], b[q:e]), x.size, x.signed):
                    raise Err(PROTO)
                return self.rd(b, q, e, i + 1)
            r = self.rd(b, q, e, i + 1)
            if x.v != wrap(csum(l["alg"], b[q:r]), x.size, x.signed):
                raise Err(PROTO)
            return r
        # id
        last = None
        for n, M in enumerate(self.msgs):
            if M["id"] != x.v:
                continue
            m = Message(self.c, M, self.iface)
            self.cur = (n, m)
            for j, v in self.vals.items():
                y = m.t.m[j].real()
                y.v = wrap(v, y.size, y.signed)
            try:
                return self.rd(b, q, e, i + 1)
            except Err as z:
                last = z
                self.cur = None
        raise last or Err(BADID)

    def setval(self, l, v):
        j = self.tidx(l)
        self.vals[j] = v
        if self.cur:
            y = self.cur[1].t.m[j].real()
            y.v = wrap(v, y.size, y.signed)


def usable(c, F, iface):
    """can the frame be used with messages of that interface?"""
    for l in F["layers"]:
        if l["kind"] == VALUE:
            if not iface or iface["ext"] not in l["ifaces"]:
                return False
            f = c.deref(next(f for f in iface["fields"] if f["name"] == l["fieldName"]))
            if f["kind"] not in ("int", "enum"):
                return False
    return True
