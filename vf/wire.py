"""Random values, commands and comparison for the reflection driver (mini/refl/refl.h)."""
import json
from . import codec
from .codec import Opt, VOpt, Seq, Variant, Fields, Bitfield, Num, Float, Int, Enum, Set, wrap, BITS, INF64


def rnum(r, x):
    """x: Num instance"""
    bits = x.size
    f = x.f
    pool = [x.v]
    if isinstance(x, Enum):
        pool += [v["val"] for v in f["values"]] * 2
    elif isinstance(x, Int):
        pool += [s["val"] for s in f["specials"]]
        for g in f["ranges"]:
            pool += [g["min"], g["max"], g["min"] - 1, g["max"] + 1]
    else:
        pool += [x.v ^ (1 << b["idx"]) for b in f["bits"]] + [sum(1 << b["idx"] for b in f["bits"])]
    lo, hi = (0, (1 << bits) - 1) if not x.signed else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    k = r.random()
    if k < 0.55:
        v = r.choice(pool)
    elif k < 0.7:
        v = r.choice([lo, hi, 0, 1, -1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000])
    elif k < 0.85:
        v = r.randint(lo, hi)
    else:
        v = r.getrandbits(r.randint(1, 64))
    v = wrap(v, bits, x.signed)
    # values which the field can carry
    if x.var:
        n = 7 * x.len
        s = x.ser()
        off = x.off
        if n < 64:
            raw = wrap(wrap(v + off, 64, True), n, x.signed)
            v = wrap(raw - off, bits, x.signed)
    else:
        b = x.bits if not isinstance(x, Set) else x.bits
        raw = (v + x.off) & ((1 << b) - 1)
        if x.signed:
            raw = wrap(raw, b, True) if x.signext() else raw
        v = wrap(raw - x.off, bits, x.signed)
    return v


FLT = ["0", "1.5", "-2.25", "100", "inf", "-inf", "nan", "1e-3", "3.4e38", "1e300", "-0.0"]


def rfloat(r, x):
    import struct
    f = x.f
    pool = FLT + [s["val"] for s in f["specials"]]
    for g in f["ranges"]:
        pool += [g["min"], g["max"]]
    v = codec.fval(r.choice(pool)) if r.random() < 0.8 else r.uniform(-1e6, 1e6)
    if f["ranges"] and r.random() < 0.4:
        g = r.choice(f["ranges"])
        v = r.uniform(codec.fval(g["min"]), codec.fval(g["max"]))
    try:
        return struct.pack(">" + x.fmt, v).hex()
    except OverflowError:
        return struct.pack(">" + x.fmt, 1.0).hex()


def rand(r, x, depth=0):
    """random value tree for the instance"""
    if isinstance(x, (Opt, VOpt)):
        return dict(m=r.choice([0, 1, 1, 2]) if isinstance(x, Opt) else x.mode, f=rand(r, x.x, depth))
    if isinstance(x, Num):
        return rnum(r, x)
    if isinstance(x, Float):
        return rfloat(r, x)
    if isinstance(x, (Fields, Bitfield)):
        return [rand(r, y, depth) for y in x.m]
    if isinstance(x, Variant):
        if r.random() < 0.1 or not x.ms:
            return dict(i=-1, f=None)
        i = r.randrange(len(x.ms))
        y = x.c.inner(x.ms[i])
        return dict(i=i, f=rand(r, y, depth + 1))
    if isinstance(x, Seq):
        n = r.choice([0, 1, 1, 2, 3, 5])
        if x.raw:
            if x.fix:
                n = x.fix if r.random() < 0.7 else r.randint(0, x.fix)
            if x.f["kind"] == "string":
                b = bytes(r.choice(b"abcXYZ019 _-") for _ in range(n))
            else:
                b = bytes(r.getrandbits(8) for _ in range(n))
            if x.f["valid"] and r.random() < 0.3:
                v = r.choice(x.f["valid"])
                b = v["val"].encode() if x.f["kind"] == "string" else bytes.fromhex(v["val"])
            if r.random() < 0.2:
                b = x.v
            return b.hex()
        if x.fix:
            n = x.fix if x.dep() or r.random() < 0.8 else max(0, x.fix - 1)
        n = min(n, 2) if depth > 1 and not (x.fix and x.dep()) else n
        out = []
        for _ in range(n):
            y = x.elem()
            if x.dep():
                y.setver(x.ver)
            out.append(rand(r, y, depth + 1))
        return out
    raise TypeError(type(x))


def js(t):
    return json.dumps(t, separators=(",", ":"))


def isnan(h):
    b = bytes.fromhex(h)
    if len(b) == 4:
        v = int.from_bytes(b, "big")
        return v & 0x7f800000 == 0x7f800000 and v & 0x7fffff != 0
    v = int.from_bytes(b, "big")
    return (v >> 52) & 0x7ff == 0x7ff and v & ((1 << 52) - 1) != 0


def valid(x):
    """1, 0 or None when it is not specified"""
    try:
        return int(x.valid())
    except codec.Unsupported:
        return None


def state(m, tree=True):
    w = m.write()
    o = dict(v=m.tree(), t=m.t.tree() if m.t else [], l=m.length(), ok=valid(m), fv="".join("?" if valid(x) is None else str(valid(x)) for x in m.m), we=0, w=w.hex())
    if o["l"]:
        o["wo"] = codec.OVERFLOW
    return o


def diff(a, b, path=""):
    """first difference; a: expected, b: observed"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(a, key='fv'.__ne__):
            if k not in b:
                return "%s.%s expected %s observed nothing" % (path, k, js(a[k])[:200])
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s.%s observed %s expected nothing" % (path, k, js(b[k])[:200])
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: expected %d elements %s observed %d %s" % (path, len(a), js(a)[:150], len(b), js(b)[:150])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b and a is not None:
        if isinstance(a, str) and "?" in a and isinstance(b, str) and len(a) == len(b) and all(x in ("?", y) for x, y in zip(a, b)):
            return None
        if isinstance(a, str) and isinstance(b, str) and len(a) == len(b) and len(a) in (8, 16):
            try:
                if isnan(a) and isnan(b):
                    return None
            except ValueError:
                pass
        return "%s: expected %s observed %s" % (path, js(a)[:300], js(b)[:300])
    return None
