"""Expected report of the application generated by commsdsl2test."""
import math, re, struct
from . import codec, desc
from .codec import Opt, VOpt, Seq, Variant, Fields, Bitfield, Num, Float

IND = "    "


def esc(s):
    """s: text of the schema"""
    return re.escape(s.encode().decode("latin-1"))


def name(f):
    return desc.label(f)


def intv(v, size):
    if v >= 0:
        return esc("%d | 0x%x" % (v, v))
    # the type which carries the value may be wider than the field
    return esc("%d | 0x" % v) + "(?:%s)" % "|".join("%x" % (v & ((1 << b) - 1)) for b in (16, 32, 64) if -v <= 1 << b - 1)


def flt(x):
    v = x.num()
    if math.isnan(v):
        return "-?nan"
    return esc("%g" % v)


def field(c, x, f, ind, psince=None):
    """regular expression of what is printed for the field"""
    return esc(IND * ind + name(f) + " : ") + value(c, x, ind) + "\n"


def sub(c, x, ind, n):
    return esc(IND * ind + n + " : ") + value(c, x, ind) + "\n"


def value(c, x, ind):
    f = x.f
    if isinstance(x, (Opt, VOpt)):
        if x.mode == 2:
            return esc("<missing>")
        if x.mode == 0:
            raise codec.Unsupported("tentative")
        g = f["field"] if isinstance(x, Opt) else f
        return esc("<exists>\n") + field(c, x.x, g, ind + 1)
    if isinstance(x, codec.Enum):
        best = {(v["disp"] or v["name"]) for v in f["values"] if codec.wrap(v["val"], x.size, x.signed) == x.v and c.value_exists(f, v)}
        maybe = {(v["disp"] or v["name"]) for v in f["values"] if codec.wrap(v["val"], x.size, x.signed) == x.v}
        if maybe != best:
            raise codec.Unsupported("names")
        if f["sem"] == 2:
            return r"(?:[^\n]* \()?" + intv(x.v, x.size) + r"\)?"
        if best:
            return "(?:" + "|".join(esc(b) for b in sorted(best)) + ") " + esc("(") + intv(x.v, x.size) + esc(")")
        return intv(x.v, x.size)
    if isinstance(x, codec.Set):
        o = esc("0x%x" % x.v)
        by = {}
        for b in f["bits"]:
            if c.exists(b, False):
                by.setdefault(b["idx"], set()).add(("" if b["res"] else b["disp"] or b["name"]))
        for i in sorted(by):
            t = "(?:" + "|".join(esc("\n" + IND * (ind + 1) + n + " : " + ("true" if x.v >> i & 1 else "false")) for n in sorted(by[i]) if n) + ")"
            if by[i] == {""}:
                # reserved bits may have a name
                t = r"(?:\n *[^\n]* : (?:true|false))?"
            elif "" in by[i]:
                t = t + "?"
            o += t
        return o
    if isinstance(x, Num):
        return intv(x.v, x.size)
    if isinstance(x, Float):
        return flt(x)
    if isinstance(x, (Fields, Bitfield)):
        return "\n" + "".join(field(c, y, g, ind + 1) for y, g in zip(x.m, f["members"]))
    if isinstance(x, Variant):
        if x.i < 0:
            return esc("<none>")
        return esc("(%d)\n" % x.i) + field(c, x.x, x.ms[x.i], ind + 1)
    if x.raw:
        if f["kind"] == "string":
            return re.escape(x.v.decode("latin-1"))
        return esc("".join("%02x " % b for b in x.v))
    if not x.v:
        return ""
    return "\n" + "".join(field(c, y, f["element"], ind + 1) for y in x.v)


def message(c, m):
    i = m.f["id"]
    o = esc("\n" + name(m.f) + " (") + "(?:%s|0x0*%x)" % (esc(str(i)), i & ((1 << 64) - 1)) + esc("):\n")
    for x, g in zip(m.m, m.f["fields"]):
        o += field(c, x, g, 1)
    return o + "\n"
