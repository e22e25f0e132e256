"""Catalogue of single rule violations, applied to a schema made by gen.make(). Every rule yields
the offending elements, so that the reported location can be judged."""
from .xmlgen import El
from . import gen
from .gen import NODEPR, INF, ITLEN, is_big, is_unsigned, is_var, type_range

RULES = []      # (name, props, fn)


def rule(props):
    def d(fn):
        RULES.append((fn.__name__, props.split(), fn))
        return fn
    return d


class Node:
    def __init__(self, el, parents, owner, idx, path):
        self.el, self.parents, self.owner, self.idx, self.path = el, parents, owner, idx, path


class View:
    """All elements of a generated schema with their ancestors."""

    def __init__(self, s, r):
        self.s, self.r, self.c = s, r, s.c
        self.nodes = []
        for i, (path, sect, el) in enumerate(s.items):
            self.walk(el, (), ("item", i), path)

    def walk(self, el, parents, owner, path):
        self.nodes.append(Node(el, parents, owner, None, path))
        for b in el.body:
            self.walk(b, parents + (el,), ("body", el), path)
        for n, m in el.multi:
            self.walk(m, parents + (el,), ("multi", el), path)

    def pick(self, pred):
        c = []
        for n in self.nodes:
            try:
                if pred(n):
                    c.append(n)
            except (KeyError, AttributeError, TypeError, IndexError, ValueError):
                pass
        return self.r.choice(c) if c else None

    def mentioned(self):
        """All words that occur in property values other than names: possible references."""
        import re
        w = set()
        for n in self.nodes:
            for k, x in n.el.props.items():
                if k != "name":
                    w.update(re.findall(r"\w+", x))
        return w

    def field(self, *kinds, pred=None, place=None):
        return self.pick(lambda n: n.el.tag in (kinds or gen.KINDS) and n.el.E is not None and "kind" in n.el.E and n.el.place
                         and (place is None or n.el.place in place) and (pred is None or pred(n.el, n.el.E)))

    def msg(self, pred=None):
        return self.pick(lambda n: n.el.tag == "message" and (pred is None or pred(n.el, n.el.E)))

    def frame(self, pred=None):
        return self.pick(lambda n: n.el.tag == "frame" and (pred is None or pred(n.el, n.el.E)))

    def layer(self, kind, pred=None):
        return self.pick(lambda n: n.el.tag == kind and n.parents and n.parents[-1].tag == "frame" and (pred is None or pred(n.el, n.el.E)))


def setp(el, name, value):
    """Sets the property, whatever form it had."""
    el.multi = [(n, m) for n, m in el.multi if n != name]
    el.props[name] = str(value)


BADNAMES = ["1abc", "a b", "a-b", "a.b", "a$", "int x", "9"]
GARB_NUM = ["abc", "1.5", "12x", "0x", "0xzz", "1 2", "--5", "5-", "0x1g"]
GARB_BOOL = ["yes", "2", "tru", "truee", "-1", "on"]


# ---------------------------------------------------------------- names and generic properties
@rule("P02")
def name_missing(v):
    n = v.field(place=("ns", "bundle", "message", "interface", "bitfield", "variant"), pred=lambda e, E: e.tag != "ref" and "reuse" not in e.props and "name" in e.props)
    del n.el.props["name"]
    return [n.el]


@rule("P02")
def name_bad(v):
    n = v.pick(lambda n: (n.el.tag in gen.KINDS and n.el.place or n.el.tag in ("message", "interface", "frame")) and "name" in n.el.props)
    n.el.props["name"] = v.r.choice(BADNAMES)
    return [n.el]


@rule("P02")
def layer_name_bad(v):
    n = v.pick(lambda n: n.parents and n.parents[-1].tag == "frame" and n.el.tag != "replace")
    n.el.props["name"] = v.r.choice(BADNAMES)
    return [n.el]


@rule("P02 P11")
def layer_name_missing(v):
    n = v.pick(lambda n: n.parents and n.parents[-1].tag == "frame")
    del n.el.props["name"]
    return [n.el]


@rule("P02 P11")
def layer_name_dup(v):
    f = v.frame(lambda e, E: len(e.body) > 1)
    a, b = v.r.sample(f.el.body, 2)
    b.props["name"] = a.props["name"]
    return [a, b]


@rule("P02 P05 P11")
def member_name_dup(v):
    used = v.mentioned()
    n = v.pick(lambda n: n.el.E and n.el.tag in ("bundle", "message", "interface", "bitfield", "variant") and len([b for b in n.el.body if "name" in b.props and b.props["name"] not in used]) > 1)
    a, b = v.r.sample([b for b in n.el.body if "name" in b.props and b.props["name"] not in used], 2)
    b.props["name"] = a.props["name"]
    return [a, b]


@rule("P02 P11")
def ns_name_dup(v):
    by = {}
    used = v.mentioned()
    for n in v.nodes:
        if n.owner[0] == "item" and "name" in n.el.props and n.el.props["name"] not in used:
            k = "field" if n.el.tag in gen.KINDS else n.el.tag
            by.setdefault((n.path, k), []).append(n.el)
    c = [l for l in by.values() if len(l) > 1]
    a, b = v.r.sample(v.r.choice(c), 2)
    b.props["name"] = a.props["name"]
    return [a, b]


@rule("P02")
def prop_twice(v):
    """The same single-instance property as attribute and as child."""
    pr = ["name", "description", "displayName", "type", "id", "length", "defaultValue", "units", "sinceVersion", "scaling", "endian",
          "customizable", "sender", "order", "serOffset", "reuse"]
    n = v.pick(lambda n: n.el.E is not None and n.el.wrap is not None and any(p in n.el.props for p in pr)
               or (n.el.tag in ("int", "enum", "set", "float") and n.el.place and any(p in n.el.props for p in pr)))
    p = v.r.choice([p for p in pr if p in n.el.props])
    val = n.el.props[p]
    n.el.must_wrap = True
    n.el.multi.append((p, El(p, value=val)))
    return [n.el]


@rule("P02")
def bool_garbage(v):
    props = ["pseudo", "customizable", "failOnInvalid", "forceGen", "fixedValue", "removed"]
    n = v.field()
    p = v.r.choice([x for x in props if x not in ("fixedValue", "removed")])
    n.el.props[p] = v.r.choice(GARB_BOOL)
    return [n.el]


@rule("P02")
def override_garbage(v):
    n = v.field(pred=lambda e, E: not v.c.o["code"])
    n.el.props[v.r.choice(["readOverride", "writeOverride", "validOverride", "lengthOverride", "refreshOverride", "nameOverride", "valueOverride"])] = v.r.choice(["some", "replaceit", "all"])
    return [n.el]


@rule("P02 P06")
def reuse_dangling(v):
    n = v.field(pred=lambda e, E: "reuse" in e.props)
    n.el.props["reuse"] = v.r.choice(["no_such", n.el.props["reuse"] + "x", "ns9." + n.el.props["reuse"]])
    return [n.el]


@rule("P02 P06")
def reuse_other_kind(v):
    n = v.field(pred=lambda e, E: "reuse" in e.props)
    c = [ref for ref, E in v.c.glob.items() if E["kind"] != n.el.tag]
    # only those defined earlier are certain to be of interest
    n.el.props["reuse"] = v.r.choice(c)
    return [n.el]


@rule("P02 P06")
def reuse_later(v):
    """A field can only refer to one defined before it."""
    items = [(i, it[2]) for i, it in enumerate(v.s.items) if it[1] == "fields"]
    i, el = v.r.choice([x for x in items if "reuse" not in x[1].props])
    same = [e for j, e in items if j >= i and e.tag == el.tag]
    t = v.r.choice(same)
    el.props["reuse"] = t.E["_ref"]
    return [el]


@rule("P02 P06")
def ref_dangling(v):
    n = v.field("ref")
    n.el.props["field"] = v.r.choice(["no_such", n.el.props["field"] + "q", "@other." + n.el.props["field"].split(".")[-1]])
    return [n.el]


@rule("P02 P06")
def ref_missing(v):
    n = v.field("ref")
    del n.el.props["field"]
    return [n.el]


@rule("P02 P06")
def ref_bad_name(v):
    n = v.field("ref")
    n.el.props["field"] = v.r.choice(["a b", "x..y", "a-b"])
    return [n.el]


@rule("P02 P05")
def member_of_unsupported_kind(v):
    n = v.pick(lambda n: n.el.tag in ("bundle", "bitfield", "variant", "message") and n.el.body and n.el.E is not None and not n.el.wrap is None)
    x = El(v.r.choice(["message", "interface", "frame", "field", "uint8"]), name="odd1")
    if n.el.tag == "message":
        x = El(v.r.choice(["message", "frame", "uint8"]), name="odd1")
    n.el.must_wrap = True
    n.el.body.append(x)
    return [n.el]


# ---------------------------------------------------------------- int
@rule("P02 P03")
def int_type_missing(v):
    n = v.field("int", "float", "enum", pred=lambda e, E: "reuse" not in e.props and "type" in e.props)
    del n.el.props["type"]
    return [n.el]


@rule("P02 P03")
def int_type_unknown(v):
    n = v.field("int", "enum", pred=lambda e, E: "reuse" not in e.props)
    n.el.props["type"] = v.r.choice(["int9", "uint128", "integer", "float", "u8", "int"])
    return [n.el]


@rule("P02 P03")
def float_type_unknown(v):
    n = v.field("float", pred=lambda e, E: "reuse" not in e.props)
    n.el.props["type"] = v.r.choice(["int8", "real", "long double"])
    return [n.el]


@rule("P02 P03 P06")
def type_changed_on_reuse(v):
    n = v.field("int", "enum", pred=lambda e, E: "reuse" in e.props)
    n.el.props["type"] = v.r.choice([x for i, x in enumerate(gen.IT) if i != n.el.E["type"]])
    return [n.el]


@rule("P02 P03")
def int_length_bad(v):
    n = v.field("int", "enum", pred=lambda e, E: "reuse" not in e.props and e.place != "bitfield")
    t = n.el.E["type"]
    n.el.props["length"] = str(v.r.choice(["0", str(ITLEN[t] + v.r.randint(1, 3)), "300", "4294967297", "-1"] + GARB_NUM[:4]))
    return [n.el]


def _beyond(v, E):
    t = E["type"]
    a, b = type_range(t)
    c = [b + 1, b + v.r.randint(2, 1 << 40), 1 << 64, 1 << 70, a - 1]
    if a < 0:
        c += [a - v.r.randint(1, 1 << 30)]
    if E["kind"] == "int" and E["serOffset"]:
        c = [x for x in c if x > INF or x < -(1 << 63)]
    return str(v.r.choice(c))


@rule("P02 P03 P04")
def default_out_of_type(v):
    n = v.field("int", "enum", pred=lambda e, E: e.place != "bitfield")
    if "defaultValidValue" in n.el.props:
        setp(n.el, "defaultValidValue", _beyond(v, n.el.E))
    else:
        setp(n.el, "defaultValue", _beyond(v, n.el.E))
    return [n.el]


@rule("P02 P03")
def default_garbage(v):
    n = v.field("int", "enum", "float", pred=lambda e, E: "defaultValidValue" not in e.props)
    setp(n.el, "defaultValue", v.r.choice(GARB_NUM[:1] + GARB_NUM[2:] if n.el.tag == "float" else GARB_NUM))
    if n.el.props["defaultValue"] == "0x":
        n.el.props["defaultValue"] = "q"
    return [n.el]


@rule("P02 P03")
def special_out_of_type(v):
    n = v.pick(lambda n: n.el.tag == "special" and n.parents[-1].tag == "int")
    n.el.props["val"] = _beyond(v, n.parents[-1].E)
    return [n.el]


@rule("P02 P03 P04")
def special_no_val(v):
    n = v.pick(lambda n: n.el.tag == "special" or (n.el.tag == "validValue" and n.parents[-1].tag == "enum"))
    del n.el.props["val"]
    return [n.el]


@rule("P02 P03 P04")
def special_no_name(v):
    n = v.pick(lambda n: n.el.tag in ("special", "bit") or (n.el.tag == "validValue" and n.parents[-1].tag == "enum"))
    if v.r.random() < 0.5:
        del n.el.props["name"]
    else:
        n.el.props["name"] = v.r.choice(BADNAMES)
    return [n.el]


@rule("P02 P03 P04")
def special_val_garbage(v):
    n = v.pick(lambda n: n.el.tag == "special" or (n.el.tag == "validValue" and n.parents[-1].tag == "enum"))
    n.el.props["val"] = v.r.choice([x for x in GARB_NUM if x != "0x" and (n.parents[-1].tag != "float" or x not in ("1.5",))])
    return [n.el]


@rule("P02 P03 P04")
def special_name_dup(v):
    n = v.pick(lambda n: len([m for t, m in n.el.multi if t in ("special", "validValue", "bit") and "name" in m.props]) > 1)
    a, b = v.r.sample([m for t, m in n.el.multi if t in ("special", "validValue", "bit") and "name" in m.props], 2)
    b.props["name"] = a.props["name"]
    return [a, b]


@rule("P02 P03 P04")
def special_val_dup(v):
    def ok(n):
        if n.el.tag not in ("int", "enum", "float") or not n.el.place:
            return False
        E = n.el.E
        if E.get("nonUniq") or E.get("_nonuniq") or "nonUniqueAllowed" in n.el.props:
            return False
        return len([m for t, m in n.el.multi if "val" in m.props]) > 1
    n = v.pick(ok)
    a, b = v.r.sample([m for t, m in n.el.multi if "val" in m.props], 2)
    b.props["val"] = a.props["val"]
    return [a, b, n.el]


@rule("P02 P04")
def enum_val_dup_inherited(v):
    """The repeated value comes from the reused enum."""
    n = v.field("enum", pred=lambda e, E: "reuse" in e.props and not E["nonUniq"] and v.c.glob[e.props["reuse"]]["values"] and not v.c.glob[e.props["reuse"]]["nonUniq"])
    old = v.r.choice(v.c.glob[n.el.props["reuse"]]["values"])
    if is_big(n.el.E["type"]) and old["val"] < 0:
        return None
    m = El("validValue", name="Fresh_val")
    m.p("val", str(old["val"]))
    n.el.multi.append(("validValue", m))
    return [m, n.el]


@rule("P02 P04")
def enum_val_dup_hex(v):
    """The same value in different notation, in any order of declaration."""
    n = v.field("enum", pred=lambda e, E: "reuse" not in e.props and not E["nonUniq"] and len(E["values"]) > 0)
    ms = [m for t, m in n.el.multi if t == "validValue" and not m.props["val"].startswith("^")]
    old = v.r.choice(ms)
    E = n.el.E
    val = [x["val"] for x in E["values"] if x["name"] == old.props["name"]][0]
    if is_big(E["type"]):
        val &= INF
    m = El("validValue", name=v.r.choice(["AAA_first", "zzz_last", "Mid_one"]))
    m.p("val", str(val) if val < 0 or v.r.random() < 0.5 else "0x%x" % val)
    n.el.multi.insert(v.r.randint(0, len(n.el.multi)), ("validValue", m))
    return [m, old, n.el]


@rule("P02 P03")
def range_bad(v):
    n = v.pick(lambda n: n.el.tag == "validRange" and n.parents[-1].tag in ("int", "float"))
    n.el.props["value"] = v.r.choice(["[5", "5,10]", "[10, 5]", "[a, b]", "[1;2]", "(1,2)", "[1]", "", "[1,]", "[,2]", "7"])
    return [n.el]


@rule("P02 P03")
def scaling_bad(v):
    n = v.field("int")
    n.el.props["scaling"] = v.r.choice(["1/0", "0/1", "a/b", "1/", "/2", "1:2", "x"])
    return [n.el]


@rule("P02 P03")
def units_bad(v):
    n = v.field("int", "float")
    n.el.props["units"] = v.r.choice(["parsecs", "mm/", "xyz"])
    return [n.el]


@rule("P02 P03 P04")
def endian_bad(v):
    n = v.field("int", "enum", "set", "float", "bitfield")
    n.el.props["endian"] = v.r.choice(["middle", "le", "0"])
    return [n.el]


@rule("P02 P03")
def seroffset_bad(v):
    n = v.field("int", pred=lambda e, E: "reuse" not in e.props)
    n.el.props["serOffset"] = v.r.choice(["x", "1.5", "10 0"])
    return [n.el]


@rule("P02 P03")
def display_bad(v):
    n = v.field("int", "float")
    n.el.props["displayDecimals"] = v.r.choice(["x", "-1", "1.5"])
    return [n.el]


@rule("P02 P03")
def display_offset_bad(v):
    n = v.field("int")
    n.el.props["displayOffset"] = v.r.choice(["x", "1.5"])
    return [n.el]


@rule("P02 P03")
def int_bool_bad(v):
    n = v.field("int")
    n.el.props[v.r.choice(["signExt", "validCheckVersion", "nonUniqueSpecialsAllowed"])] = v.r.choice(GARB_BOOL)
    return [n.el]


@rule("P02 P03")
def float_out_of_type(v):
    n = v.field("float", pred=lambda e, E: E["type"] == 0)
    x = v.r.choice(["1e39", "-3.5e38", "1e300"])
    w = v.r.choice(["defaultValue", "validValue", "special"])
    if w == "special":
        m = El("special", name="Sp_x1")
        m.p("val", x)
        n.el.multi.append(("special", m))
        return [m, n.el]
    if w == "validValue":
        m = El("validValue", value=x)
        n.el.multi.append(("validValue", m))
        return [m, n.el]
    setp(n.el, "defaultValue", x)
    return [n.el]


# ---------------------------------------------------------------- enum, set
@rule("P02 P04")
def enum_val_out_of_type(v):
    n = v.pick(lambda n: n.el.tag == "validValue" and n.parents[-1].tag == "enum" and n.parents[-1].place != "bitfield")
    n.el.props["val"] = _beyond(v, n.parents[-1].E)
    return [n.el]


@rule("P02 P04")
def enum_empty(v):
    n = v.field("enum", pred=lambda e, E: "reuse" not in e.props)
    n.el.multi = [(t, m) for t, m in n.el.multi if t != "validValue"]
    n.el.props.pop("defaultValue", None)
    return [n.el]


@rule("P02 P04")
def enum_default_unknown(v):
    n = v.field("enum")
    setp(n.el, "defaultValue", v.r.choice(["NoSuchName", "no_such.value"]))
    return [n.el]


@rule("P02 P04")
def bit_out_of_range(v):
    n = v.pick(lambda n: n.el.tag == "bit" and n.parents[-1].E is not None)
    nb = n.parents[-1].E["_nbits"]
    n.el.props["idx"] = str(v.r.choice([nb, nb + v.r.randint(1, 100), 64, 1 << 33] + (["0x1%08x" % int(n.el.props["idx"], 0)] if True else [])))
    return [n.el]


@rule("P02 P04")
def bit_idx_bad(v):
    n = v.pick(lambda n: n.el.tag == "bit")
    if v.r.random() < 0.3:
        del n.el.props["idx"]
    else:
        n.el.props["idx"] = v.r.choice(["x", "-1", "1.5", "2 3"])
    return [n.el]


@rule("P02 P04")
def bit_dup(v):
    n = v.pick(lambda n: n.el.tag == "set" and n.el.place and not n.el.E["nonUniq"] and len([m for t, m in n.el.multi if t == "bit"]) > 1)
    a, b = v.r.sample([m for t, m in n.el.multi if t == "bit"], 2)
    b.props["idx"] = a.props["idx"]
    return [a, b]


@rule("P02 P04")
def bit_dup_inherited(v):
    n = v.field("set", pred=lambda e, E: "reuse" in e.props and not E["nonUniq"] and v.c.glob[e.props["reuse"]]["bits"])
    old = v.r.choice(v.c.glob[n.el.props["reuse"]]["bits"])
    m = El("bit")
    m.p("name", "Fresh_bit").p("idx", str(old["idx"]))
    n.el.multi.append(("bit", m))
    return [m, n.el]


@rule("P02 P04")
def set_bool_bad(v):
    n = v.pick(lambda n: n.el.tag in ("set", "bit"))
    n.el.props[v.r.choice(["defaultValue", "reservedValue"])] = v.r.choice(GARB_BOOL)
    return [n.el]


@rule("P02 P04")
def set_type_bad(v):
    n = v.field("set", pred=lambda e, E: "reuse" not in e.props)
    n.el.props["type"] = v.r.choice(["uint128", "float", "set"])
    return [n.el]


@rule("P02 P04")
def set_length_bad(v):
    n = v.field("set", pred=lambda e, E: "reuse" not in e.props and e.place != "bitfield")
    n.el.props["length"] = v.r.choice(["9", "x", "100", "-1"])
    return [n.el]


# ---------------------------------------------------------------- strings, data, lists
@rule("P02 P05")
def str_len_conflict(v):
    n = v.field("string", "data", pred=lambda e, E: E["fixedLen"] and "reuse" not in e.props)
    if n.el.tag == "string" and v.r.random() < 0.4:
        n.el.props["zeroTermSuffix"] = "true"
    else:
        w = El("lengthPrefix")
        w.body = [El("int", name="pfx", type="uint8")]
        n.el.multi.append(("lengthPrefix", w))
    return [n.el]


@rule("P02 P05")
def str_prefix_zero_conflict(v):
    n = v.field("string", pred=lambda e, E: E.get("lenPrefix") and "reuse" not in e.props)
    n.el.props["zeroTermSuffix"] = "true"
    return [n.el]


@rule("P02 P05")
def prefix_dangling(v):
    n = v.field("string", "data", "list", pred=lambda e, E: any(isinstance(e.props.get(p), str) for p in ("lengthPrefix", "countPrefix")))
    p = [p for p in ("lengthPrefix", "countPrefix") if p in n.el.props][0]
    n.el.props[p] = ("$" if n.el.props[p][0] == "$" else "") + v.r.choice(["no_such", "noSuch1"])
    return [n.el]


@rule("P02 P05")
def prefix_wrong_kind(v):
    n = v.field("string", "data", "list", pred=lambda e, E: any(p in e.props and "$" not in e.props[p] for p in ("lengthPrefix", "countPrefix")))
    p = [p for p in ("lengthPrefix", "countPrefix") if p in n.el.props][0]
    idx = next(i for i, it in enumerate(v.s.items) if it[2] is n.el or any(it[2] is q for q in n.parents))
    c = [e.E["_ref"] for _, s, e in v.s.items[:idx] if s == "fields" and e.tag in ("enum", "set", "float", "string", "data", "list", "bitfield")]
    n.el.props[p] = v.r.choice(c)
    return [n.el]


@rule("P02 P05")
def prefix_two_fields(v):
    n = v.pick(lambda n: n.el.tag in ("lengthPrefix", "countPrefix", "elemLengthPrefix", "termSuffix") and len(n.el.body) == 1)
    n.el.body.append(El("int", name="second1", type="uint8"))
    return [n.el] + [n.parents[-1]]


@rule("P02 P05")
def prefix_empty(v):
    n = v.pick(lambda n: n.el.tag in ("lengthPrefix", "countPrefix", "elemLengthPrefix", "termSuffix") and len(n.el.body) == 1)
    n.el.body = []
    return [n.el] + [n.parents[-1]]


@rule("P02 P05")
def prefix_bad_field(v):
    n = v.pick(lambda n: n.el.tag in ("lengthPrefix", "countPrefix") and len(n.el.body) == 1)
    n.el.body = [v.r.choice([El("string", name="p1", length="2"), El("float", name="p1", type="float")])]
    return [n.el] + [n.parents[-1]]


@rule("P02 P05")
def data_hex_bad(v):
    n = v.field("data", pred=lambda e, E: "defaultValidValue" not in e.props)
    setp(n.el, "defaultValue", v.r.choice(["abc", "zz", "0", "12 3", "0x12g4", "qq"]))
    return [n.el]


@rule("P02 P05")
def default_ref_dangling(v):
    n = v.field("string", "data", pred=lambda e, E: "defaultValidValue" not in e.props)
    setp(n.el, "defaultValue", v.r.choice(["^no_such", "^no.such.thing"]))
    return [n.el]


@rule("P02 P05")
def list_conflict(v):
    n = v.field("list", pred=lambda e, E: (E["count"] or E.get("countPrefix") or E.get("lenPrefix")) and "reuse" not in e.props)
    E = n.el.E
    opts = []
    if not E["count"]:
        opts.append("count")
    if not E.get("countPrefix"):
        opts.append("countPrefix")
    if not E.get("lenPrefix"):
        opts.append("lengthPrefix")
    o = v.r.choice(opts)
    n.el.must_wrap = True
    if o == "count":
        n.el.props["count"] = "3"
    else:
        w = El(o)
        w.body = [El("int", name="pfx", type="uint8")]
        n.el.multi.append((o, w))
    return [n.el]


@rule("P02 P05")
def list_element_missing(v):
    n = v.field("list", pred=lambda e, E: "reuse" not in e.props)
    n.el.props.pop("element", None)
    n.el.body = []
    n.el.wrap = None
    return [n.el]


@rule("P02 P05")
def list_element_dangling(v):
    n = v.field("list", pred=lambda e, E: "element" in e.props)
    n.el.props["element"] = "no_such"
    return [n.el]


@rule("P02 P05")
def list_element_twice(v):
    n = v.field("list", pred=lambda e, E: e.body)
    n.el.body.append(El("int", name="second1", type="uint8"))
    n.el.must_wrap = True
    return [n.el]


@rule("P02 P05")
def list_elem_fixed_varlen(v):
    n = v.field("list", pred=lambda e, E: E.get("elemLenPrefix") and not E["elemFixed"] and "reuse" not in e.props and not gen.fixed_len(E["element"]) and not gen.loose(E["element"]["maxLen"]))
    n.el.props["elemFixedLength"] = "true"
    return [n.el]


@rule("P02 P05")
def list_count_bad(v):
    n = v.field("list", pred=lambda e, E: E["count"] and "reuse" not in e.props)
    n.el.props["count"] = v.r.choice(["x", "-3", "1.5"])
    return [n.el]


# ---------------------------------------------------------------- composites
@rule("P02 P05")
def composite_empty(v):
    n = v.field("bundle", "bitfield", "variant", pred=lambda e, E: "reuse" not in e.props)
    n.el.body = []
    n.el.must_wrap = v.r.random() < 0.5
    if not n.el.must_wrap:
        n.el.wrap = None
    n.el.multi = []
    n.el.props = {k: x for k, x in n.el.props.items() if k in ("name",)}
    return [n.el]


@rule("P02 P05")
def bitfield_sum(v):
    n = v.pick(lambda n: n.el.place == "bitfield" and "bitLength" in n.el.props and n.el.E["bitLen"] > 1)
    E = n.el.E
    n.el.props["bitLength"] = str(E["bitLen"] - 1)
    n.el.multi = []
    for p in ("defaultValue", "defaultValidValue", "serOffset"):
        n.el.props.pop(p, None)
    if n.el.tag == "enum":
        m = El("validValue", name="V0")
        m.p("val", "0")
        n.el.multi.append(("validValue", m))
    return [n.el, n.parents[-1]]


@rule("P02 P05")
def bitlength_exceeds_type(v):
    n = v.pick(lambda n: n.el.place == "bitfield" and n.el.tag in ("int", "enum"))
    n.el.props["bitLength"] = str(ITLEN[n.el.E["type"]] * 8 + v.r.randint(1, 9))
    return [n.el]


@rule("P02 P05")
def bitlength_bad(v):
    n = v.pick(lambda n: n.el.place == "bitfield")
    n.el.props["bitLength"] = v.r.choice(["x", "-1", "0"])
    return [n.el]


@rule("P02 P05")
def bitfield_bad_member(v):
    n = v.field("bitfield", pred=lambda e, E: "reuse" not in e.props)
    n.el.body[v.r.randrange(len(n.el.body))] = v.r.choice([El("float", name="m1", type="float"), El("string", name="m1", length="1"), El("int", name="m1", type="uintvar")])
    return [n.el]


@rule("P02 P05")
def optional_field_missing(v):
    n = v.field("optional", pred=lambda e, E: "reuse" not in e.props)
    n.el.props.pop("field", None)
    n.el.body = []
    n.el.wrap = None
    return [n.el]


@rule("P02 P05")
def optional_mode_bad(v):
    n = v.field("optional")
    n.el.props["defaultMode"] = v.r.choice(["maybe", "yes", "exis"])
    return [n.el]


@rule("P02 P05")
def variant_default_bad(v):
    n = v.field("variant")
    n.el.props["defaultMember"] = v.r.choice(["no_such", str(len(n.el.E["members"]) + v.r.randint(0, 3))])
    return [n.el]


@rule("P02 P05 P11")
def alias_bad(v):
    n = v.pick(lambda n: n.el.tag == "alias")
    k = v.r.randrange(5)
    if k == 0:
        n.el.props["field"] = "$no_such"
    elif k == 1:
        n.el.props["field"] = n.el.props["field"][1:]
    elif k == 2:
        n.el.props["name"] = v.r.choice(BADNAMES)
    elif k == 3:
        del n.el.props["field"]
    else:
        sib = (n.parents[-1].E.get("members") or n.parents[-1].E.get("fields"))
        n.el.props["name"] = v.r.choice(sib)["name"]
    return [n.el]


@rule("P02 P05 P11")
def alias_dup(v):
    n = v.pick(lambda n: n.el.tag == "alias")
    p = n.parents[-1]
    d = n.el.copy()
    p.multi.append(("alias", d))
    return [n.el, d, p]


@rule("P02 P06")
def replace_unknown(v):
    n = v.pick(lambda n: n.el.tag == "replace" and n.el.body and n.parents)
    n.el.body[0].props["name"] = "noSuchMember1"
    return [n.el, n.el.body[0], n.parents[-1]]


# ---------------------------------------------------------------- versions
def _versioned(v, pred=None):
    def ok(n):
        if not v.c.o["versions"]:
            return False
        if n.el.tag == "message":
            return pred is None or pred(n.el, n.el.E)
        return n.el.place in ("bundle", "message") and n.el.E and (pred is None or pred(n.el, n.el.E))
    return v.pick(ok)


@rule("P02 P07")
def since_beyond_schema(v):
    n = _versioned(v, lambda e, E: E["depr"] == NODEPR)
    n.el.props["sinceVersion"] = str(v.c.version + v.r.choice([1, 2, 100]))
    return [n.el]


@rule("P02 P07")
def since_before_parent(v):
    n = v.pick(lambda n: n.el.place in ("bundle", "message") and n.parents and n.parents[-1].E and n.parents[-1].E["since"] and n.parents[-1].E["since"] > 0)
    n.el.props["sinceVersion"] = str(n.parents[-1].E["since"] - 1)
    return [n.el]


@rule("P02 P07")
def depr_not_after_since(v):
    n = _versioned(v, lambda e, E: E["since"] and E["since"] > 0 and "sinceVersion" in e.props)
    n.el.props["deprecated"] = str(v.r.choice([n.el.E["since"], n.el.E["since"] - 1]))
    return [n.el]


@rule("P02 P07")
def depr_beyond_schema(v):
    n = _versioned(v)
    n.el.props["deprecated"] = str(v.c.version + v.r.choice([1, 7]))
    return [n.el]


@rule("P02 P07")
def depr_zero(v):
    n = _versioned(v, lambda e, E: "sinceVersion" not in e.props)
    n.el.props["deprecated"] = "0"
    return [n.el]


@rule("P02 P07")
def depr_after_parent(v):
    n = v.pick(lambda n: n.el.place in ("bundle", "message") and n.parents and n.parents[-1].E and n.parents[-1].E["depr"] < v.c.version)
    n.el.props["deprecated"] = str(n.parents[-1].E["depr"] + 1)
    return [n.el]


@rule("P02 P07")
def since_at_parent_depr(v):
    n = v.pick(lambda n: n.el.place in ("bundle", "message") and n.parents and n.parents[-1].E and n.parents[-1].E["depr"] <= v.c.version)
    n.el.props["sinceVersion"] = str(n.parents[-1].E["depr"])
    n.el.props.pop("deprecated", None)
    return [n.el]


@rule("P02 P07")
def version_garbage(v):
    n = _versioned(v)
    n.el.props[v.r.choice(["sinceVersion", "deprecated"])] = v.r.choice(["x", "-1", "1.5", "4294967297"])
    return [n.el]


def _vitem(v, pred=None):
    return v.pick(lambda n: n.el.tag in ("special", "validValue", "bit", "validRange", "validMin", "validMax") and n.parents[-1].E is not None and (pred is None or pred(n)))


@rule("P02 P07")
def item_since_beyond(v):
    n = _vitem(v)
    n.el.props.pop("reserved", None)
    n.el.props["sinceVersion"] = str(v.c.version + v.r.choice([1, 3]))
    n.el.props.pop("deprecated", None)
    return [n.el]


@rule("P02 P07")
def item_since_before_parent(v):
    n = _vitem(v, lambda n: n.parents[-1].E["since"] > 0)
    n.el.props.pop("reserved", None)
    n.el.props["sinceVersion"] = str(n.parents[-1].E["since"] - 1)
    return [n.el]


@rule("P02 P07")
def item_depr_bad(v):
    n = _vitem(v)
    n.el.props.pop("reserved", None)
    E = n.parents[-1].E
    since = int(n.el.props.get("sinceVersion", str(E["since"])), 0)
    n.el.props["deprecated"] = str(v.r.choice([v.c.version + 1, since]))
    return [n.el]


# ---------------------------------------------------------------- lengths
@rule("P02 P08")
def min_length_wrong(v):
    n = v.pick(lambda n: n.el.E is not None and (n.el.tag == "message" and (n.el.body or "copyFieldsFrom" not in n.el.props) and "reuse" not in n.el.props and "copyFieldsFrom" not in n.el.props or n.el.tag in gen.KINDS and n.el.place and n.el.place != "bitfield")
               and isinstance(n.el.E.get("minLen"), int) and not n.el.E.get("_minLenUnk"))
    m = n.el.E["minLen"]
    n.el.props["validateMinLength"] = str(v.r.choice([m + 1, m + 1] + ([m - 1, 0] if m else []) + [m + 100]))
    return [n.el]


@rule("P02 P08")
def min_length_garbage(v):
    n = v.field(place=("ns", "bundle", "message"))
    n.el.props["validateMinLength"] = v.r.choice(["x", "-1", "1.5"])
    return [n.el]


# ---------------------------------------------------------------- conditions
def _condsite(v, *keys):
    """An attribute or a leaf holding an expression."""
    c = []
    for n in v.nodes:
        for k in keys:
            if k in n.el.props and n.el.E is not None:
                c.append((n.el, k, [n.el]))
        if n.el.tag in keys and "value" in n.el.props and n.parents and n.parents[-1].tag in ("and", "or"):
            c.append((n.el, "value", [n.el] + [p for p in n.parents]))
    return v.r.choice(c)


@rule("P02 P09")
def cond_dangling(v):
    el, k, off = _condsite(v, "cond", "validCond", "construct", "readCond")
    x = el.props[k]
    i = max(x.find("$"), x.find("%"))
    j = i + 1
    while j < len(x) and x[j] in "#?":
        j += 1
    el.props[k] = x[:j] + "noSuch_" + x[j:]
    return off


@rule("P02 P09")
def cond_syntax(v):
    el, k, off = _condsite(v, "cond", "validCond", "construct", "readCond")
    el.props[k] = v.r.choice(["abc", "= 5", "5 = 5", "$", "%", "$a..b = 1", "!", "$# = 2", "!= 3", "foo = $bar"])
    return off


@rule("P02 P09")
def cond_unknown_value(v):
    c = []
    for n in v.nodes:
        for k in ("cond", "validCond", "readCond", "construct"):
            if n.el.E is not None and k in n.el.props and "=" in n.el.props[k]:
                c.append((n.el, k, [n.el]))
        if n.el.tag in ("cond", "validCond", "readCond", "construct") and "=" in n.el.props.get("value", "") and n.parents and n.parents[-1].tag in ("and", "or"):
            c.append((n.el, "value", [n.el] + list(n.parents)))
    el, k, off = v.r.choice(c)
    x = el.props[k]
    el.props[k] = x[:x.index("=") + 1] + " " + v.r.choice(["NoSuchValue", "no_such.Value", "12abc"])
    return off


@rule("P02 P09")
def cond_single_and(v):
    n = v.pick(lambda n: n.el.tag in ("and", "or") and len(n.el.body) >= 2)
    n.el.body = n.el.body[:1]
    return [n.el] + list(n.parents)


@rule("P02 P09")
def cond_two_roots(v):
    n = v.pick(lambda n: n.el.tag == "optional" and n.el.place and any(t in ("and", "or") for t, _ in n.el.multi))
    t, m = [x for x in n.el.multi if x[0] in ("and", "or")][0]
    n.el.multi.append((t, m.copy()))
    return [n.el]


@rule("P02 P09")
def cond_unknown_element(v):
    n = v.pick(lambda n: n.el.tag in ("and", "or"))
    n.el.body.append(El(v.r.choice(["not", "xor", "foo"]), value="$x = 1"))
    return [n.el] + list(n.parents)


@rule("P02 P09")
def cond_later_sibling(v):
    """A condition can only look at fields that come before it."""
    def ok(n):
        p = n.parents[-1]
        i = p.body.index(n.el)
        return n.el.tag == "optional" and p.tag in ("bundle", "message") and "reuse" not in n.el.props and any(b.tag == "int" and "name" in b.props for b in p.body[i + 1:])
    n = v.pick(ok)
    p = n.parents[-1]
    i = p.body.index(n.el)
    b = v.r.choice([b for b in p.body[i + 1:] if b.tag == "int" and "name" in b.props])
    n.el.multi = [(t, m) for t, m in n.el.multi if t not in ("and", "or", "cond")]
    n.el.props["cond"] = "$%s = %d" % (b.props["name"], b.E["_lo"])
    return [n.el]


@rule("P02 P09")
def cond_out_of_range(v):
    """Comparing with a value the field can never have."""
    def ok(n):
        p = n.parents[-1]
        i = p.body.index(n.el)
        return n.el.tag == "optional" and p.tag in ("bundle", "message") and "reuse" not in n.el.props and any(b.tag == "int" and "name" in b.props and b.E["type"] == 1 and not b.E["sem"] for b in p.body[:i])
    n = v.pick(ok)
    p = n.parents[-1]
    i = p.body.index(n.el)
    b = v.r.choice([b for b in p.body[:i] if b.tag == "int" and "name" in b.props and b.E["type"] == 1 and not b.E["sem"]])
    n.el.multi = [(t, m) for t, m in n.el.multi if t not in ("and", "or", "cond")]
    n.el.props["cond"] = "$%s = %s" % (b.props["name"], v.r.choice(["NoSuchSpec", "12abc", "$%s.x" % b.props["name"]]))
    return [n.el]


@rule("P02 P09")
def cond_wrong_kind(v):
    """Comparing a string/data/list sibling itself with a number, a set with a number."""
    def ok(n):
        p = n.parents[-1]
        i = p.body.index(n.el)
        return n.el.tag == "optional" and p.tag in ("bundle", "message") and "reuse" not in n.el.props and any(b.tag in ("string", "data", "list", "bundle", "bitfield", "variant") and "name" in b.props for b in p.body[:i])
    n = v.pick(ok)
    p = n.parents[-1]
    i = p.body.index(n.el)
    b = v.r.choice([b for b in p.body[:i] if b.tag in ("string", "data", "list", "bundle", "bitfield", "variant") and "name" in b.props])
    n.el.multi = [(t, m) for t, m in n.el.multi if t not in ("and", "or", "cond")]
    n.el.props["cond"] = v.r.choice(["$%s > 5" if b.tag in ("list", "bundle", "variant", "data") else "$%s.zz = 5", "!$%s"]) % b.props["name"]
    return [n.el]


@rule("P02 P09")
def cond_iface_in_field(v):
    """Interface fields are out of reach for the validity of a field."""
    n = v.field("bundle", "bitfield", pred=lambda e, E: "validCond" in e.props)
    i = v.r.choice(list(v.c.ifaces.values()))
    n.el.props["validCond"] = "%" + i["fields"][0]["name"] + " = 1"
    return [n.el]


@rule("P02 P09")
def construct_not_eq(v):
    n = v.msg(lambda e, E: "=" in e.props.get("construct", ""))
    n.el.props["construct"] = n.el.props["construct"].replace("=", v.r.choice(["!=", "<", ">="]))
    return [n.el]


# ---------------------------------------------------------------- messages, interfaces, frames
@rule("P02 P11")
def msg_no_id(v):
    n = v.msg(lambda e, E: "reuse" not in e.props)
    del n.el.props["id"]
    return [n.el]


@rule("P02 P11")
def msg_no_name(v):
    n = v.pick(lambda n: n.el.tag in ("message", "interface", "frame") and "reuse" not in n.el.props)
    del n.el.props["name"]
    return [n.el]


@rule("P02 P11")
def msg_id_bad(v):
    n = v.msg()
    n.el.props["id"] = v.r.choice(["abc", "no_such.Value", "1.5", "12x", "0x", "18446744073709551616"])
    return [n.el]


@rule("P02 P11")
def msg_id_dup(v):
    if v.s.model["nonUniqMsgId"]:
        return None
    by = {}
    for it in v.s.items:
        if it[1] == "messages":
            by.setdefault(it[0][:1], []).append(it[2])     # uniqueness is per top level namespace
    a, b = v.r.sample(v.r.choice([m for m in by.values() if len(m) > 1]), 2)
    b.props["id"] = str(a.E["id"]) if v.r.random() < 0.5 else "0x%x" % a.E["id"]
    return [a, b]


@rule("P02 P11")
def msg_id_order_dup(v):
    if not v.s.model["nonUniqMsgId"]:
        return None
    by = {}
    for it in v.s.items:
        if it[1] == "messages":
            by.setdefault(it[0][:1], []).append(it[2])     # uniqueness is per top level namespace
    a, b = v.r.sample(v.r.choice([m for m in by.values() if len(m) > 1]), 2)
    b.props["id"] = str(a.E["id"])
    b.props["order"] = str(a.E["order"])      # the one inherited by reuse is overridden
    return [a, b]


@rule("P02 P11")
def msg_sender_bad(v):
    n = v.msg()
    n.el.props["sender"] = v.r.choice(["none", "peer", "clients"])
    return [n.el]


@rule("P02 P11")
def msg_platform_bad(v):
    n = v.msg(lambda e, E: "reuse" not in e.props)
    n.el.props["platforms"] = v.r.choice(["+NoSuch", "-NoSuch", "NoSuch", "+"])
    return [n.el]


@rule("P02 P11")
def msg_order_bad(v):
    n = v.msg()
    n.el.props["order"] = v.r.choice(["x", "-1", "1.5"])
    return [n.el]


@rule("P02 P06")
def msg_copy_dangling(v):
    n = v.msg()
    if "reuse" in n.el.props:
        n.el.props["reuse"] = "NoSuchMsg"
    else:
        n.el.props["copyFieldsFrom"] = v.r.choice(["NoSuchMsg", "no.such.Msg"])
    return [n.el]


@rule("P02 P06 P09")
def msg_copy_cond_dangling(v):
    n = v.msg(lambda e, E: v.c.dsl in (0, 7, 8) and not E.get("readCond") and not E.get("validCond") and not E.get("construct"))
    n.el.props[v.r.choice(["copyReadCondFrom", "copyConstructFrom", "copyValidCondFrom"])] = "NoSuchMsg"
    return [n.el]


@rule("P02 P11")
def frame_no_payload(v):
    f = v.frame()
    f.el.body = [b for b in f.el.body if b.tag != "payload"]
    return [f.el]


@rule("P02 P11")
def frame_layer_twice(v):
    f = v.frame(lambda e, E: any(b.tag in ("id", "size", "payload") for b in e.body))
    b = v.r.choice([b for b in f.el.body if b.tag in ("id", "size", "payload")])
    d = b.copy()
    d.E = b.E
    d.props["name"] = "secondOne"
    f.el.body.insert(f.el.body.index(b) + 1, d)
    return [b, d]


@rule("P02 P11")
def frame_empty(v):
    f = v.frame()
    f.el.body = []
    f.el.must_wrap = True
    f.el.multi = []
    return [f.el]


@rule("P02 P11")
def frame_layer_unknown(v):
    f = v.frame()
    x = El("foo", name="xx")
    f.el.body.insert(0, x)
    f.el.must_wrap = True
    return [x, f.el]


@rule("P02 P11")
def layer_field_missing(v):
    n = v.pick(lambda n: n.parents and n.parents[-1].tag == "frame" and n.el.tag != "payload")
    n.el.body = []
    n.el.wrap = None
    n.el.props.pop("field", None)
    return [n.el]


@rule("P02 P11")
def payload_with_field(v):
    n = v.layer("payload")
    n.el.wrap = "field"
    n.el.body = [El("int", name="pf1", type="uint8")]
    return [n.el]


@rule("P02 P11")
def layer_field_dangling(v):
    n = v.pick(lambda n: n.parents and n.parents[-1].tag == "frame" and "field" in n.el.props)
    n.el.props["field"] = "no.such"
    return [n.el]


@rule("P02 P11")
def checksum_alg_bad(v):
    n = v.layer("checksum")
    n.el.props["alg"] = v.r.choice(["md5", "crc-8"])
    return [n.el]


@rule("P02 P11")
def checksum_no_alg(v):
    n = v.layer("checksum")
    del n.el.props["alg"]
    return [n.el]


@rule("P02 P11")
def checksum_no_range(v):
    n = v.layer("checksum")
    n.el.props.pop("from", None)
    n.el.props.pop("until", None)
    return [n.el]


@rule("P02 P11")
def checksum_range_unknown(v):
    n = v.layer("checksum")
    k = "from" if "from" in n.el.props else "until"
    n.el.props[k] = "noSuchLayer"
    return [n.el]


@rule("P02 P11")
def checksum_range_order(v):
    n = v.layer("checksum", lambda e, E: "from" in e.props)
    f = n.parents[-1]
    i = f.body.index(n.el)
    n.el.props["from"] = n.el.props["name"] if i + 1 == len(f.body) or v.r.random() < 0.5 else f.body[i + 1].props["name"]
    return [n.el]


@rule("P02 P11")
def value_layer_bad(v):
    n = v.layer("value")
    if v.r.random() < 0.5:
        n.el.props["interfaces"] = "NoSuchIface"
    else:
        n.el.props["interfaceFieldName"] = "noSuchField"
    return [n.el]


@rule("P02 P11")
def two_sync(v):
    """Mutually exclusive / conditional sync properties."""
    n = v.layer("sync", lambda e, E: v.c.dsl in (0, 8) and not E.get("after"))
    if v.r.random() < 0.5:
        n.el.props["from"] = n.el.props["name"]
    else:
        n.el.props["escField"] = "no.such"
    return [n.el]


# ---------------------------------------------------------------- schema
@rule("P02 P11")
def schema_prop_bad(v):
    k, x = v.r.choice([("name", "1bad"), ("version", "x"), ("version", "-1"), ("endian", "middle"), ("id", "x"), ("id", "1.5"),
                       ("dslVersion", "x"), ("nonUniqueMsgIdAllowed", "maybe"), ("version", "1.5"), ("dslVersion", "-1")])
    v.s.root.props[k] = x
    return ["schema"]


@rule("P02 P11")
def schema_no_name(v):
    del v.s.root.props["name"]
    return ["schema"]


@rule("P02 P11")
def schema_unknown_element(v):
    x = El(v.r.choice(["foo", "int8", "layer"]), name="xx")
    v.s.items.insert(v.r.randrange(len(v.s.items)), ((), None, x))
    v.s.items = [it if it[1] else (it[0], "frames", it[2]) for it in v.s.items]
    return [x]


# ---------------------------------------------------------------- merely questionable: a warning is enough
WARN = {"schema_unknown_element", "unknown_property", "unknown_child", "range_out_of_type", "default_not_serialisable"}


@rule("P02 P11")
def unknown_property(v):
    n = v.pick(lambda n: n.el.tag in gen.KINDS and n.el.place or n.el.tag in ("message", "interface", "frame"))
    n.el.props[v.r.choice(["fooBar", "nam", "Length", "defaultvalue", "zzz"])] = "1"
    n.el.must_wrap = True
    return [n.el]


@rule("P02 P11")
def unknown_child(v):
    n = v.pick(lambda n: (n.el.tag in ("int", "enum", "set", "float") and n.el.place) or n.el.tag in ("interface",))
    n.el.multi.append(("fooBar", El("fooBar", value="1")))
    n.el.must_wrap = True
    return [n.el]


@rule("P02 P03")
def range_out_of_type(v):
    n = v.pick(lambda n: n.el.tag in ("validValue", "validMin", "validMax") and n.parents[-1].tag == "int")
    n.el.props["value"] = _beyond(v, n.parents[-1].E)
    return [n.el]


@rule("P02 P03 P04")
def default_not_serialisable(v):
    used = v.mentioned()
    n = v.field("int", "enum", pred=lambda e, E: e.props.get("name") not in used and (E["_lo"], E["_hi"]) != type_range(E["type"]) and "defaultValidValue" not in e.props and not (E["kind"] == "int" and E["serOffset"]))
    E = n.el.E
    a, b = type_range(E["type"])
    c = ([E["_hi"] + 1, b] if E["_hi"] < b else []) + ([E["_lo"] - 1, a] if E["_lo"] > a else [])
    setp(n.el, "defaultValue", v.r.choice(c))
    return [n.el]


def apply(s, r, props=None, name=None):
    """Applies one random applicable rule; returns (rule name, props, offenders, ancestors) or None."""
    v = View(s, r)
    cand = [x for x in RULES if (props is None or any(p in x[1] for p in props)) and (name is None or x[0] == name)]
    r.shuffle(cand)
    for nm, pr, fn in cand:
        try:
            off = fn(v)
        except (KeyError, IndexError, AttributeError, ValueError, TypeError):
            off = None
        if off:
            anc = []
            for n in v.nodes:
                if any(n.el is o for o in off if o != "schema"):
                    anc += list(n.parents)
            return nm, pr, off, anc
        # a rule that did not apply has not changed anything
    return None


@rule("P02 P04")
def set_bit_conflict(v):
    """Bits of one index whose versions overlap contradict each other; definitions of other versions surround them."""
    r = v.r
    n = v.field("set", pred=lambda e, E: E["_nbits"] > len({b["idx"] for b in E["bits"]}) and min(E["depr"], v.c.version) - E["since"] >= 3)
    el, E = n.el, n.el.E
    idx = r.choice([i for i in range(E["_nbits"]) if i not in {b["idx"] for b in E["bits"]}])
    hi = min(E["depr"], v.c.version)
    a = r.randint(E["since"] + 1, hi - 1)
    b = r.randint(a, hi - 1)
    el.props["nonUniqueAllowed"] = "true"
    d = r.random() < 0.5
    m1 = El("bit", name="FreshA").p("idx", str(idx)).p("deprecated", str(a))
    m2 = El("bit", name="FreshB").p("idx", str(idx)).p("sinceVersion", str(a)).p("defaultValue", str(d).lower())
    m3 = El("bit", name="FreshC").p("idx", str(idx)).p("sinceVersion", str(b)).p("defaultValue", str(not d).lower())
    ms = [m1, m2, m3] if r.random() < 0.7 else r.sample([m2, m3], 2)
    for m in ms:
        el.multi.append(("bit", m))
    return ms + [el]
