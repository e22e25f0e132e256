"""XML element tree whose properties may be spelled in any of the equivalent ways."""
import random
from xml.sax.saxutils import escape


def qattr(v, rng):
    q = rng.choice("\"'") if rng else '"'
    s = escape(v, {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
    s = s.replace(q, "&quot;" if q == '"' else "&apos;")
    return q + s + q


def qtext(v, rng):
    """text of an element, sometimes split by what XML allows within it"""
    def esc(x):
        return escape(x, {"\r": "&#13;"})
    if not rng or rng.random() < 0.75:
        return esc(v)
    i = rng.randint(0, len(v))
    a, b = v[:i], v[i:]
    k = rng.randrange(4)
    if k == 0:
        return esc(a) + rng.choice(["<!-- within the text -->", "<?pi x?>", "<!---->"]) + esc(b)
    if k == 1 and "\r" not in b and "]]>" not in b:
        return esc(a) + "<![CDATA[" + b + "]]>"
    if k == 2 and "\r" not in a and "]]>" not in a:
        return "<![CDATA[" + a + "]]>" + esc(b)
    return "\n  " + esc(v) + rng.choice(["\n", " ", "<!-- x --> "])


class El:
    """props: single instance properties. multi: ordered children (name, El). body: member
    elements, optionally inside a wrapper element (wrap)."""

    def __init__(self, tag, **props):
        self.tag = tag
        self.props = dict(props)
        self.multi = []
        self.body = []
        self.wrap = None
        self.must_wrap = False
        self.attr_only = set()
        self.E = None
        self.place = None

    def p(self, name, value):
        self.props[name] = value if isinstance(value, str) else str(value)
        return self

    def copy(self):
        import copy
        return copy.deepcopy(self)


def text_ok(v):
    return bool(v) and v == v.strip()


class Style:
    """How to spell; rng None = canonical (attributes only)."""

    def __init__(self, seed=None, noise=True):
        self.rng = random.Random(seed) if seed is not None else None
        self.noise = noise

    def junk(self):
        r = self.rng
        if not r or not self.noise or r.random() > 0.12:
            return ""
        return r.choice(["<!-- a comment -->", "<?pi some data?>", "<!-- <int name=\"no\"/> -->", "\n\n", "\t"])


def render(el, st=None, ind=0):
    st = st or Style()
    out = []
    st.marks = []
    _render(el, st, ind, out)
    # line (within this text) of every element's start and end
    st.lines = {}
    marks = sorted(st.marks, key=lambda m: m[1])
    line, k = 0, 0
    for i, t in enumerate(out):
        while k < len(marks) and marks[k][1] == i:
            q = st.lines.setdefault(marks[k][0], [])
            q.append(line + (1 if t.startswith("\n") and not q else 0))
            k += 1
        line += t.count("\n")
    while k < len(marks):
        st.lines.setdefault(marks[k][0], []).append(line)
        k += 1
    return "".join(out)


def _render(el, st, ind, out):
    r = st.rng
    attrs, kids = [], []
    multi = list(el.multi)
    props = list(el.props.items())
    bare_body_possible = el.body and (el.wrap is None or not el.must_wrap)
    want_bare = False
    if el.body and el.wrap is not None and not el.must_wrap and not multi:
        want_bare = (r.random() < 0.5) if r else True
    mcount = {}
    for n, _ in multi:
        mcount[n] = mcount.get(n, 0) + 1
    if r:
        r.shuffle(props)
    for n, v in props:
        as_attr = True
        if r and not want_bare and n not in el.attr_only and n != "value" and (el.wrap is not None or not el.body):
            as_attr = r.random() < 0.6
        if as_attr:
            attrs.append((n, v))
        else:
            kids.append(("p", n, v))
    rest = []
    used = set()
    for n, m in multi:
        # one plain instance may be an attribute
        if (not m.multi and not m.body and list(m.props) == ["value"] and n not in used and n not in el.props
                and n in ("validRange", "validValue", "validMin", "validMax")
                and (r is None or r.random() < 0.5) and (r is not None or mcount[n] == 1)):
            used.add(n)
            attrs.append((n, m.props["value"]))
        else:
            rest.append(("m", n, m))
    if r:
        r.shuffle(attrs)
        # interleave property children and multi children (keeping the order of the latter)
        seq = list(kids)
        r.shuffle(seq)
        for x in reversed(rest):
            pass
        merged, i, j = [], 0, 0
        while i < len(seq) or j < len(rest):
            if j >= len(rest) or (i < len(seq) and r.random() < 0.5):
                merged.append(seq[i]); i += 1
            else:
                merged.append(rest[j]); j += 1
    else:
        merged = kids + rest
    pad = "\n" + " " * ind
    st.marks.append((id(el), len(out)))
    out.append(pad + "<" + el.tag)
    for n, v in attrs:
        sp = " " if not r or r.random() < 0.9 else r.choice(["  ", "\n   "])
        out.append(sp + n + ("=" if not r or r.random() < 0.95 else " = ") + qattr(v, r))
    if not merged and not el.body:
        if r and r.random() < 0.3:
            out.append("></" + el.tag + ">")
        else:
            out.append("/>")
        st.marks.append((id(el), len(out)))
        return
    out.append(">")
    body_first = r is not None and el.body and not want_bare and r.random() < 0.3

    def put_body():
        if not el.body:
            return
        if want_bare or el.wrap is None:
            for b in el.body:
                out.append(st.junk())
                _render(b, st, ind + 1, out)
            return
        out.append(pad + " <" + el.wrap + ">")
        for b in el.body:
            out.append(st.junk())
            _render(b, st, ind + 2, out)
        out.append(pad + " </" + el.wrap + ">")

    if body_first:
        put_body()
    for k, n, v in merged:
        out.append(st.junk())
        if k == "p":
            if text_ok(v) and r and r.random() < 0.5:
                out.append(pad + " <" + n + ">" + qtext(v, r) + "</" + n + ">")
            else:
                out.append(pad + " <" + n + " value=" + qattr(v, r) + "/>")
        else:
            m = v
            if list(m.props)[:1] == ["value"] and not m.body and not m.multi and r and text_ok(m.props["value"]) and r.random() < 0.4:
                st.marks.append((id(m), len(out)))
                out.append(pad + " <" + n)
                for a, av in list(m.props.items())[1:]:
                    out.append(" " + a + "=" + qattr(av, r))
                out.append(">" + qtext(m.props["value"], r) + "</" + n + ">")
                st.marks.append((id(m), len(out)))
            else:
                _render(m, st, ind + 1, out)
    if not body_first:
        put_body()
    out.append(pad + "</" + el.tag + ">")
    st.marks.append((id(el), len(out)))
