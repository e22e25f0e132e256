"""W06: the document generated by commsdsl2latex."""
import os, random, re, shutil, struct, subprocess, tempfile
from .. import build, codec, cpp, gen, texdoc
from ..common import Violation
from ..gen import NODEPR, INF, is_unsigned
from .wrap import schema, judged, failed, PROFILES
from ..texdoc import norm

PROFILES["W06"] = [(3, dict(nmsgs=6, nfields=6)), (1, dict(nmsgs=5, nfields=8, depth=3)), (1, dict(nmsgs=4, nfields=6, maxver=5, ver_mult=2.0))]
KIND = dict(int="Integral", enum="Enumeration", set="Bitset", float="Floating Point", bitfield="Bitfield", bundle="Bundle (Composite)", string="String",
            data="Raw Data", list="List", variant="Variant")
UNITS = [None, "Nanoseconds", "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Days", "Weeks", "Nanometers", "Micrometers",
         "Millimeters", "Centimeters", "Meters", "Kilometers", "Nanometers Per Second", "Micrometers Per Second", "Millimeters Per Second",
         "Centimeters Per Second", "Meters Per Second", "Kilometers Per Second", "Kilometers Per Hour", "Hertz", "Kilohertz", "Megahertz",
         "Gigahertz", "Degrees", "Radians", "Nano Amperes", "Micro Amperes", "Milli Amperes", "Amperes", "Kilo Amperes", "Nano Volts",
         "Micro Volts", "Milli Volts", "Volts", "Kilo Volts", "Bytes", "Kilobytes", "Megabytes", "Gigabytes", "Terabytes"]


def label(e):
    d = e["disp"]
    return norm(e["name"] if d in ("", "_") else d)


def ints(v, uns):
    if uns or v >= 0:
        v &= INF
        return (str(v), v)
    return (str(v), None)


def isint(t, v, uns):
    """what the document shows for the value"""
    d, h = ints(v, uns)
    m = re.fullmatch(r"(-?\d+)(?: \(0x([0-9a-f]+)\))?", t)
    return bool(m) and m.group(1) == d and (int(m.group(2), 16) if m.group(2) else None) == h


def union(rs):
    o = []
    for a, b in sorted(rs):
        if o and a <= o[-1][1] + 1:
            o[-1] = (o[-1][0], max(b, o[-1][1]))
        else:
            o.append((a, b))
    return o


class Judge:
    def __init__(self, c, model, doc, st):
        self.c, self.model, self.doc, self.st = c, model, doc, st
        self.bad = []
        self.seen = set()

    def fail(self, key, what):
        self.bad.append((key, what))

    def block(self, lab, what):
        k = self.doc.label.get(lab)
        if k is None:
            self.fail("no section for %s" % what.split(" ")[0], "%s has no section (label %s)" % (what, lab))
        return k

    def desc(self, k, e, what):
        t = norm(self.doc.blocks[k].text)
        # texts that follow the description
        if e["desc"] and not (t == norm(e["desc"]) or t.startswith(norm(e["desc"]) + " ")):
            self.fail("description of %s" % what.split(" ")[0], "%s: description %r, the document says %r" % (what, e["desc"], t))
        self.st.count["texts"] += 1

    def title(self, k, e, what):
        t = self.doc.blocks[k].title
        m = re.search(r'"(.*)"$', t)
        if not m or m.group(1) != label(e):
            self.fail("title of %s" % what.split(" ")[0], "%s: named %r, titled %r" % (what, label(e), t))

    def details(self, k, what):
        b = self.doc.sub(k, "Details")
        if b is None or not b.tables:
            self.fail("no details of %s" % what.split(" ")[0], "%s has no table of details" % what)
            return {}
        return {r[0].text: r[1] for r in reversed(b.tables[0]) if len(r) == 2}

    def length(self, t, lo, hi, unit):
        if not isinstance(lo, int) or not isinstance(hi, int):
            return True
        if lo == hi:
            return t == "%d%s" % (lo, unit)
        if hi == INF:
            return t == "%d+%s" % (lo, unit)
        return t == "%d - %d%s" % (lo, hi, unit)

    def common(self, d, e, what, bits=False, optional=False):
        if e.get("pseudo"):
            if d.get("Pseudo Field") is None:
                self.fail("pseudo", "%s is a pseudo field, not said" % what)
        else:
            lo, hi, unit = (e["bitLen"], e["bitLen"], " Bits") if bits else (e["minLen"], e["maxLen"], " Bytes")
            t = d.get("Fixed Length") or d.get("Variable Length")
            if lo is not None and (t is None or not self.length(t.text, lo, hi, unit)):
                self.fail("length", "%s: length %s - %s, the document says %s" % (what, lo, hi, t and t.text))
        for n, v, no in (("Introduced In Version", e["since"], 0), ("Deprecated In Version", e["depr"], NODEPR)):
            if v is None:
                continue
            t = d.get(n)
            if (v == no) != (t is None) or (t is not None and not isint(t.text, v, True)):
                self.fail("version", "%s: %s %s, the document says %s" % (what, n, v, t and t.text))

    def exists(self, x):
        return x["since"] <= self.c.ver

    def field(self, f, lab, what, bits=False, titled=None, part=False):
        """documentation of the field at the label"""
        what = "%s %s" % (f["kind"], what)
        self.st.count["fields"] += 1
        if f["kind"] == "optional":
            g = f["field"]
            if not g["ext"] and not g["desc"]:
                # the document shows the optional as its field
                l2 = lab + ":field_" + g["name"]
                k = self.block(l2, what)
                if k is None:
                    return
                self.title(k, f, what)
                self.desc(k, f, what)
                self.inner(g, k, l2, what)
                return
        k = self.block(lab, what)
        if k is None:
            return
        if not part:
            self.title(k, f, what)
            self.desc(k, f, what)
        self.inner(f, k, lab, what, bits)

    def inner(self, f, k, lab, what, bits=False):
        d = self.details(k, what)
        if not d:
            return
        kind = self.c.deref(f)["kind"] if f["kind"] == "ref" else f["kind"]
        if kind in KIND and (d.get("Field Kind") is None or d["Field Kind"].text != KIND[kind]):
            self.fail("kind", "%s: kind %s, the document says %s" % (what, kind, d.get("Field Kind") and d["Field Kind"].text))
        self.common(d, f, what, bits)
        getattr(self, "k_" + f["kind"], lambda *a: None)(f, k, d, lab, what)

    def number(self, f, d, what):
        t = d.get("Endian")
        if t is None or t.text != ("Little", "Big")[f["endian"]]:
            self.fail("endian", "%s: endian %s, the document says %s" % (what, f["endian"], t and t.text))
        if f["kind"] in ("int", "enum"):
            t = d.get("Signed")
            if t is None or t.text != ("No" if is_unsigned(f["type"]) else "Yes"):
                self.fail("signed", "%s: type %s, signed %s" % (what, gen.IT[f["type"]], t and t.text))
        if f["kind"] in ("int", "float"):
            t = d.get("Units")
            if (t.text if t else None) != UNITS[f["units"] or 0]:
                self.fail("units", "%s: units %s, the document says %s" % (what, UNITS[f["units"] or 0], t and t.text))

    def k_int(self, f, k, d, lab, what):
        self.number(f, d, what)
        uns = is_unsigned(f["type"])
        a, b = f["scaling"]
        t = d.get("Scaling")
        if (t.text if t else None) != (None if a == b else "%d / %d" % (a, b)):
            self.fail("scaling", "%s: scaling %s, the document says %s" % (what, f["scaling"], t and t.text))
        exp = [(r["min"] & INF, r["max"] & INF) if uns else (r["min"], r["max"]) for r in f["ranges"] if self.exists(r)]
        t = d.get("Valid Values") or d.get("Must Have Value")
        got = []
        for g in t.text.split(", ") if t else []:
            m = re.fullmatch(r"\[(-?\d+)(?: \(0x([0-9a-f]+)\))? - (-?\d+)(?: \(0x([0-9a-f]+)\))?\]", g) or re.fullmatch(r"((-?\d+)(?: \(0x([0-9a-f]+)\))?)", g)
            if not m:
                self.fail("range", "%s: valid values %s" % (what, t.text))
                return
            if m.lastindex and g[0] == "[":
                got.append((int(m.group(1)), int(m.group(3))))
                hexes = [(m.group(1), m.group(2)), (m.group(3), m.group(4))]
            else:
                got.append((int(m.group(2)), int(m.group(2))))
                hexes = [(m.group(2), m.group(3))]
            if any((int(h, 16) if h else None) != (int(v) if int(v) >= 0 else None) for v, h in hexes):
                self.fail("range", "%s: valid values %s" % (what, t.text))
        if union(got) != union(exp):
            self.fail("ranges", "%s: valid values %s, the document says %s" % (what, union(exp), union(got)))
        self.rows(k, "Special Values", [s for s in f["specials"] if self.exists(s)], lambda t, s: isint(t, s["val"], uns), what)

    def rows(self, k, title, exp, same, what):
        b = self.doc.sub(k, title)
        rows = b.tables[0][1:] if b and b.tables else []
        if len(rows) != len(exp):
            self.fail(title, "%s: %d entries, the document shows %d in %s" % (what, len(exp), len(rows), title))
            return
        rest = list(rows)
        for s in exp:
            self.st.count["values"] += 1
            for r in rest:
                if len(r) == 3 and r[1].text == label(s) and same(r[0].text, s) and r[2].text == norm(s["desc"]):
                    rest.remove(r)
                    break
            else:
                self.fail(title + " entry", "%s: %s %s = %s (%r) not among %s" % (what, title, label(s), s["val"], s["desc"], [[c.text for c in r] for r in rest][:4]))
                return

    def k_enum(self, f, k, d, lab, what):
        self.number(f, d, what)
        uns = is_unsigned(f["type"])
        self.rows(k, "Valid Values", [v for v in f["values"] if self.exists(v)], lambda t, s: isint(t, s["val"], uns), what)

    def k_float(self, f, k, d, lab, what):
        self.number(f, d, what)

        def same(t, s):
            v = s["val"]
            if isinstance(v, str) or v != v:
                return True
            if t in ("(min)", "(max)", "NaN", "Inf", "-Inf"):
                return True
            try:
                return abs(float(t) - v) <= max(abs(v) * 1e-9, 0.5 * 10 ** -f["dispDec"] * 1.001 if f["dispDec"] else 0)
            except (ValueError, TypeError):
                return False
        self.rows(k, "Special Values", [s for s in f["specials"] if self.exists(s)], same, what)

    def k_set(self, f, k, d, lab, what):
        b = self.doc.sub(k, "Bit Values")
        rows = b.tables[0][1:] if b and b.tables else []
        n = f["bitLen"] or f["minLen"] * 8
        seen = set()
        named = []
        for r in rows:
            m = re.fullmatch(r"(\d+)(?: - (\d+))?", r[0].text) if len(r) == 4 else None
            if not m:
                self.fail("bit row", "%s: row %s" % (what, [c.text for c in r]))
                return
            i, j = int(m.group(1)), int(m.group(2) or m.group(1))
            try:
                mask = int(r[1].text, 16)
            except ValueError:
                mask = -1
            if mask != sum(1 << q for q in range(i, j + 1)):
                self.fail("bit mask", "%s: bits %d - %d, mask %s" % (what, i, j, r[1].text))
                return
            seen.update(range(i, j + 1))
            named.append((i, r[2].text, r[3].text))
        if rows and seen != set(range(n)) and f["minLen"] <= 8:
            self.fail("bits", "%s: %d bits, rows for %s" % (what, n, sorted(seen)))
        declared = set(x["idx"] for x in f["bits"])
        for i, nm, text in named:
            if i not in declared and "Expected to be %d" % f["resBit"] not in text:
                self.fail("undeclared bit", "%s: bit %d is expected to be %d: %s" % (what, i, f["resBit"], text))
        for x in f["bits"]:
            self.st.count["values"] += 1
            for y in named:
                if y[0] == x["idx"] and y[1] == label(x) and y[2].startswith(norm(x["desc"])):
                    if x["res"] and "Expected to be %d" % x["resVal"] not in y[2]:
                        self.fail("reserved bit", "%s: bit %d is reserved with value %d: %s" % (what, x["idx"], x["resVal"], y[2]))
                    break
            else:
                self.fail("bit", "%s: bit %d %s (%r) not in the document: %s" % (what, x["idx"], label(x), x["desc"], [y for y in named if y[0] == x["idx"]]))

    def members(self, k, title, fs, lab, what, bits=False):
        b = self.doc.sub(k, title)
        rows = b.tables[0][1:] if b and b.tables else []
        if len(rows) != len(fs):
            self.fail("members", "%s: %d members, the document shows %d" % (what, len(fs), len(rows)))
            return
        for f, r in zip(fs, rows):
            n = label(f)
            if r[-1].text not in (n, n + " (optional)"):
                self.fail("member name", "%s: member %s, the document shows %s" % (what, n, r[-1].text))
                continue
            if f["kind"] == "optional" and r[-1].text == n:
                self.fail("optional", "%s: member %s is optional, not said" % (what, n))
            if not bits and len(r) >= 2 and not self.length(r[-2].text, f["minLen"], f["maxLen"], ""):
                self.fail("member length", "%s: member %s of %s - %s bytes, the document says %s" % (what, n, f["minLen"], f["maxLen"], r[-2].text))
            l = lab + ":field_" + f["name"]
            if len(r[-1].refs) != 1:
                self.fail("no link", "%s: member %s is not linked" % (what, n))
                continue
            to = r[-1].refs[0]
            if f["kind"] == "ref" and to != l:
                # shown as the referenced field
                g = self.c.fields[f["target"]]
                if to.split(":")[-1] not in ("field_" + g["name"],) and g["kind"] not in ("optional", "ref"):
                    self.fail("link", "%s: member %s links to %s" % (what, n, to))
                if f["desc"] and f["desc"] != g["desc"]:
                    self.fail("description of ref", "%s: description %r of the reference %s is not in the document" % (what, f["desc"], n))
                continue
            if f["kind"] == "optional" and f["field"]["kind"] == "ref" and not f["field"]["ext"] and not to.startswith(l):
                # an optional reference is shown as the referenced field
                continue
            if to != l and not (f["kind"] == "optional" and to.startswith(l + ":")):
                self.fail("link", "%s: member %s links to %s" % (what, n, to))
                continue
            self.field(f, l, what + "." + f["name"], bits)

    def k_bundle(self, f, k, d, lab, what):
        self.members(k, "Member Fields", f["members"], lab, what)

    def k_bitfield(self, f, k, d, lab, what):
        self.members(k, "Member Fields", f["members"], lab, what, True)

    def k_variant(self, f, k, d, lab, what):
        self.members(k, "Available Member Fields", f["members"], lab, what)

    def part(self, f, key, row, d, lab, what):
        g = f.get(key)
        if not g:
            return
        t = d.get(row)
        if t is None or len(t.refs) != 1:
            self.fail(row, "%s: %s is not linked" % (what, row))
            return
        if not g["ext"] and g["kind"] != "ref":
            self.field(g, lab + ":field_" + g["name"], what + "." + g["name"])

    def k_string(self, f, k, d, lab, what):
        self.part(f, "lenPrefix", "Length Prefix", d, lab, what)

    k_data = k_string

    def k_list(self, f, k, d, lab, what):
        for key, row in (("element", "Element Field"), ("lenPrefix", "Length Prefix"), ("countPrefix", "Count Prefix"), ("elemLenPrefix", "Element Length Prefix")):
            self.part(f, key, row, d, lab, what)

    def k_optional(self, f, k, d, lab, what):
        g = f["field"]
        if not g["ext"] and g["kind"] != "ref":
            self.field(g, lab + ":field_" + g["name"], what + "." + g["name"])

    def k_ref(self, f, k, d, lab, what):
        t = d.get("Same As")
        if t is None or len(t.refs) != 1:
            self.fail("same as", "%s: the referenced field is not linked" % what)

    def root(self, path):
        return ":".join(["schema_" + self.model["name"]] + ["ns_" + p for p in path])

    def all(self):
        for p, M in cpp.entities(self.model, "messages"):
            self.st.count["messages"] += 1
            what = "message " + ".".join(p + (M["name"],))
            lab = self.root(p) + ":msg_" + M["name"]
            k = self.block(lab, what)
            if k is None:
                continue
            self.title(k, M, what)
            self.desc(k, M, what)
            d = self.details(k, what)
            if d:
                t = d.get("ID")
                if t is None or not isint(t.text, M["id"], True):
                    self.fail("id", "%s: id %s, the document says %s" % (what, M["id"], t and t.text))
                t = d.get("Sent By")
                if t is None or t.text != ("Client + Server", "Client Only", "Server Only")[M["sender"]]:
                    self.fail("sender", "%s: sender %s, the document says %s" % (what, M["sender"], t and t.text))
                self.common(d, M, what)
            self.members(k, "Member Fields", M["fields"], lab, what)
        for p, f in cpp.entities(self.model, "fields"):
            l = self.root(p) + ":field_" + f["name"]
            if any(r == l or (f["kind"] == "optional" and r.startswith(l + ":")) for r in self.doc.refs):
                self.field(f, l, "field " + ".".join(p + (f["name"],)))
        for p, F in cpp.entities(self.model, "frames"):
            self.st.count["frames"] += 1
            what = "frame " + ".".join(p + (F["name"],))
            lab = self.root(p) + ":frame_" + F["name"]
            k = self.block(lab, what)
            if k is None:
                continue
            self.title(k, F, what)
            self.desc(k, F, what)
            b = self.doc.sub(k, "Frame Fields")
            rows = b.tables[0][1:] if b and b.tables else []
            if [r[-1].text for r in rows] != [label(l) for l in F["layers"]]:
                self.fail("layers", "%s: layers %s, the document shows %s" % (what, [label(l) for l in F["layers"]], [r[-1].text for r in rows]))
                continue
            for l, r in zip(F["layers"], rows):
                ll = lab + ":layer_" + l["name"]
                w = "layer %s.%s" % (what, l["name"])
                if r[-1].refs != [ll]:
                    self.fail("link", "%s links to %s" % (w, r[-1].refs))
                kk = self.block(ll, w)
                if kk is None:
                    continue
                self.title(kk, l, w)
                self.desc(kk, l, w)
                g = l.get("field")
                if g and not g["ext"] and g["kind"] not in ("ref", "optional"):
                    if g["desc"] and norm(g["desc"]) not in norm(self.doc.blocks[kk].text):
                        self.fail("description of layer field", "%s: description %r of its field is not in the document" % (w, g["desc"]))
                    self.inner(g, kk, ll + ":field_" + g["name"], "%s %s.%s" % (g["kind"], w, g["name"]))
        for r in self.doc.refs:
            if r not in self.doc.label:
                self.fail("dangling", "reference to %s, which is not a label of the document" % r)
        for p, ns in [(p, ns) for top in self.model["namespaces"] for p, ns in cpp.walk(top, (top["name"],) if top["name"] else ())]:
            if not p or not (ns["messages"] or ns["frames"]):
                continue
            k = self.doc.label.get(self.root(p))
            if k is None:
                if len(self.model["namespaces"]) > 1 or len(p) > 1 or ns["disp"]:
                    self.fail("namespace", "namespace %s has no section" % ".".join(p))
                continue
            t = self.doc.blocks[k].title
            if t not in (label(ns), 'Namespace "%s"' % label(ns)) and (len(p) > 1 or len(self.model["namespaces"]) > 1):
                self.fail("namespace title", "namespace %s titled %r" % (".".join(p), t))
            if t and ns["desc"] and len(p) > 1:
                self.desc(k, ns, "namespace " + ".".join(p))
        return self.bad


def tex(d, main):
    """errors and unresolved references reported by TeX itself"""
    for n in (1, 2):
        q = subprocess.run(["/usr/bin/pdflatex", "-interaction=nonstopmode", "-no-shell-escape", main], cwd=d, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=dict(os.environ, max_print_line="2000"))
        t = q.stdout.decode("latin-1")
        m = re.search(r"^! (.*)", t, re.M)
        if m:
            i = t.index(m.group(0))
            return "pdflatex: " + re.sub(r"\s+", " ", t[i:i + 300]), m.group(1)[:40]
    for pat, key in ((r"LaTeX Warning: (?:Hyper r|R)eference .* undefined", "undefined reference"), (r"LaTeX Warning: Label .* multiply defined", "multiply defined label"),
                     (r"destination with the same identifier", "duplicated destination")):
        m = re.search(pat, t)
        if m:
            return "pdflatex: " + m.group(0), key
    return None


def w06_job(seed, st, run_tex=True):
    @judged
    def job(seed, st):
        r, s, texts = schema("W06", seed)
        d = tempfile.mkdtemp(prefix="w06.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        try:
            for n, t in texts:
                p = os.path.join(d, "in", n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", encoding="utf-8").write(t)
            out = os.path.join(d, "out")
            q = subprocess.run([cpp.generator("latex"), "-s", "-o", out] + [os.path.join(d, "in", n) for n, _ in texts], stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=cpp.gen_env(), timeout=300)
            files = dict(texts, case=texts[-1][1])
            if q.returncode:
                return [Violation("commsdsl2latex: exit code %d: %s" % (q.returncode, cpp.crash_line(q.stdout.decode("utf-8", "replace"), q.returncode)), "generator", files)]
            mains = [n for n in os.listdir(out) if n.endswith(".tex")]
            if len(mains) != 1:
                return [Violation("%s main documents" % mains, "main document", files)]
            res = []
            st.count["documents"] += 1
            try:
                doc = texdoc.Doc(out, mains[0])
                unused = [os.path.relpath(os.path.join(q, n), out) for q, _, ns in os.walk(out) for n in ns if n.endswith(".tex")]
                unused = sorted(set(unused) - set(doc.files))
                if unused:
                    res.append(Violation("%s is not part of the document" % unused[0], "file not included", files))
                st.count["sections"] += len(doc.blocks)
                st.count["links"] += len(doc.refs)
                j = Judge(codec.Codec(s.model), s.model, doc, st)
                for key, what in j.all()[:20]:
                    res.append(Violation(what, key, files))
            except texdoc.Bad as e:
                res.append(Violation("the document is not valid LaTeX: %s" % e, "invalid: " + re.sub(r"near.*", "", str(e))[:40], files))
            st.case(texts[-1][1], documents=1)
            if run_tex:
                b = tex(out, mains[0])
                st.count["documents typeset"] += 1
                if b:
                    log = os.path.join(out, mains[0][:-4] + ".log")
                    res.append(Violation(b[0], "pdflatex: " + b[1], dict(files, **({"tex.log": open(log, encoding="latin-1").read()[-20000:]} if os.path.exists(log) else {}))))
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return job(seed, st)


def w06(ck):
    build.ensure(["latex"])
    ck.rule = "a case is one generated document: read as TeX would, every message, field, value, bit, frame, layer, text and link compared with the schema, then typeset twice with pdflatex; distinct = distinct schema"
    ck.assumptions = ["only the latin characters pdflatex supports are used in the texts", "schemas are valid ones of the schema generator"]
    base = ck.seed * 1000003
    ck.pmap(w06_job, [base + k for k in range(ck.scale(250, 6000))])


CHECKS = {"W06": w06}
