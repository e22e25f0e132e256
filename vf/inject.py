"""C09: where the code snippets of the injection directory end up.

With --code-inject-comments the generators mark every place that accepts a snippet and name the file that provides it.  Runs without
comments, with comments, with snippets, and with both are compared with each other."""
import os, re
from . import cpp

APPS = ("comms", "c", "emscripten", "latex", "swig", "test", "tools_qt")
COMMENT = re.compile(r'^(?P<pre>.*?)\[CODE INJECT\]: (?P<what>.*) with "(?P<path>[^"]+)"\.$')
# what only adds text next to the generated one
ADD = (".public", ".protected", ".private", ".inc", ".append", ".prepend", ".bind", ".sources", ".prepend_lang", ".value",
       ".package_append", ".macro_append", ".content_append", ".content_prepend", ".title_append", ".pdf_append", ".html_append", ".html_cmd_append")


def tree(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as h:
                out[os.path.relpath(q, d)] = h.read()
    return out


class Runs:
    """runs of one generator on one schema"""

    def __init__(self, app, texts, args):
        self.app = app
        self.p = cpp.Proj(texts, args, run=False)
        self.n = 0

    def close(self):
        self.p.close()

    def run(self, *extra):
        self.n += 1
        o = os.path.join(self.p.dir, "o%d" % self.n)
        try:
            self.p.generate(self.app, o, extra)
        except cpp.Failed as e:
            e.key = self.app + " " + e.key
            raise
        return tree(o)


def text(b):
    return b.decode("utf-8", "replace")


def advertised(out):
    """{snippet: [(file, line number, text before the comment)]}"""
    adv = {}
    for f, b in out.items():
        for k, l in enumerate(text(b).split("\n")):
            m = COMMENT.match(l)
            if m:
                adv.setdefault(m.group("path"), []).append((f, k, m.group("pre")))
    return adv


def norm(t):
    """lines without the comments about the injection, white space and empty lines"""
    return [" ".join(l.split()) for l in t.split("\n") if l.strip() and not COMMENT.match(l)]


SCAFFOLD = ("protected:", "private:", "public:")


def snippet(r, n, pre, path):
    """unique lines that have the syntax of a comment in the file they are put into"""
    ls = ["%sVFMARK%d %s" % (pre, n, r.choice(["one", "b\"q\\u", "a  b", "#^#NAME", "%s $ & <x>"])) for _ in range(r.choice((1, 1, 1, 2, 3)))]
    return "\n".join(ls) + r.choice(("\n", "\n", ""))


def mark(n):
    return re.compile(r"VFMARK%d\b" % n)


def expand(out, f, lines, snips):
    """contents of the file expected when the advertised comments are replaced by the snippets"""
    res = []
    for l in lines:
        m = COMMENT.match(l)
        if m and m.group("path") in snips:
            res += snips[m.group("path")].split("\n")
        elif not m:
            res.append(l)
    return [" ".join(l.split()) for l in res if l.strip()]


def extra_files(r):
    """files of the injection directory that are not snippets"""
    out = {}
    for k in range(r.randint(1, 4)):
        d = r.choice(["", "include/proto/vf/", "include/proto/message/", "x/y/z/", "cmake/", "include/proto_x/"])
        n = r.choice(["Extra%d.h", "f%d", ".hidden%d", "a b%d.txt", "v%d.reads", "v%d.inc.in", "n%d.h.body", "include%d.replace_", "UPPER%d.READ"]) % k
        out[d + n] = bytes(r.randrange(256) for _ in range(r.randint(0, 60))) if r.random() < 0.5 else b"text %d\r\n\ttail" % k
    return out


def marked(app, texts, r, st, sources=()):
    """violations (what, key) of one generator on one schema"""
    R = Runs(app, texts, [])
    out = []
    try:
        P, C = R.run(), R.run("--code-inject-comments")
        if set(P) != set(C):
            return [("other files are generated with --code-inject-comments: %r" % sorted(set(P) ^ set(C))[:6], app + " files with comments")]
        if app != "comms":
            for f in P:
                a, b = norm(text(P[f])), [l for l in norm(text(C[f]))]
                if [l for l in a if l not in SCAFFOLD] != [l for l in b if l not in SCAFFOLD]:
                    out.append(("--code-inject-comments changes the code of %s" % f, app + " code with comments"))
            st.count["files compared with and without the comments"] += len(P)
        adv = advertised(C)
        if not adv:
            return out
        D = os.path.join(R.p.dir, "code")
        names = sorted(adv)
        pick = [p for p in names if r.random() < min(0.5, max(0.06, 12.0 / len(names)))] or [r.choice(names)]
        # rare ones: a replaced file hides the rest
        pick = [p for p in pick if not p.endswith("replace") or r.random() < 0.3]
        snips, ids = {}, {}
        for k, p in enumerate(pick):
            ids[p] = k + 1
            snips[p] = snippet(r, k + 1, adv[p][0][2].lstrip(), p)
        extra = {n: b for n, b in extra_files(r).items() if n not in adv and n not in P}
        if any(os.path.splitext(n)[1] in {os.path.splitext(a)[1] for a in adv} for n in extra):
            extra = {}
        for n, b in list(snips.items()) + list(extra.items()):
            q = os.path.join(D, n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as h:
                h.write(b if isinstance(b, bytes) else b.encode())
        I, J = R.run("-c", D, "--code-inject-comments"), R.run("-c", D)
        st.case("%s %s" % (app, sorted(snips.items())), **{"snippets injected": len(snips), "files copied": len(extra)})
        for p in snips:
            st.count["suffix " + os.path.splitext(p)[1]] += 1
        return out + judge(app, P, C, I, J, adv, snips, ids, extra, {ids[p] for p in snips if os.path.splitext(p)[0] in sources})
    finally:
        R.close()


def judge(app, P, C, I, J, adv, snips, ids, extra, copied):
    """copied: numbers of the snippets of the elements other elements take the code of"""
    out = []
    for n, b in extra.items():
        for X in (I, J):
            if X.get(n) != b:
                out.append(("%s of the code directory %s" % (n, "is not copied" if n not in X else "is copied with other contents"), app + " copied file"))
    for n in snips:
        if n in I or n in J:
            out.append(("the snippet %s is copied to the output" % n, "%s snippet %s copied to the output" % (app, os.path.splitext(n)[1])))
    un = sorted((set(I) | set(J)) - set(C) - set(extra) - set(snips))
    if un or set(C) - set(I) or set(C) - set(J):
        out.append(("files: unexpected %r, missing %r" % (un[:5], sorted(set(C) - set(I) | set(C) - set(J))[:5]), app + " files with snippets"))
    # the file that has to be given as is
    whole = {}
    for p in snips:
        if p.endswith(".replace"):
            for f, _, _ in adv[p]:
                if f == p[:-len(".replace")] or len(adv[p]) == 1 and os.path.basename(f) == os.path.basename(p)[:-len(".replace")]:
                    whole[f] = p
    for f, p in whole.items():
        for X in (I, J):
            if text(X.get(f, b"")).strip() != snips[p].strip():
                out.append(("%s is not replaced by the snippet" % f, app + " replaced file"))
    over = {p for p in snips if p.endswith("_body") and p[:-5] in snips}
    for p in snips:      # what replaces a part hides what is added to that part
        b, e = os.path.splitext(p)
        e = e.replace("_replace", "")
        over |= {q for q in snips if q.startswith(b + e + "_") and q != p}
        if e == ".html":
            over |= {q for q in snips if q == b + ".html_cmd_append"}
    used, foreign = {}, set()
    for p in snips:
        for f, k, pre in adv[p]:
            used.setdefault(f, []).append(p)
    for f in C:
        if f in whole:
            continue
        for X, nm in ((I, "with comments"), (J, "without comments")):
            t = text(X.get(f, b""))
            have = set(int(q) for q in re.findall(r"VFMARK(\d+)\b", t))
            want = {ids[p] for p in used.get(f, []) if p not in over}
            if want < have and have - want <= copied:
                foreign.add(f)
            elif have != want:
                back = {v: k for k, v in ids.items()}
                miss, un = [back[q] for q in sorted(want - have)], [back[q] for q in sorted(have - want)]
                out.append(("%s (%s): snippets missing %r, unexpected %r" % (f, nm, miss[:4], un[:4]),
                            "%s snippets missing %s unexpected %s" % (app, sorted({os.path.splitext(q)[1] for q in miss}), sorted({os.path.splitext(q)[1] for q in un}))))
                break
        else:
            ps = used.get(f, [])
            if f in foreign:
                continue
            if ps and all(p.endswith(ADD) for p in ps):
                a = expand(C, f, text(C[f]).split("\n"), snips)
                b = [" ".join(l.split()) for l in text(I[f]).split("\n") if l.strip() and not COMMENT.match(l)]
                if a != b:
                    out.append(("%s: the snippets %r are not where they are announced, not verbatim, or the rest of the file is different" % (f, ps[:4]),
                                "%s placement %s" % (app, sorted({os.path.splitext(q)[1] for q in ps}))))
            elif not ps and all(p.endswith(ADD) for p in snips):
                if I[f] != C[f] or J[f] != P[f]:
                    out.append(("%s is different because of snippets of other files" % f, app + " other file changed"))
    return out


# ---- what the injected code does (commsdsl2comms)

OPS = ("value", "read", "write", "refresh", "length", "valid", "name")
OVR = ("any", "replace", "extend", "none")


class Ent:
    """entity that accepts the code"""

    def __init__(self, kind, path, obj, main="proto"):
        self.kind, self.path, self.obj = kind, path, obj
        self.name = obj["name"]
        self.cls = cpp.cls(obj["name"])
        sub = () if kind == "interface" else (kind,)
        self.hdr = cpp.hdr(main, path, *(sub + (self.cls,)))
        self.ns = cpp.scope(main, path, *sub)
        self.scope = self.ns + "::" + self.cls
        self.rel = "include/" + self.hdr
        self.sn = {}       # suffix: (number, text)
        o = obj.get("ovr")
        self.ovr = dict(zip(OPS if kind == "field" else OPS[1:], o)) if o and kind in ("field", "message") else {}
        self.copy = obj.get("copyCode") or ""
        self.src = None

    def op(self, op):
        """number of the snippet the operation uses"""
        if self.ovr.get(op) == 3:
            return None
        own = self.sn.get(op) or self.sn.get(op + "_body")
        return own[0] if own else self.src.op(op) if self.src else None

    def added(self, sfx):
        """numbers of the snippets of the added code"""
        return (self.src.added(sfx) if self.src else []) + ([self.sn[sfx][0]] if sfx in self.sn else [])

    def ctor(self):
        if "construct" in self.sn:
            return self.sn["construct"][0]
        e = self
        while e:
            if "construct_body" in e.sn:
                return e.sn["construct_body"][0]
            e = e.src
        return None

    def type(self, itype):
        if self.kind == "message":
            return "%s<%s>" % (self.scope, itype)
        if self.kind == "frame":
            return "%s<%s>" % (self.scope, itype)
        return self.scope + "<>"

    @property
    def pre(self):
        return "do" if self.kind == "message" else ""


def fn(e, op, n, full):
    """text of the snippet of an operation"""
    nm = e.pre + op[0].upper() + op[1:] if e.pre else op
    it = "static_cast<void>(iter); static_cast<void>(len); "
    sig, body = {
        "read": ("template <typename TIter>\ncomms::ErrorStatus %s(TIter& iter, std::size_t len)", it + "vfHit(%d);\nreturn comms::ErrorStatus::MsgAllocFailure;"),
        "write": ("template <typename TIter>\ncomms::ErrorStatus %s(TIter& iter, std::size_t len) const", it + "vfHit(%d);\nreturn comms::ErrorStatus::InvalidMsgId;"),
        "length": ("std::size_t %s() const", "vfHit(%d);\n\nreturn " + str(10000 + n) + "U;"),
        "valid": ("bool %s() const", "vfHit(%d); return " + ("true" if n % 2 else "false") + ";"),
        "refresh": ("bool %s()", "vfHit(%d); return " + ("true" if n % 2 else "false") + ";"),
        "name": ("static const char* %s()", "vfHit(%d); return \"vf\\\\" + str(n) + "\";"),
    }[op]
    body %= n
    if not full:
        return body + "\n"
    return "%s\n{\n    %s\n}\n" % (sig % nm, body.replace("\n", "\n    "))


RESULT = {"read": lambda n: "7", "write": lambda n: "5", "length": lambda n: str(10000 + n), "valid": lambda n: str(n % 2), "refresh": lambda n: str(n % 2), "name": lambda n: "vf\\%d" % n}


def make_snippet(e, sfx, n):
    if sfx == "value":
        return ("typename Base::ValueType& value() { vfHit(%d); return Base::value(); }\nconst typename Base::ValueType& value() const { vfHit(%d); return Base::value(); }\n" % (n, n))
    if sfx in OPS:
        return fn(e, sfx, n, True)
    if sfx.endswith("_body") and sfx[:-5] in OPS:
        return fn(e, sfx[:-5], n, False)
    if sfx in ("public", "protected", "private"):
        return "static unsigned vf%s%d()\n{\n    return %dU;\n}\n" % (sfx.capitalize(), n, n)
    if sfx == "inc":
        return "#undef VF_INC_%d\n#define VF_INC_%d %d\n" % (n, n, n)
    if sfx == "append":
        return "#undef VF_APPEND_%d\n#define VF_APPEND_%d %d\n" % (n, n, n)
    if sfx == "construct_body":
        return "vfHit(%d);\n" % n
    if sfx == "construct":
        return "%s()\n{\n    vfHit(%d);\n}\n" % (e.cls, n)
    if sfx == "extend":
        t = {"field": ("typename TOpt = proto::options::DefaultOptions, typename... TExtraOpts", "TOpt, TExtraOpts..."),
             "message": ("typename TMsgBase, typename TOpt = proto::options::DefaultOptions", "TMsgBase, TOpt"),
             "interface": ("typename... TOpt", "TOpt...")}[e.kind]
        return "template <%s>\nclass %s : public %sOrig<%s>\n{\npublic:\n    static unsigned vfExtend%d() { return %dU; }\n};\n" % (t[0], e.cls, e.cls, t[1], n, n)
    raise ValueError(sfx)


PRELUDE = r'''
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <type_traits>
static unsigned vfHits[4096];
inline void vfHit(unsigned n) { ++vfHits[n]; }
inline void vfReset() { for (auto& h : vfHits) h = 0; }
'''

PROBE = r'''
#define VF_DET(name_) \
    template <class T, class = void> struct VfHas_##name_ : std::false_type {}; \
    template <class T> struct VfHas_##name_<T, std::void_t<decltype(T::name_())>> : std::true_type {}; \
    template <class T> struct VfDer_##name_ : T { \
        template <class U> static auto t(int) -> decltype(U::name_(), std::true_type{}); \
        template <class U> static std::false_type t(...); };
static void line(const std::string& k, long long hits, const std::string& res) { std::printf("%s %lld %s\n", k.c_str(), hits, res.c_str()); }
static std::string hex(const std::uint8_t* b, std::size_t n) { std::string s; char c[4]; for (std::size_t i = 0; i < n; ++i) { std::snprintf(c, 4, "%02x", b[i]); s += c; } return s; }
#define VF_OPS(pre_, READ, WRITE, REFRESH, LENGTH, VALID, NAME) \
template <class T> void ops##pre_(const std::string& k, unsigned c, unsigned r, unsigned w, unsigned f, unsigned l, unsigned v, unsigned n) \
{ \
    vfReset(); { T t; line(k + " construct", vfHits[c], ""); (void)t; } \
    std::vector<std::uint8_t> in(64); \
    { T t; vfReset(); const std::uint8_t* it = in.data(); auto es = t.READ(it, in.size()); auto h = vfHits[r]; line(k + " read", h, std::to_string(int(es)) + (h ? "" : "," + std::to_string(it - in.data()))); } \
    { T t; vfReset(); std::vector<std::uint8_t> o(4096); auto* it = o.data(); auto es = t.WRITE(it, o.size()); auto h = vfHits[w]; line(k + " write", h, std::to_string(int(es)) + (h ? "" : "," + hex(o.data(), std::size_t(it - o.data())))); } \
    { T t; vfReset(); auto x = t.REFRESH(); line(k + " refresh", vfHits[f], std::to_string(int(x))); } \
    { T t; vfReset(); auto x = t.LENGTH(); line(k + " length", vfHits[l], std::to_string(x)); } \
    { T t; vfReset(); auto x = t.VALID(); line(k + " valid", vfHits[v], std::to_string(int(x))); } \
    { vfReset(); std::string x = T::NAME(); line(k + " name", vfHits[n], x); } \
}
VF_OPS(F, read, write, refresh, length, valid, name)
VF_OPS(M, doRead, doWrite, doRefresh, doLength, doValid, doName)
template <class T> void value(const std::string& k, unsigned n) { T t; vfReset(); (void)t.value(); auto a = vfHits[n]; const T& c = t; (void)c.value(); line(k + " value", a > 0 && vfHits[n] > a, ""); }
'''

PRES = {".h": "// ", ".txt": "# ", ".conf": "# ", ".dox": "/// ", ".xml": "<!-- -->"}


def kind_of(f):
    """kind of the generated file the code is appended to"""
    b = os.path.basename(f)
    return next((k for k in ("CMakeLists.txt", "layout.xml", "FieldBase.h", "MsgId.h", "Version.h") if b == k), None) or ("Common header" if b.endswith("Common.h") else os.path.basename(os.path.dirname(f)))


def appended(texts, r, st):
    """documented: any text can be appended to any generated file, files of fields, messages, interfaces and frames can be replaced"""
    R = Runs("comms", texts, [])
    out = []
    try:
        P = R.run()
        D = os.path.join(R.p.dir, "code")
        os.makedirs(D, exist_ok=True)
        copies = any("copyCodeFrom" in t or "reuseCode" in t for _, t in texts)
        pick = {}
        byk = {}
        for f in sorted(P):
            byk.setdefault(kind_of(f), []).append(f)
        for k in r.sample(sorted(byk), min(4, len(byk))):
            f = r.choice(byk[k])
            sfx = ".replace" if k in ("field", "message", "frame") and r.random() < 0.4 else ".append"
            pick[f] = (sfx, "%sVFAPP%d\n" % (PRES.get(os.path.splitext(f)[1], "// "), len(pick)), k)
        for f, (sfx, tx, _) in pick.items():
            q = os.path.join(D, f + sfx)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(tx)
        I = R.run("-c", D)
        st.case("appended %s" % sorted((f, x[0]) for f, x in pick.items()), **{"files with appended or replaced text": len(pick)})
        for f in P:
            if f not in I:
                out.append(("%s is not generated" % f, "append: file is missing"))
            elif f not in pick:
                if I[f] != P[f]:
                    # copyCodeFrom copies the appended text of the other element as well
                    other = ("options", "input", "dispatch", "factory", "doc", "frame", "CMakeLists.txt", "layout.xml", "FieldBase.h", "MsgId.h", "Version.h", "Common header")
                    adds = {x[1].strip() for x in pick.values() if x[2] not in other}
                    if copies and kind_of(f) not in other and [l for l in text(I[f]).split("\n") if l.strip() and l.strip() not in adds] == [l for l in text(P[f]).split("\n") if l.strip()]:
                        st.count["files with copied text"] += 1
                        continue
                    out.append(("%s is different because of text appended to other files" % f, "append: other file"))
            else:
                sfx, tx, k = pick[f]
                a, b = text(P[f]), text(I[f])
                ok = b.strip() == tx.strip() if sfx == ".replace" else [l for l in b.split("\n") if l.strip() and l.strip() != tx.strip()] == [l for l in a.split("\n") if l.strip()] and b.count(tx.strip()) == 1
                if not ok:
                    out.append(("%s%s has no expected effect" % (f, sfx), "append: %s of %s" % (sfx, k)))
        return out
    finally:
        R.close()


# hit number that is never used
NONE = 4095


def sources(model):
    """files of the elements other elements copy the code of"""
    src = {f.get("copyCode") for f in every_field(model)} | {m.get("copyCode") for _, m in cpp.entities(model, "messages")} | {m.get("copyCode") for _, m in cpp.entities(model, "interfaces")}
    return {"include/" + cpp.hdr("proto", p, k[:-1], cpp.cls(e["name"])) for k in ("fields", "messages") for p, e in cpp.entities(model, k) if ".".join(list(p) + [e["name"]]) in src or e["ext"] in src}


def set_attr(t, name, attrs):
    """adds attributes to the element with the name; None if there is no one such element"""
    ms = list(re.finditer(r'<(\w+)(\s[^<>]*?\bname="%s")' % re.escape(name), t))
    if len(ms) != 1:
        return None
    m = ms[0]
    end = t.index(">", m.start())
    if any(re.search(r"\b%s\b" % a, t[m.start():end]) for a in attrs):
        return None
    return t[:m.end()] + "".join(' %s="%s"' % a for a in attrs.items()) + t[m.end():]


def entities(model):
    c = cpp.codec.Codec(model)
    ref = cpp.referenced(model, c)
    return ([Ent("field", p, f) for p, f in cpp.entities(model, "fields") if f["ext"] in ref] + [Ent("message", p, m) for p, m in cpp.entities(model, "messages")]
            + [Ent("interface", p, i) for p, i in cpp.entities(model, "interfaces")] + [Ent("frame", p, f) for p, f in cpp.entities(model, "frames")])


def choose(ents, r, full):
    """gives snippets to some of the entities"""
    n = [0]

    def give(e, sfx):
        n[0] += 1
        e.sn[sfx] = (n[0], make_snippet(e, sfx, n[0]))
    p = min(0.6, 8.0 / max(1, len(ents)))
    for e in ents:
        must = [o for o, v in e.ovr.items() if v in (1, 2)]
        for o in must:
            give(e, o if o == "value" or r.random() < 0.5 else o + "_body")
        if e.src is None and not must and r.random() > p:
            continue
        have = {o for o in must}
        if e.kind in ("field", "message"):
            for o in OPS[1:]:
                if o not in have and r.random() < 0.3:
                    for s in r.choice(((o,), (o + "_body",), (o, o + "_body"))):
                        give(e, s)
            if e.kind == "field" and "value" not in have and e.obj["kind"] in ("int", "enum", "set", "float", "string", "data") and r.random() < 0.25:
                give(e, "value")
            c = r.random()
            if c < 0.12:
                give(e, "construct")
            elif c < 0.3:
                give(e, "construct_body")
            elif c < 0.4:
                give(e, "extend")
        for s in ("public", "protected", "private"):
            if r.random() < 0.3:
                give(e, s)
        if e.kind != "frame" and r.random() < 0.3:
            give(e, "inc")
        if r.random() < 0.3:
            give(e, "append")
        if e.kind == "interface" and r.random() < 0.15:
            give(e, "extend")


def program(ents, iface, base, probe):
    """source of the program that calls everything; base: without what only exists with the snippets"""
    inc = list(dict.fromkeys([iface[0]] + [e.hdr for e in ents]))
    src = PRELUDE + "".join('#include "%s"\n' % h for h in inc)
    body, exp, names = "", {}, set()
    if not base:
        for e in ents:
            for n in e.added("inc"):
                src += "#if !defined(VF_INC_%d) || VF_INC_%d != %d\n#error the includes of %s are not where they are expected\n#endif\n" % (n, n, n, e.hdr)
            for n in e.added("append"):
                src += "#if !defined(VF_APPEND_%d) || VF_APPEND_%d != %d\n#error the code appended to %s is not where it is expected\n#endif\n" % (n, n, n, e.hdr)
    src += PROBE
    for k, e in enumerate(ents):
        t = "T%d" % k
        body += "    using %s = %s;\n" % (t, e.type(iface[1]))
        if e.kind in ("field", "message"):
            hs = [e.ctor()] + [e.op(o) for o in OPS[1:]]
            order = ["read", "write", "refresh", "length", "valid", "name"]
            body += '    ops%s<%s>("%d", %s);\n' % ("F" if e.kind == "field" else "M", t, k, ", ".join(str(h or NONE) for h in hs))
            exp["%d construct" % k] = (1 if hs[0] else 0, "")
            for o, h in zip(order, hs[1:]):
                exp["%d %s" % (k, o)] = (1 if h else 0, RESULT[o](h) if h else None)
            if e.kind == "field" and e.op("value") and not base:
                body += '    value<%s>("%d", %d);\n' % (t, k, e.op("value"))
                exp["%d value" % k] = (1, "")
        if base:
            continue
        for sfx in ("public", "protected", "private"):
            for n in e.added(sfx):
                f = "vf%s%d" % (sfx.capitalize(), n)
                names.add(f)
                body += '    line("%d %s", VfHas_%s<%s>::value, std::to_string(int(decltype(VfDer_%s<%s>::template t<%s>(0))::value)));\n' % (k, f, f, t, f, t, t)
                exp["%d %s" % (k, f)] = (int(sfx == "public"), str(int(sfx != "private")))
        if "extend" in e.sn:
            n = e.sn["extend"][0]
            body += '    line("%d extend", %s::vfExtend%d(), "");\n' % (k, t, n)
            exp["%d extend" % k] = (n, "")
    src += "".join("VF_DET(%s)\n" % f for f in sorted(names))
    return src + "int main()\n{\n" + body + "    return 0;\n}\n", exp


def lines(p, exe):
    import subprocess
    r = subprocess.run([exe], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=cpp.gen_env(), timeout=120)
    if r.returncode:
        e = r.stderr.decode("utf-8", "replace")
        raise cpp.Failed("run", e, "run: " + cpp.crash_line(e, r.returncode))
    out = {}
    for l in r.stdout.decode("utf-8", "replace").split("\n")[:-1]:
        a = l.split(" ", 3)
        out[a[0] + " " + a[1]] = (int(a[2]), a[3] if len(a) > 3 else "")
    return out


def touched(model, ents):
    """entities the behaviour of which depends on the snippets given to others"""
    glob = {f["ext"]: f for _, f in cpp.entities(model, "fields")}
    custom = {e.obj["ext"] for e in ents if e.kind == "field" and (e.sn or e.src)}
    memo = {}

    def dep(f):
        k = id(f)
        if k in memo:
            return memo[k]
        memo[k] = False
        res = False
        if f["kind"] == "ref":
            res = glb(f["target"])
        for y in cpp.subfields(f):
            res = (glb(y["ext"]) if y.get("found") and y["ext"] in glob else dep(y)) or res
        if f.get("copyCode") and f.get("copyCode") != "":
            res = True
        memo[k] = res
        return res

    def glb(x):
        return x in custom or (x in glob and dep(glob[x]))
    return {id(e) for e in ents if e.kind in ("field", "message") and (dep(e.obj) if e.kind == "field" else any(dep(f) for f in e.obj["fields"] + [g for _, i in cpp.entities(model, "interfaces") for g in i["fields"]]))}


def injected(texts, r, st, dumper, ifopt=()):
    """violations (what, key, files) of commsdsl2comms with code that reports its execution"""
    text0 = texts[0][1]
    res = dumper([text0])
    ents = entities(res)
    t = text0
    # attributes of the schema that change what is done with the code
    for e in r.sample(ents, min(len(ents), 5)):
        if e.kind not in ("field", "message") or r.random() < 0.4:
            continue
        if r.random() < 0.75:
            o = r.choice(OPS if e.kind == "field" and e.obj["kind"] in ("int", "enum", "set", "float") else OPS[1:])
            a = {o + "Override": r.choice(OVR[1:])}
        else:
            c = [x for x in ents if x.kind == e.kind and x is not e and x.path == e.path and (x.kind == "message" or x.obj["kind"] == e.obj["kind"]) and ents.index(x) < ents.index(e)]
            if not c:
                continue
            x = r.choice(c)
            a = {"copyCodeFrom": ".".join(list(x.path) + [x.name])}
        t = set_attr(t, e.name, a) or t
    model = dumper([t]) if t != text0 else res
    if model is None:
        t, model = text0, res
    ents = entities(model)
    byref = {".".join(list(e.path) + [e.name]): e for e in ents if e.kind in ("field", "message")}
    for e in ents:
        if e.copy:
            e.src = byref.get(e.copy)
            if e.src is None:      # the source is not generated
                return []
    if any(v in (1, 2) for f in every_field(model) for v in f["ovr"] if not any(x.obj is f for x in ents)):
        return []
    choose(ents, r, False)
    files = [("s.xml", t)]
    p = cpp.Proj(files, [], run=False)
    try:
        code = os.path.join(p.dir, "code")
        os.makedirs(code, exist_ok=True)
        for e in ents:
            for s, (n, tx) in e.sn.items():
                q = os.path.join(code, e.rel + "." + s)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write(tx)
        p.generate(extra=["-c", code] + (["--code-inject-comments"] if r.random() < 0.3 else []))
        ifs = cpp.entities(model, "interfaces")
        ie = r.choice([e for e in ents if e.kind == "interface"]) if ifs else None
        iface = (ie.hdr, ie.type("")) if ie else (cpp.hdr("proto", (), "Message"), "proto::Message<>")
        desc = {"snippets.txt": "\n".join("%s.%s: %r" % (e.rel, s, x[1]) for e in ents for s, x in e.sn.items())}
        src, exp = program(ents, iface, False, None)
        st.case("snippets " + desc["snippets.txt"] + t, **{"projects with executed snippets": 1, "snippets": sum(len(e.sn) for e in ents)})
        for e in ents:
            for s in e.sn:
                st.count["%s .%s" % (e.kind, s)] += 1
            for o, v in e.ovr.items():
                if v:
                    st.count["%sOverride %s" % (o, OVR[v])] += 1
            if e.src:
                st.count["code copied from another " + e.kind] += 1
        got = lines(p, p.compile(src, "inj"))
        out = []

        def bad(k, why):
            e = ents[int(k.split()[0])]
            out.append(("%s %s, %s: %s (snippets %s, overrides %r%s)" % (e.kind, e.scope, k.split()[1], why, sorted(e.sn), {o: v for o, v in e.ovr.items() if v}, ", code of " + e.copy if e.copy else ""),
                        "executed %s %s: %s" % (e.kind, re.sub(r"\d", "", k.split()[1]), why.split(":")[0]), desc))
        for k, (h, x) in exp.items():
            g = got.get(k)
            if g is None or (h and g[0] != h and not (g[0] > 0 and h == 1)) or (not h and g[0]):
                bad(k, "the snippet is %s: %r" % ("not used" if h else "used", g))
            elif x is not None and g[1] != x:
                bad(k, "unexpected result: %r instead of %r" % (g[1], x))
        st.count["calls checked"] += len(exp)
        if out:
            return out[:2]
        # operations without a snippet are what they are without any
        if not any(v in (1, 2) for e in ents for v in e.ovr.values()):
            dirty = touched(model, ents)
            p.generate(out=os.path.join(p.dir, "b"), files=[p.files[0]])
            src, _ = program(ents, iface, True, None)
            exe = p.compile(src, "base", inc=os.path.join(p.dir, "b", "include"))
            ref = lines(p, exe)
            for k, g in got.items():
                e = ents[int(k.split()[0])]
                op = k.split()[1]
                if e.kind not in ("field", "message") or id(e) in dirty or op not in OPS[1:] or e.op(op) or (ie and (ie.sn)):
                    continue
                if {"construct", "construct_body", "extend", "value"} & set(e.sn) or (e.src and (e.src.sn or e.src.src)):
                    continue
                # what the generated operations call
                if any(e.op(o) for o in OPS):
                    if op in ("read", "write", "refresh", "valid", "length") and (e.op("valid") or e.op("read") or e.op("length") or e.op("value")):
                        continue
                st.count["calls compared with the project without snippets"] += 1
                if ref[k] != g:
                    bad(k, "the behaviour of the operation without a snippet has changed: %r instead of %r" % (g, ref[k]))
        return out[:2]
    except cpp.Failed as x:
        raise cpp.Failed(x.stage, x.text + "\n" + "\n".join("%s.%s: %r" % (e.rel, s, y[1]) for e in ents for s, y in e.sn.items()), x.key)
    finally:
        p.close()


def every_field(model):
    def rec(f):
        yield f
        for y in cpp.subfields(f):
            yield from rec(y)
    for kind in ("fields",):
        for _, f in cpp.entities(model, kind):
            yield from rec(f)
    for kind in ("messages", "interfaces"):
        for _, m in cpp.entities(model, kind):
            for f in m["fields"]:
                yield from rec(f)
    for _, fr in cpp.entities(model, "frames"):
        for l in fr["layers"]:
            for v in l.values():
                if isinstance(v, dict) and "minLen" in v:
                    yield from rec(v)
