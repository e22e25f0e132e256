"""C10: which customisation entries the generated options must have, and which option every generated class must take."""
from . import codec, cpp
from .cpp import cls, entities, scope, hdr

SEQ = ("string", "data", "list")


class Opts:
    def __init__(self, model, level, main="proto", mainns=False):
        self.c = codec.Codec(model)
        self.level, self.main, self.mainns = level, main, mainns
        self.glob = {f["ext"]: f for _, f in entities(model, "fields")}
        self.entries = {}          # path in the options -> tag
        self.probes = []           # (name, C++ type with %s for the options, expectation function of the option set)
        self.absent = []           # paths that must not exist
        self.headers = []
        self.where = {}
        self.model = model
        ref = cpp.referenced(model, self.c)
        for p, f in entities(model, "fields"):
            if f["ext"] in ref:
                self.where[f["ext"]] = self.path(p, "field")
        for p, f in entities(model, "fields"):
            if f["ext"] in ref:
                self.headers.append(hdr(main, p, "field", cls(f["name"])))
                self.field(f, self.path(p, "field"), scope(main, p, "field"), "", "%s", 0)
        for p, m in entities(model, "messages"):
            self.headers.append(hdr(main, p, "message", cls(m["name"])))
            n = cls(m["name"])
            own = self.path(p, "message") + (n,)
            has = self.full() or m["custom"] or (self.level == "limited" and m["sender"] != 0)
            self.entry(own, has)
            self.probes.append(("message " + m["name"], "%s<Iface, %%s>" % scope(main, p, "message", n), lambda kind, own=own, m=m: self.msg(kind, own, m)))
            for f in m["fields"]:
                self.field(f, self.path(p, "message") + (n + "Fields",), scope(main, p, "message", n + "Fields") + "<%s>", "", "", m["since"] or 0)
        for p, fr in entities(model, "frames"):
            self.frame(p, fr)

    def full(self):
        return self.level == "full"

    def path(self, p, *rest):
        return ((self.main,) if self.mainns else ()) + tuple(p) + rest

    def entry(self, path, has):
        if has:
            self.entries.setdefault(path, len(self.entries) + 1)
        else:
            self.absent.append(path)

    def custom(self, f):
        if self.full() or f["custom"]:
            return True
        if self.level == "none":
            return False
        if f["kind"] == "ref":
            return self.custom(self.glob[f["target"]]) if f["target"] in self.glob else False
        return f["kind"] in SEQ

    def field(self, f, opath, cscope, _, top, psince):
        """opath: path of the enclosing scope in the options; cscope: C++ scope (top is the template parameter of global fields)"""
        n = cls(f["name"])
        own = opath + (n,)
        self.entry(own, self.custom(f))
        vopt = isinstance(self.c.make(f, psince), codec.VOpt)
        t = "%s::%s%s%s" % (cscope, n, "Field" if vopt else "", "<%s>" % top if top else "")
        self.probes.append(("field " + "::".join(own), t, lambda kind, own=own, f=f: self.fld(kind, own, f)))
        if f["kind"] == "ref":
            return
        inner = cscope + "::" + n + "Members" + ("<%s>" % top if top else "")
        sub = (f["since"] or 0) if f["kind"] == "bundle" else None
        for y in cpp.subfields(f):
            if not (y.get("found") and y["ext"] in self.glob):
                self.field(y, opath + (n + "Members",), inner, "", "", sub if f["kind"] == "bundle" else None)

    def frame(self, p, fr):
        n = cls(fr["name"])
        base = self.path(p, "frame") + (n + "Layers",)
        cs = scope(self.main, p, "frame", n + "Layers") + "<%s>"
        self.headers.append(hdr(self.main, p, "frame", n))
        for l in fr["layers"]:
            ln = cls(l["name"])
            own = base + (ln,)
            self.entry(own, self.full() or l["kind"] in ("id", "custom"))
            if l["kind"] == "id":
                self.probes.append(("layer " + "::".join(own), "%s::template %s<Iface, std::tuple<>>" % (cs, ln), lambda kind, own=own: self.idl(kind, own, p)))
            if l["kind"] == "payload":
                fo = base + (ln + "Members", "Field")
                self.entry(fo, True)
                self.probes.append(("field " + "::".join(fo), "%s::%sMembers::Field" % (cs, ln), lambda kind, own=fo: self.payload(kind, own)))
            for v in l.values():
                if isinstance(v, dict) and "minLen" in v and "kind" in v and not (v.get("found") and v["ext"] in self.glob):
                    self.field(v, base + (ln + "Members",), cs + "::" + ln + "Members", "", "", None)

    # ------------------------------------------------ what the classes must have
    def own(self, own):
        return [str(self.entries[own])] if own in self.entries else []

    def fld(self, kind, own, f):
        r = self.own(own)
        if r and kind == "DataView" and f["kind"] in ("string", "data"):
            r.append("OrigView")
        if r and kind == "BareMetal" and f["kind"] in SEQ:
            r.append("FixedUseFixed" if f.get("fixedLen") or f.get("count") else "FixedStorage32")
        if f["kind"] == "ref":
            t = self.glob[f["target"]]
            r += self.fld(kind, self.where[f["target"]] + (cls(t["name"]),), t)
        return r

    def payload(self, kind, own):
        return self.own(own) + {"DataView": ["OrigView"], "BareMetal": ["FixedStorage256"]}.get(kind, [])

    def factory(self, p):
        """namespace of the factory to be used by the frames of the given namespace"""
        while True:
            ms = [mp for mp, _ in entities(self.model, "messages")]
            if any((mp[:len(p)] == tuple(p) if p else not mp) for mp in ms):
                return p
            if len(p) < 2:
                return None
            p = p[:-1]

    def idl(self, kind, own, p):
        r = self.own(own)
        if kind == "BareMetal":
            r.append("InPlace")
        if kind.endswith("MsgFactory"):
            fp = self.factory(p)
            if fp is not None:
                r += ["FactoryTempl:%s" % scope(self.main, fp, "factory")]
        return r

    def msg(self, kind, own, m):
        r = self.own(own)
        if not r or kind not in ("Client", "Server") or m["sender"] == 0:
            return r
        return r + (["NoRead", "NoDispatch"] if (m["sender"] == 1) == (kind == "Client") else ["NoWrite", "NoRefresh"])

    # ------------------------------------------------ C++
    def tags(self):
        """an options structure with a distinguishable option for every expected entry and nothing else"""
        tree = {}
        for path, tag in self.entries.items():
            d = tree
            for x in path[:-1]:
                d = d.setdefault(x, {})
            d[path[-1]] = tag

        def emit(d, ind):
            s = ""
            for k, v in d.items():
                if isinstance(v, dict):
                    s += "%sstruct %s\n%s{\n%s%s};\n" % (ind, k, ind, emit(v, ind + "  "), ind)
                else:
                    s += "%susing %s = Tag<%d>;\n" % (ind, k, v)
            return s
        return "struct Tags\n{\n%s};\n" % emit(tree, "  ")

    def factories(self):
        """C++: which namespace the factory selected by an option belongs to"""
        out, names = "", set()
        for p, _ in entities(self.model, "frames"):
            fp = self.factory(p)
            if fp is not None:
                names.add(scope(self.main, fp, "factory"))
                self.headers.append(hdr(self.main, fp, "factory", "AllMessagesDynMemMsgFactory"))
        for n in sorted(names):
            out += '    if (std::is_same<T, %s::AllMessagesDynMemMsgFactory<Iface, O>>::value) { return "%s"; }\n' % (n, n)
        return "template <typename O, typename T> std::string facName()\n{\n%s    return \"unexpected\";\n}\n" % out

    def source(self, iface, kinds):
        """kinds: [(name, options header, options class template)]"""
        fac = self.factories()
        s = '#include "refl/refl.h"\n' + "".join('#include "%s"\n' % h for h in dict.fromkeys(self.headers + [iface[0]] + [h for _, h, _ in kinds]))
        s += "using Iface = %s;\n" % iface[1] + fac + SUPPORT + self.tags()
        s += "struct P { const char* n; std::string (*f)(); };\n"
        for i, (_, _, t) in enumerate(kinds):
            s += "using O%d = %s;\n" % (i, t % "Tags" if "%s" in t else t)
        s += "static const P probes[] = {\n"
        for i in range(len(kinds)):
            for n, t, _ in self.probes:
                s += '  {"%s", &optsOf<O%d, %s>},\n' % (n, i, t.replace("%s", "O%d" % i))
        s += '  {"", nullptr}};\n'
        for i, path in enumerate(self.absent):
            e = "::".join(path)
            s += "template <typename T, typename = void> struct A%d { static constexpr bool v = false; };\ntemplate <typename T> struct A%d<T, std::void_t<typename T::%s>> { static constexpr bool v = true; };\n" % (i, i, e)
        pres = list(self.entries)
        for i, path in enumerate(pres):
            s += "template <typename T, typename = void> struct B%d { static constexpr bool v = false; };\ntemplate <typename T> struct B%d<T, std::void_t<typename T::%s>> { static constexpr bool v = std::is_same<typename T::%s, comms::option::app::EmptyOption>::value; };\n" % (i, i, "::".join(path), "::".join(path))
        s += "using Def = %s::options::DefaultOptions;\n" % self.main
        s += "static const bool absent[] = {%s};\n" % ", ".join(["A%d<Def>::v" % i for i in range(len(self.absent))] + ["false"])
        s += "static const bool present[] = {%s};\n" % ", ".join(["B%d<Def>::v" % i for i in range(len(pres))] + ["true"])
        s += "static void run(std::string& o, char cmd, std::size_t idx, refl::In&)\n{\n"
        s += "    if (cmd == 'p') { o += '\"' + probes[idx].f() + '\"'; }\n    else if (cmd == 'a') { o += absent[idx] ? '1' : '0'; }\n    else { o += present[idx] ? '1' : '0'; }\n}\n"
        return s + cpp.MAIN


SUPPORT = r'''
template <int N> struct Tag { using VfTag = comms::option::vftag::User; static constexpr int n = N; };
template <typename O, typename T> struct OptName { static std::string s() { return ""; } };
template <typename O, int N> struct OptName<O, Tag<N>> { static std::string s() { return std::to_string(N); } };
template <typename O, auto N> struct OptName<O, comms::option::app::FixedSizeStorage<N>> { static std::string s() { return "FixedStorage" + std::to_string(N); } };
#define VFN(o, n) template <typename O> struct OptName<O, comms::option::app::o> { static std::string s() { return #n; } };
VFN(OrigDataView, OrigView)
VFN(SequenceFixedSizeUseFixedSizeStorage, FixedUseFixed)
VFN(InPlaceAllocation, InPlace)
VFN(NoReadImpl, NoRead)
VFN(NoWriteImpl, NoWrite)
VFN(NoRefreshImpl, NoRefresh)
VFN(NoDispatchImpl, NoDispatch)
template <typename O, template <class, class, class...> class T> struct OptName<O, comms::option::app::MsgFactoryTempl<T>> { static std::string s() { return "FactoryTempl:" + facName<O, T<Iface, std::tuple<>>>(); } };
template <typename O, typename... T> std::string names(comms::vf::List<T...>*)
{
    std::string r;
    ((r += OptName<O, T>::s().empty() ? "" : (r.empty() ? "" : " ") + OptName<O, T>::s()), ...);
    return r;
}
template <typename O, typename F> std::string optsOf() { return names<O>(static_cast<typename F::VfOpts*>(nullptr)); }
'''
