"""C06: message bundles, aliases, dispatch functions, factories and the enumeration of ids, observed in a driver that
instantiates all of them; the expected contents come from the reference model."""
import os, re
from . import cpp
from .cpp import cls, scope, hdr, entities

SIDES = [("Messages", None), ("ClientInputMessages", 1), ("ServerInputMessages", 2)]  # sender codes: 0 both, 1 client, 2 server


def has_frames(ns):
    return bool(ns["frames"]) or any(has_frames(n) for n in ns["namespaces"])


def any_factory(model):
    return any(has_frames(n) for n in model["namespaces"])


def expected(model, extra):
    """[(namespace path, bundle name without 'Messages' suffix kind, [message indices])] and message list in id order"""
    msgs = [(p, m) for p, m in entities(model, "messages")]
    msgs.sort(key=lambda x: (x[1]["id"], x[1]["order"]))
    out = []
    for top in model["namespaces"]:
        for p, ns in cpp.walk(top, (top["name"],) if top["name"] else ()):
            if not has_frames(ns):
                continue
            own = [i for i, (mp, _) in enumerate(msgs) if (mp[:len(p)] == tuple(p) if p else not mp)]
            groups = [("All", "", own)]
            for pl in model["platforms"]:
                groups.append((cls(pl), cls(pl), [i for i in own if not msgs[i][1]["platforms"] or pl in msgs[i][1]["platforms"]]))
            for n, refs in extra:
                groups.append((cls(n), cls(n), [i for i in own if msgs[i][1]["extNs"] in refs]))
            for allname, pre, g in groups:
                for suf, side in SIDES:
                    name = (allname if side is None else pre) + suf
                    out.append((tuple(p), name, [i for i in g if side is None or msgs[i][1]["sender"] != side]))
    return msgs, out


SUPPORT = r'''
template <typename T, typename... R> struct At { static constexpr int v = -1; };
template <typename Msgs> struct Ix
{
    template <typename M, std::size_t I = 0> static constexpr int of()
    {
        if constexpr (I == std::tuple_size<Msgs>::value) { return -1; }
        else if constexpr (std::is_same<M, std::tuple_element_t<I, Msgs>>::value) { return static_cast<int>(I); }
        else { return of<M, I + 1U>(); }
    }
    template <typename B, std::size_t I = 0> static int dyn(B* p)
    {
        if constexpr (I == std::tuple_size<Msgs>::value) { return -1; }
        else { return dynamic_cast<std::tuple_element_t<I, Msgs>*>(p) ? static_cast<int>(I) : dyn<B, I + 1U>(p); }
    }
    template <typename... T> static void list(std::string& o, std::tuple<T...>*) { ((o += (o.back() == '[' ? "" : ","), o += std::to_string(of<T>())), ...); }
};
template <typename Msgs> struct H
{
    int n = 0, i = -2;
    template <typename M> void handle(M&) { ++n; i = Ix<Msgs>::template of<M>(); }
    std::string s() const { return std::to_string(n) + ":" + std::to_string(i); }
};
static void lst(std::string& o, const char* k) { refl::key(o, k); o += '['; }
static void itm(std::string& o, const std::string& v) { if (o.back() != '[') { o += ','; } o += '"' + v + '"'; }
template <typename Msgs, typename I, typename FA, typename TIds> void fact(std::string& o, const TIds& ids)
{
    FA f;
    lst(o, "f");
    for (auto id : ids) {
        for (unsigned x = 0; x < 4U; ++x) {
            auto r = comms::MsgFactoryCreateFailureReason::NumOfValues;
            auto p = f.createMsg(static_cast<typename I::MsgIdParamType>(id), x, &r);
            itm(o, (p ? std::to_string(Ix<Msgs>::dyn(p.get())) : std::string("-")) + "/" + std::to_string(static_cast<int>(r)));
        }
        auto q = f.createMsg(static_cast<typename I::MsgIdParamType>(id));
        itm(o, (q ? std::to_string(Ix<Msgs>::dyn(q.get())) : std::string("-")) + "*" + std::to_string(f.msgCount(static_cast<typename I::MsgIdParamType>(id))));
        if (f.createGenericMsg(static_cast<typename I::MsgIdParamType>(id))) { itm(o, "generic"); }
    }
    o += ']';
    refl::key(o, "u"); o += FA::hasUniqueIds() ? "1" : "0";
    refl::key(o, "o"); o += (f.canAllocate() && !FA::isDispatchPolymorphic() && !FA::hasInPlaceAllocation() && !FA::hasGenericMessageSupport()) ? "1" : "0";
}
'''


class Driver:
    def __init__(self, proj, model, extra=(), rng=None, main="proto"):
        self.p = proj
        ifs = entities(model, "interfaces")
        i = rng.choice(ifs) if ifs else None
        h, t = cpp.iface_type(main, ifs, i)
        self.msgs, self.bundles = expected(model, extra)
        self.problems = []
        inc = [h]
        mt = [scope(main, p, "message", cls(m["name"])) for p, m in self.msgs]
        inc += [hdr(main, p, "message", cls(m["name"])) for p, m in self.msgs]
        src = "using I = %s;\nusing Msgs = std::tuple<%s>;\n" % (t, ",\n    ".join(x + "<I>" for x in mt))
        body = ""
        self.ids = sorted({m["id"] for _, m in self.msgs})
        probe = sorted({max(0, x + d) for x in self.ids for d in (-1, 0, 1)} | {0})
        bits = self.idbits(model)
        self.probe = [x for x in probe if x < (1 << bits)]
        self.plan = []
        self.files(model, main)
        for n, (p, name, ix) in enumerate(self.bundles):
            inc.append(hdr(main, p, "input", name))
            base = scope(main, p, "input", name)
            s = "    if (idx == %d) {\n" % n
            s += '        lst(o, "t"); Ix<Msgs>::list(o, static_cast<%s<I>*>(nullptr)); o += "]";\n' % base
            mac = self.macro(main, p, name)
            if mac:
                s = ("namespace al%d { %s(Pre, Suf, I, %s) %s_DEFAULT_OPTIONS(Dp, Ds, I) }\n" % (n, mac, scope(main, (), "options", "DefaultOptions"), mac)) + "//BODY\n" + s
                # the short alias names collide when messages of different namespaces share a name, such schemas have unique names
                s += '        lst(o, "a");' + "".join(' itm(o, std::to_string(Ix<Msgs>::of<al%d::Pre%sSuf>())); itm(o, std::to_string(Ix<Msgs>::of<al%d::Dp%sDs>()));' % (
                    n, cls(self.msgs[k][1]["name"]), n, cls(self.msgs[k][1]["name"])) for k in ix) + ' o += "]";\n'
            if self.msgs_in(model, p):
                core = name[:-len("Messages")]
                fn = "Dispatch%sMessage" % ("" if core == "All" else core)
                low = fn[0].lower() + fn[1:]
                inc.append(hdr(main, p, "dispatch", fn))
                inc.append(hdr(main, p, "factory", name + "DynMemMsgFactory"))
                ns = scope(main, p, "dispatch")
                opt = scope(main, (), "options", "DefaultOptions")
                s += '        lst(o, "d");\n'
                for k in ix:
                    m = self.msgs[k][1]
                    same = [j for j in ix if self.msgs[j][1]["id"] == m["id"]]
                    x = same.index(k)
                    s += "        { %s<I> m; I& b = m; H<Msgs> h;\n" % mt[k]
                    s += "          %s::%s<%s>(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (ns, low, opt, m["id"], x)
                    s += "          %s::%sDefaultOptions(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (ns, low, m["id"], x)
                    dsp = fn[len("Dispatch"):]
                    dsp = ns + "::" + ("MsgDispatcher" if dsp == "Message" else dsp[:-len("Message")] + "MsgDispatcher")
                    s += "          %s<>::dispatch(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (dsp, m["id"], x)
                    s += "          %s<>::dispatch<int>(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (dsp, m["id"], x)
                    if x == 0:
                        s += "          %s::%s<%s>(%sULL, b, h); itm(o, h.s()); h = {};\n" % (ns, low, opt, m["id"])
                        s += "          %s::%sDefaultOptions(%sULL, b, h); itm(o, h.s()); h = {};\n" % (ns, low, m["id"])
                        s += "          %s<>::dispatch(%sULL, b, h); itm(o, h.s()); h = {};\n" % (dsp, m["id"])
                        s += "          %s<>::dispatch<int>(%sULL, b, h); itm(o, h.s()); h = {};\n" % (dsp, m["id"])
                    if len(same) > 1 or len({self.msgs[j][1]["id"] for j in ix}) == len(ix):  # otherwise not specified
                        s += "          %s::%s<%s>(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (ns, low, opt, m["id"], len(same))
                        s += "          %s::%sDefaultOptions(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (ns, low, m["id"], len(same))
                        s += "          %s<>::dispatch(%sULL, %dU, b, h); itm(o, h.s()); h = {};\n" % (dsp, m["id"], len(same))
                    s += "        }\n"
                have = {self.msgs[k][1]["id"] for k in ix}
                if mt:
                    for q in self.probe:
                        if q not in have:
                            s += "        { %s<I> m; I& b = m; H<Msgs> h; %s::%s<%s>(%sULL, 0U, b, h); itm(o, h.s()); h = {}; %s<>::dispatch(%sULL, b, h); itm(o, h.s()); }\n" % (
                                mt[0], ns, low, opt, q, dsp_of(ns, fn), q)
                s += '        o += "]";\n'
                s += "        fact<Msgs, I, %s<I, %s>>(o, std::vector<unsigned long long>{%s});\n" % (
                    scope(main, p, "factory", name + "DynMemMsgFactory"), opt, ", ".join("%dULL" % q for q in self.probe))
            s += "    }\n"
            if "//BODY\n" in s:
                a, s = s.split("//BODY\n")
                src += a
            body += s
        # enumerations of ids
        self.enums = []
        for top in model["namespaces"]:
            for p, ns in cpp.walk(top, (top["name"],) if top["name"] else ()):
                if not ns["interfaces"] and (p or ifs):
                    continue
                e = self.idenum(model, tuple(p), ns)
                if e is None:
                    continue
                inc.append(hdr(main, p, "MsgId"))
                body += '    if (idx == %d) { lst(o, "m"); %so += "]"; }\n' % (10000 + len(self.enums), "".join(
                    " itm(o, std::to_string(static_cast<unsigned long long>(%s)));" % scope(main, p, "MsgId_" + k) for k, _ in e))
                self.enums.append((tuple(p), e))
        self.src = '#include "refl/refl.h"\n' + "".join('#include "%s"\n' % x for x in dict.fromkeys(inc)) + SUPPORT + src
        self.src += "static void run(std::string& o, char, std::size_t idx, refl::In&)\n{\n    o += '{';\n" + body + "    o += '}';\n}\n" + cpp.MAIN

    def idbits(self, model):
        r = 64
        for _, f in entities(model, "fields"):
            if f["sem"] == 2:
                r = min(r, f.get("bitLen") or f["maxLen"] * 8)
        return r

    def idenum(self, model, p, ns):
        def find(n):
            r = [f for f in n["fields"] if f["sem"] == 2]
            for x in n["namespaces"]:
                r += find(x)
            return r

        def full(mp, m):
            return "_".join(list(mp) + [cls(m["name"])])
        fs = find(ns)
        if not fs and not p:
            fs = [f for t in model["namespaces"] for f in find(t)]
        if len(fs) == 1:
            return [(v["name"], v["val"]) for v in fs[0]["values"]]
        ms = [(mp, m) for mp, m in self.msgs if (mp[:len(p)] == p if p else not mp)]
        if not ms and not p:
            ms = self.msgs
        return [(full(mp, m), m["id"]) for mp, m in ms]

    def msgs_in(self, model, p):
        return any((mp[:len(p)] == p if p else not mp) for mp, _ in self.msgs)

    def macro(self, main, p, name):
        f = os.path.join(self.p.out, "include", hdr(main, p, "input", name))
        try:
            t = open(f, errors="replace").read()
        except OSError:
            return None
        m = re.search(r"#define (\w+_ALIASES_FOR_\w+?)\(prefix_, suffix_, interface_, opts_\)", t)
        if not m:
            self.problems.append("no alias macro in " + hdr(main, p, "input", name))
            return None
        return m.group(1)

    def files(self, model, main):
        root = os.path.join(self.p.out, "include")
        want = set()
        for p, name, ix in self.bundles:
            want.add(hdr(main, p, "input", name))
            if self.msgs_in(model, p):
                core = name[:-len("Messages")]
                want.add(hdr(main, p, "dispatch", "Dispatch%sMessage" % ("" if core == "All" else core)))
                want.add(hdr(main, p, "factory", name + "DynMemMsgFactory"))
        have = set()
        for d, _, fs in os.walk(root):
            if os.path.basename(d) in ("input", "dispatch", "factory"):
                have |= {os.path.relpath(os.path.join(d, f), root) for f in fs}
        for x in sorted(want - have):
            self.problems.append("missing file " + x)
        for x in sorted(have - want):
            self.problems.append("unexpected file " + x)

    def expect(self, model, n):
        p, name, ix = self.bundles[n]
        e = dict(t=ix)
        if self.macro("proto", p, name):
            e["a"] = [str(k) for k in ix for _ in (0, 1)]
        if not self.msgs_in(model, p):
            return e
        d = []
        for k in ix:
            m = self.msgs[k][1]
            same = [j for j in ix if self.msgs[j][1]["id"] == m["id"]]
            d += ["1:%d" % k] * 4
            if same.index(k) == 0:
                d += ["1:%d" % k] * 4
            if len(same) > 1 or len({self.msgs[j][1]["id"] for j in ix}) == len(ix):
                d += ["1:-1"] * 3
        have = {self.msgs[k][1]["id"] for k in ix}
        for q in self.probe:
            if q not in have:
                d += ["1:-1"] * 2
        f = []
        for q in self.probe:
            same = [j for j in ix if self.msgs[j][1]["id"] == q]
            for x in range(4):
                f.append("%d/0" % same[x] if x < len(same) else "-/1")
            f.append("%s*%d" % (same[0] if same else "-", len(same)))
        e.update(d=d, f=f, u=int(len(have) == len(ix)), o=1)
        return e

    build = cpp.MsgDriver.build
    talk = cpp.MsgDriver.talk


def dsp_of(ns, fn):
    d = fn[len("Dispatch"):]
    return ns + "::" + ("MsgDispatcher" if d == "Message" else d[:-len("Message")] + "MsgDispatcher")

