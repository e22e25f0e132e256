"""Runs what commsdsl2emscripten generates on top of a stand-in for embind (mini/emscripten) and drives it the way JavaScript would: by name only."""
import os, re
from . import codec, cpp, desc, frames
from .codec import Opt, VOpt, Seq, Variant, Fields, Bitfield, Num, Float

HEAD = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
using vf::Val; using vf::Vals;
static std::string vfOut;
static void vfPut(char c) { vfOut.push_back(c); }
static void vfPut(const std::string& s) { vfOut += s; }
static void vfPstr(const std::string& s) { vfPut('"'); for (auto c : s) { if (c == '"' || c == '\\') { vfPut('\\'); } vfPut(c); } vfPut('"'); }
static std::string vfNext() { std::string s; if (!(std::cin >> s)) { std::exit(0); } return s; }
static long long vfNum() { auto s = vfNext(); return s[0] == '-' ? std::strtoll(s.c_str(), nullptr, 10) : static_cast<long long>(std::strtoull(s.c_str(), nullptr, 10)); }
static std::vector<std::uint8_t> vfHex() { auto s = vfNext(); std::vector<std::uint8_t> r; if (s == "-") { return r; } for (std::size_t i = 0; i + 1 < s.size(); i += 2) { r.push_back(static_cast<std::uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16))); } return r; }
template <typename T> void vfPhex(const T& b) { vfPut('"'); char t[3]; for (auto x : b) { std::snprintf(t, 3, "%02x", static_cast<unsigned>(static_cast<std::uint8_t>(x))); vfPut(t); } vfPut('"'); }
static const std::string vfDataBuf("@DATABUF@");
static Val C(const Val& o, const char* n, const Vals& a = Vals()) { return vf::call(o, n, a); }
static Val I(long long i) { Val r; r.k = Val::Int; r.i = i; r.neg = i < 0; return r; }
static Val B(bool i) { Val r; r.k = Val::Bool; r.i = i; return r; }
static Val A(const std::vector<std::uint8_t>& b) { Val r; r.k = Val::Arr; r.a = b; return r; }
static Val S(const std::vector<std::uint8_t>& b) { Val r; r.k = Val::Str; r.s.assign(b.begin(), b.end()); return r; }
static vf::Class& cls(const std::string& n) { auto i = vf::reg().classes.find(n); if (i == vf::reg().classes.end()) { throw vf::Err(n + " is not defined"); } return i->second; }
static const std::string& nameOf(const Val& o) { if (o.k != Val::Obj || !vf::byType(*o.t)) { throw vf::Err("an object of registered class is expected"); } return vf::byType(*o.t)->name; }
static Val N(const std::string& n, const Vals& a = Vals())
{
    auto& c = cls(n); auto i = c.ctors.find(a.size());
    if (i == c.ctors.end()) { throw vf::Err(n + " has no constructor with " + std::to_string(a.size()) + " arguments"); }
    vf::bound(i->second, n + " constructor");
    return i->second.f(nullptr, a);
}
static Val F(const std::string& n, const Vals& a)
{
    auto i = vf::reg().funcs.find(n);
    if (i == vf::reg().funcs.end()) { throw vf::Err(n + " is not defined"); }
    vf::bound(i->second, n);
    return i->second.f(nullptr, a);
}
static Val St(const Val& o, const char* n, const Vals& a = Vals())
{
    auto& c = cls(nameOf(o)); auto i = c.statics.find(n);
    if (i == c.statics.end()) { throw vf::Err(c.name + "." + n + " is not a class function"); }
    vf::bound(i->second, c.name + "." + n);
    return i->second.f(nullptr, a);
}
static Val Get(const Val& o, const char* n) { auto& c = cls(nameOf(o)); auto i = c.getters.find(n); if (i == c.getters.end()) { throw vf::Err(c.name + "." + n + " is not a property"); } return i->second.f(&o, Vals()); }
static void Put(const Val& o, const char* n, const Val& v) { auto& c = cls(nameOf(o)); auto i = c.setters.find(n); if (i == c.setters.end()) { throw vf::Err(c.name + "." + n + " cannot be set"); } i->second.f(&o, Vals{v}); }
static bool has(const Val& o, const char* n) { return vf::find(&cls(nameOf(o)), n) != nullptr; }
static bool hasSt(const Val& o, const char* n) { return cls(nameOf(o)).statics.count(n) != 0; }
static bool T(const Val& v) { if (v.k != Val::Bool) { throw vf::Err("not a boolean"); } return v.i != 0; }
static std::string num(const Val& v) { if (v.k != Val::Int && v.k != Val::Enum) { throw vf::Err("not a number"); } return v.i < 0 && !v.neg ? std::to_string(static_cast<unsigned long long>(v.i)) : std::to_string(v.i); }
static void same(bool x, const std::string& what) { if (!x) { throw vf::Err("inconsistent: " + what); } }
static Val deref(Val f) { while (has(f, "ref")) { auto g = C(f, "ref"); same(g.p == f.p, "ref() of " + nameOf(f)); f = g; } return f; }
static std::string handlerOf(const Val& f)
{
    // named after the field itself, not after its optional wrapper
    auto n = nameOf(f);
    if (n.size() > 5 && n.substr(n.size() - 5) == "Field" && !vf::reg().classes.count(n + "_Handler")) { n.resize(n.size() - 5); }
    return n + "_Handler";
}
static std::vector<std::uint8_t> bytes(const Val& buf)
{
    std::vector<std::uint8_t> r; auto n = C(buf, "size").i;
    for (long long i = 0; i < n; ++i) { r.push_back(static_cast<std::uint8_t>(C(buf, "get", {I(i)}).i)); }
    Val p = buf; auto v = F("dataBufMemoryView", {p});
    same(v.a == r, "dataBufMemoryView");
    return r;
}
static Val buffer(const std::vector<std::uint8_t>& b) { if (b.size() % 2) { return F("jsArrayToDataBuf", {A(b)}); } auto r = N(vfDataBuf); for (auto x : b) { C(r, "push_back", {I(x)}); } return r; }
static void ens(const std::string& name, const std::type_info* t, std::vector<std::pair<std::string, std::string> > exp)
{
    auto i = vf::reg().enums.find(name);
    if (i == vf::reg().enums.end()) { throw vf::Err("enumeration " + name + " is not registered"); }
    if (t) { same(*i->second.t == *t, "type of enumeration " + name); }
    if (i->second.values.size() != exp.size()) { std::string g; for (auto& v : i->second.values) { g += " " + v.first; } g += " /"; for (auto& v : exp) { g += " " + v.first; } throw vf::Err("inconsistent: values of enumeration " + name + ":" + g); }
    for (auto& e : exp) {
        bool ok = false;
        for (auto& v : i->second.values) { ok = ok || (v.first == e.first && (e.second.empty() || num(v.second) == e.second)); }
        same(ok, "value " + e.first + " of enumeration " + name);
    }
}
static void enm(const std::string& name, const std::type_info* t, std::vector<std::pair<std::string, std::string> > exp)
{
    auto i = vf::reg().et.find(*t);
    if (i == vf::reg().et.end()) { throw vf::Err("enumeration " + name + " is not registered"); }
    auto& e = *i->second;
    if (name.empty()) { return; }
    same(e.name == name, "name of enumeration " + e.name);
    for (auto& v : e.values) { if (v.first == "ValuesLimit" || v.first == "valuesLimit") { exp.push_back({v.first, num(v.second)}); } }
    ens(name, t, exp);
}
static void common(const Val& f)
{
    // the generic functions of every field agree with each other
    auto n = C(f, "length").i; auto b = N(vfDataBuf); auto es = C(f, "writeDataBuf", {b});
    static_cast<void>(T(C(f, "valid")));
    auto c = N(nameOf(f), {f}); same(c.p != f.p, "copy of " + nameOf(f));
    same(!T(F("lt_" + nameOf(f), {f, c})), "lt_" + nameOf(f));
    if (es.i == 0) {
        auto raw = bytes(b); same(static_cast<long long>(raw.size()) == n, "length of " + nameOf(f));
    }
}
static void optD(const Val& f)
{
    bool e = T(C(f, "doesExist")), m = T(C(f, "isMissing")), t = T(C(f, "isTentative"));
    int r = e ? (m || t ? 9 : 1) : m ? (t ? 9 : 2) : t ? 0 : 9;
    auto v = C(f, "getMode");
    if (v.k != Val::Enum || v.i != r) { r = 8; }
    ens("comms_field_OptionalMode", v.t, {{"Tentative", "0"}, {"Exists", "1"}, {"Missing", "2"}, {"NumOfModes", "3"}});
    vfPut("{\"m\":" + std::to_string(r) + ",\"f\":");
}
static void optL(const Val& f)
{
    auto m = vfNum();
    auto& e = vf::reg().enums["comms_field_OptionalMode"];
    if (m % 2) { C(f, "setTentative"); for (auto& v : e.values) { if (v.second.i == m) { C(f, "setMode", {v.second}); } } return; }
    switch (m) { case 0: C(f, "setTentative"); break; default: C(f, "setExists"); C(f, "setMissing"); }
}
static std::vector<std::uint8_t> flt(const Val& v, std::size_t n)
{
    std::vector<std::uint8_t> b(n);
    if (v.k != (n == 4 ? Val::Flt : Val::Dbl)) { throw vf::Err("not a floating point number"); }
    if (n == 4) { std::memcpy(&b[0], &v.f, 4); } else { std::memcpy(&b[0], &v.d, 8); }
    return std::vector<std::uint8_t>(b.rbegin(), b.rend());
}
static Val fltV(std::size_t n)
{
    auto x = vfHex(); std::vector<std::uint8_t> b(x.rbegin(), x.rend()); Val r;
    if (n == 4) { r.k = Val::Flt; std::memcpy(&r.f, b.data(), 4); r.d = static_cast<double>(r.f); } else { r.k = Val::Dbl; std::memcpy(&r.d, b.data(), 8); }
    return r;
}
static Val sub(const std::string& n, vf::JsFunc f) { auto& c = cls(n); if (!c.subclass) { throw vf::Err(n + " does not allow subclasses"); } return c.subclass(f); }
static void names(const char* k, const std::map<std::string, vf::Func>& m) { vfPut(std::string(",\"") + k + "\":["); bool f = false; for (auto& x : m) { if (f) { vfPut(','); } f = true; vfPstr(x.first); } vfPut(']'); }
static void registry()
{
    vfPut("{\"bad\":["); bool f = false;
    for (auto& x : vf::reg().bad) { if (f) { vfPut(','); } f = true; vfPstr(x); }
    vfPut("],\"unbound\":["); f = false;
    auto chk = [&f](const std::string& n, const vf::Func& x) {
        for (auto& t : x.needs) { if (!t.wide && !vf::reg().ct.count(t.t) && !vf::reg().et.count(t.t)) { if (f) { vfPut(','); } f = true; vfPstr(n + ": " + t.t.name()); } }
    };
    for (auto& c : vf::reg().classes) {
        for (auto& x : c.second.ctors) { chk(c.first + " constructor", x.second); }
        for (auto& x : c.second.funcs) { chk(c.first + "." + x.first, x.second); }
        for (auto& x : c.second.statics) { chk(c.first + "." + x.first, x.second); }
        for (auto& x : c.second.getters) { chk(c.first + "." + x.first, x.second); }
        for (auto& x : c.second.setters) { chk(c.first + "." + x.first, x.second); }
        if (c.second.base && !vf::byType(*c.second.base)) { if (f) { vfPut(','); } f = true; vfPstr(c.first + " base"); }
    }
    for (auto& x : vf::reg().funcs) { chk(x.first, x.second); }
    vfPut("],\"classes\":{"); f = false;
    for (auto& c : vf::reg().classes) { if (f) { vfPut(','); } f = true; vfPstr(c.first); vfPut(":{\"base\":"); vfPstr(c.second.base && vf::byType(*c.second.base) ? vf::byType(*c.second.base)->name : ""); names("f", c.second.funcs); names("s", c.second.statics); vfPut('}'); }
    vfPut("},\"enums\":{"); f = false;
    for (auto& c : vf::reg().enums) { if (f) { vfPut(','); } f = true; vfPstr(c.first); vfPut(":{"); bool g = false; for (auto& v : c.second.values) { if (g) { vfPut(','); } g = true; vfPstr(v.first); vfPut(":" + num(v.second)); } vfPut('}'); }
    vfPut("},\"consts\":{"); f = false;
    for (auto& c : vf::reg().consts) { if (f) { vfPut(','); } f = true; vfPstr(c.first); vfPut(':'); if (c.second.k == Val::Int) { vfPut(num(c.second)); } else { vfPut("null"); } }
    vfPut("}}");
}
"""


class Missing(Exception):
    pass


def clist(x):
    return ", ".join('{"%s", "%s"}' % (k, v) for k, v in x)


class EmbDriver:
    def __init__(self, proj, model, out, others=(), prefix=()):
        from . import wrapc
        self.p, self.out, self.prefix = proj, out, tuple(prefix)
        self.c = codec.Codec(model, others)
        self.model = model
        self.tokens = lambda x, v, o: wrapc.CDriver.tokens(self, x, v, o)
        self.done, self.fwd, self.code, self.msgs, self.frames = {}, [], [], [], []
        cm = open(os.path.join(out, "CMakeLists.txt")).read()
        m = re.search(r"set \(src\s(.*?)\)", cm, re.S)
        self.src_files = re.findall(r"\S+\.cpp", m.group(1)) if m else []
        made = sorted(os.path.relpath(os.path.join(d, n), out) for d, _, ns in os.walk(out) for n in ns if n.endswith(".cpp"))
        if sorted(self.src_files) != made:
            raise Missing("sources listed in CMakeLists.txt are not the generated ones: %s" % sorted(set(self.src_files) ^ set(made)))
        text = {}
        for d, _, ns in os.walk(os.path.join(out, "include")):
            for n in ns:
                text[n] = text.get(n, "") + open(os.path.join(d, n)).read()
        text = "\n".join(text.values())
        self.bases = dict(re.findall(r"class (\w+) : public [\w:]+<(\w+)", text))
        self.expect = set()
        self.enums = {}
        ifs = {self.name(p, cpp.cls(i["name"])): i for p, i in cpp.entities(model, "interfaces")}
        self.ifs = ifs
        run, rf = [], []
        for p, m in sorted(cpp.entities(model, "messages"), key=lambda x: (x[1]["id"], x[1]["order"])):
            if ifs and not any(ip == p[:len(ip)] for ip, _ in cpp.entities(model, "interfaces")):
                continue
            N = self.name(p, "message", cpp.cls(m["name"]))
            it = self.bases.get(N)
            i = ifs.get(it)
            if i is None and it != self.name((), "Message"):
                raise Missing("%s is derived from %s" % (N, it))
            try:
                inst = codec.Message(self.c, m, i)
            except codec.Unsupported:
                inst = None
            n = len(self.msgs)
            self.msgs.append((p, m, N, it, i, inst))
            self.expect.add((N, it, tuple("field_" + desc.cname(g["name"]) for g in m["fields"])))
            self.expect.add((it, "", tuple("transportField_" + desc.cname(g["name"]) for g in (i["fields"] if i else []))))
            if inst is None:
                continue
            self.message(n, N, i, inst)
            run.append("        if (i == %d) { run_%d(cmd); }" % (n, n))
        hd = dict(re.findall(r"class (frame_\w+|\w+_frame_\w+)\n\{.*?processInputData\(const DataBuf& buf, (\w+)& handler\)", text, re.S))
        for p, F in cpp.entities(model, "frames"):
            n = len(self.frames)
            if self.frame(n, p, F, ifs):
                rf.append("        if (i == %d) { frame_%d(cmd); }" % (n, n))
        self.src = "".join('#include "%s"\n' % os.path.join(out, f) for f in self.src_files) + HEAD.replace("@DATABUF@", "_".join(self.prefix + ("DataBuf",))) + "\n".join(self.fwd) + "\n" + "\n".join(self.code)
        self.src += "\nint main()\n{\n    for (auto& x : vf::inits()) { x.second(); }\n    for (;;) {\n        char cmd = vfNext()[0];\n        int i = static_cast<int>(vfNum());\n        static_cast<void>(i);\n        vfOut.clear();\n        try {\n"
        self.src += "        if (cmd == 'E') { registry(); }\n        else if (cmd == 'D' || cmd == 'R' || cmd == 'W') {\n%s\n        }\n        else {\n%s\n        }\n" % ("\n".join(run), "\n".join(rf))
        self.src += "        } catch (const vf::Err& e) { std::string rest; std::getline(std::cin, rest); vfOut = \"{\\\"err\\\":\"; vfPstr(e.what()); vfPut('}'); std::cout << vfOut << std::endl; continue; }\n        std::cout << vfOut << std::endl;\n    }\n}\n"

    def name(self, p, *rest):
        return "_".join(self.prefix + tuple(p) + rest)

    def gen(self, x):
        """functions which dump and load an object of any class that stands for the field"""
        key = (type(x), id(x.f)) if getattr(x, "f", None) is not None else id(x)
        if isinstance(x, (Opt, VOpt)):
            key = (type(x), self.gen(x.x))
        if key in self.done:
            return self.done[key]
        n = "f%d" % len(self.done)
        self.done[key] = n
        self.keep = getattr(self, "keep", []) + [x]
        self.fwd.append("static void d_%s(Val f);\nstatic void l_%s(Val f);" % (n, n))
        if not isinstance(x, codec.Inst):
            raise codec.Unsupported("?")
        pre = "common(f); f = deref(f);"
        if isinstance(x, (Opt, VOpt)):
            R = self.gen(x.x)
            pre = "if (!has(f, \"doesExist\")) { f = deref(f); }" if isinstance(x, Opt) else "" 
            D = "optD(f); d_%s(C(f, \"field\")); vfPut('}');" % R
            L = "optL(f); l_%s(C(f, \"field\"));" % R
        elif isinstance(x, Num):
            D, bits = "", ""
            if isinstance(x, codec.Set):
                bl = [b for b in x.f["bits"] if self.c.exists(b, False)]
                D = "auto v = C(f, \"getValue\"); vfPut(num(v));"
                for b in bl:
                    D += " same(T(C(f, \"getBitValue_%s\")) == (((static_cast<unsigned long long>(v.i) >> %d) & 1) != 0) && T(C(f, \"getBitValue\", {I(%d)})) == T(C(f, \"getBitValue_%s\")), \"bit %s of \" + nameOf(f));" % (
                        b["name"], b["idx"], b["idx"], b["name"], b["name"])
                    bits += " C(f, \"setBitValue_%s\", {B(((v >> %d) & 1) != 0)});" % (b["name"], b["idx"])
                D += " ens(nameOf(f) + \"_BitIdx\", nullptr, {%s});" % clist([(b["name"], b["idx"]) for b in bl] + [("BitIdx_numOfValues", max([b["idx"] for b in bl]) + 1)] if bl else [("BitIdx_numOfValues", "")])
            elif isinstance(x, codec.Enum):
                D = "vfPut(num(C(f, \"getValueConstant\"))); static_cast<void>(C(f, \"valueName\"));"
                vals = [(v["name"], v["val"]) for v in x.f["values"] if self.c.value_exists(x.f, v)]
                # embind has no enumerations of 64 bits
                if x.size <= 32:
                    D += " auto v = C(f, \"getValue\"); same(num(v) == num(C(f, \"getValueConstant\")) && num(St(f, \"asConstant\", {v})) == num(v), \"value of \" + nameOf(f)); same(St(f, \"valueNameOf\", {v}).s == C(f, \"valueName\").s, \"valueNameOf\");"
                    D += " enm(%s, v.t, {%s});" % ("\"\"" if x.f["sem"] == 2 else "nameOf(f) + \"_ValueType\"", clist(vals))
            else:
                D = "auto v = C(f, \"getValue\"); vfPut(num(v)); if (has(f, \"setValue\")) { same(num(Get(f, \"value\")) == num(v), \"value of \" + nameOf(f)); }"
                sp = [s for s in x.f.get("specials") or [] if self.c.exists(s, False)]
                if x.f.get("specials"):
                    D += " same(T(St(f, \"hasSpecials\")) == %s, \"hasSpecials of \" + nameOf(f));" % ("true" if sp else "false")
                for s in sp:
                    k = cpp.cls(s["name"])
                    D += " same(T(C(f, \"is%s\")) == (num(v) == num(St(f, \"value%s\"))), \"special %s of \" + nameOf(f)); { auto c = N(nameOf(f), {f}); C(c, \"set%s\"); same(T(C(c, \"is%s\")), \"set%s of \" + nameOf(f)); }" % (k, k, k, k, k, k)
            if x.f.get("fixed"):
                L = "static_cast<void>(vfNum());"
            elif isinstance(x, codec.Enum):
                L = "auto v = vfNum(); C(f, \"setValueConstant\", {I(v)});"
            elif bits:
                L = "auto v = static_cast<unsigned long long>(vfNum()); C(f, \"setValue\", {I(static_cast<long long>(v))});" + bits
            else:
                L = "auto v = I(vfNum()); if (v.i % 2) { C(f, \"setValue\", {v}); } else { Put(f, \"value\", v); }"
        elif isinstance(x, Float):
            t = 4 if x.fmt == "f" else 8
            D = "auto v = C(f, \"getValue\"); vfPhex(flt(v, %d));" % t
            L = "static_cast<void>(vfHex());" if x.f.get("fixed") else "C(f, \"setValue\", {fltV(%d)});" % t
        elif isinstance(x, (Fields, Bitfield)):
            D, L = ["vfPut('[');"], []
            for k, (y, g) in enumerate(zip(x.m, x.f["members"])):
                a = "field_" + desc.cname(g["name"])
                R = self.gen(y)
                D.append("%sd_%s(C(f, \"%s\"));" % ("vfPut(','); " if k else "", R, a))
                L.append("l_%s(C(f, \"%s\"));" % (R, a))
            D, L = " ".join(D) + " vfPut(']');", " ".join(L)
        elif isinstance(x, Variant):
            K = len(x.ms)
            D = "auto i = C(f, \"currentField\").i; if (C(f, \"totalFields\").i != %d) { i = 99; } vfPut(\"{\\\"i\\\":\" + std::to_string(i >= %d && i != 99 ? -1 : i) + \",\\\"f\\\":\");" % (K, K)
            D += " std::string at; void* p = nullptr; auto h = sub(handlerOf(f), [&](const std::string& n, const Vals& a, Val&) { same(a.size() == 1, n); at += n; p = a[0].p; return i % 2 == 0; }); C(f, \"currentFieldExec\", {h});"
            ds = ls = ""
            for i, g in enumerate(x.ms):
                a = desc.cname(g["name"])
                R = self.gen(self.c.inner(g))
                ds += " case %d: { auto g = C(f, \"accessField_%s\"); same(at == \"handle_%s\" && p == g.p, \"currentFieldExec of \" + nameOf(f)); d_%s(g); } break;" % (i, a, a, R)
                ls += " case %d: l_%s(C(f, \"initField_%s\")); break;" % (i, R, a)
            D += " switch (i) {%s default: vfPut(\"null\"); } vfPut('}');" % ds
            L = "auto i = vfNum(); C(f, \"reset\"); switch (i) {%s default: break; }" % ls
        elif isinstance(x, Seq) and x.raw:
            if x.f["kind"] == "string":
                D = "auto v = C(f, \"getValue\"); same(v.k == Val::Str, \"value of \" + nameOf(f)); vfPhex(v.s);"
                L = "static_cast<void>(vfHex());" if x.f.get("fixed") else "C(f, \"setValue\", {S(vfHex())});"
            else:
                D = "vfPhex(bytes(C(f, \"getValue\")));"
                L = "static_cast<void>(vfHex());" if x.f.get("fixed") else "auto b = vfHex(); if (b.size() % 3) { C(f, \"setValue\", {buffer(b)}); } else { C(f, \"assignJsArray\", {A(b)}); }"
        elif isinstance(x, Seq):
            R = self.gen(x.elem())
            D = "auto v = C(f, \"getValue\"); auto n = C(v, \"size\").i; vfPut('['); auto w = C(f, \"value\"); for (long long i = 0; i < n; ++i) { if (i) { vfPut(','); } d_%s(C(w, \"at\", {I(i)})); } vfPut(']');" % R
            L = "auto n = vfNum(); auto v = C(f, \"value\"); if (n %% 2 == 0) { v = N(nameOf(v), {v}); } C(v, \"resize\", {I(0)}); C(v, \"resize\", {I(n)}); for (long long i = 0; i < n; ++i) { l_%s(C(v, \"at\", {I(i)})); } if (n %% 2 == 0) { C(f, \"setValue\", {v}); }" % R
        else:
            raise codec.Unsupported("?")
        self.code.append("static void d_%s(Val f)\n{\n    static_cast<void>(f); %s\n    %s\n}\nstatic void l_%s(Val f)\n{\n    %s\n    %s\n}" % (
            n, pre, D, n, pre.replace("common(f); ", ""), L))
        return n

    def state(self, n, i, inst):
        o = ['    vfPut("{\\"v\\":[");']
        for k, (x, g) in enumerate(zip(inst.m, inst.f["fields"])):
            o.append("    %sd_%s(C(m, \"field_%s\"));" % ("vfPut(','); " if k else "", self.gen(x), desc.cname(g["name"])))
        o.append('    vfPut("],\\"t\\":[");')
        if inst.t:
            for k, (x, g) in enumerate(zip(inst.t.m, i["fields"])):
                o.append("    %sd_%s(C(m, \"transportField_%s\"));" % ("vfPut(','); " if k else "", self.gen(x), desc.cname(g["name"])))
        o.append('    auto b = N(vfDataBuf); auto n = C(m, "length").i; auto es = C(m, "writeDataBuf", {b}); vfPut("],\\"l\\":" + std::to_string(n) + ",\\"w\\":"); vfPhex(bytes(b));')
        o.append('    vfPut(",\\"we\\":" + std::to_string(es.i)); if (n) { vfPut(",\\"wo\\":%d"); }' % codec.OVERFLOW)
        o.append('    vfPut(",\\"ok\\":" + std::to_string(static_cast<int>(T(C(m, "valid")))) + ",\\"n\\":"); vfPstr(C(m, "name").s);')
        o.append('    if (num(C(m, "getId")) != "%d") { vfPut("?"); }' % inst.f["id"])
        o.append("    vfPut('}');")
        return "static void state_%d(Val m)\n{\n%s\n}\n" % (n, "\n".join(o))

    def load(self, i, inst, t=True, m=True):
        s = ""
        if inst.t and t:
            for x, g in zip(inst.t.m, i["fields"]):
                s += "    l_%s(C(m, \"transportField_%s\"));\n" % (self.gen(x), desc.cname(g["name"]))
        if m:
            for x, g in zip(inst.m, inst.f["fields"]):
                s += "    l_%s(C(m, \"field_%s\"));\n" % (self.gen(x), desc.cname(g["name"]))
        return s

    def message(self, n, N, i, inst):
        s = self.state(n, i, inst)
        s += "static void run_%d(char cmd)\n{\n    auto m = N(\"%s\");\n    if (cmd != 'D') {\n%s    }\n" % (n, N, self.load(i, inst, m=False))
        s += "    if (cmd == 'W') {\n%s    m = N(\"%s\", {m}); same(T(F(\"eq_%s\", {m, m})), \"eq_%s\");\n    }\n" % (self.load(i, inst, t=False), N, N, N)
        s += "    if (cmd == 'R') {\n        auto b = vfHex(); auto es = b.size() % 2 ? C(m, \"readJsArray\", {A(b)}) : C(m, \"readDataBuf\", {buffer(b)});\n        vfPut(\"{\\\"e\\\":\" + num(es) + \",\\\"c\\\":null,\\\"s\\\":\");\n"
        s += "        state_%d(m); vfPut('}');\n    }\n    else { state_%d(m); }\n}\n" % (n, n)
        self.code.append(s)

    def frame(self, n, p, F, ifs):
        N = self.name(p, "frame", cpp.cls(F["name"]))
        h = None
        for d, _, ns in os.walk(os.path.join(self.out, "include")):
            for x in ns:
                if x == cpp.cls(F["name"]) + ".h" and os.path.basename(d) == "frame":
                    t = open(os.path.join(d, x)).read()
                    m = re.search(r"class %s\n\{.*?processInputData\(const \w+& buf, (\w+)& handler\).*?writeMessage\(const (\w+)& msg" % N, t, re.S)
                    h = m or h
        if not h:
            return False
        H, it = h.groups()
        own = cpp.in_ns([(x[0], x[1]) for x in self.msgs], p)
        mine = [x for x in self.msgs if any(x[1] is y for _, y in own)]
        i = ifs.get(it)
        self.expect.add((N, "", tuple("layer_" + desc.cname(l["name"]) for l in F["layers"]) + ("processInputData", "processInputJsArray", "processInputDataSingleMsg", "processInputJsArraySingleMsg", "writeMessage")))
        self.expect.add((N + "_AllFields", "", tuple("get" + cpp.cls(l["name"]) for l in F["layers"])))
        self.expect.add((H, "", tuple("handle_" + x[2] for x in mine if x[3] == it) + ("handle_" + it,)))
        if not mine or any(x[3] != it or x[5] is None for x in mine) or not frames.usable(self.c, F, i):
            return False
        try:
            fm = frames.Frame(self.c, F, i, [x[1] for x in mine])
        except codec.Unsupported:
            return False
        s = "static void frame_%d(char cmd)\n{\n    auto fr = N(\"%s\");\n    if (cmd == 'X' || cmd == 'O') {\n        auto b = vfHex(); int cnt = 0;\n" % (n, N)
        s += "        auto h = sub(\"%s\", [&](const std::string& n, const Vals& a, Val&) -> bool {\n            same(a.size() == 1, n); auto m = a[0];\n" % H
        s += "            if (n == \"handle_%s\") { vfPut(cnt++ ? \",{\\\"i\\\":-1}\" : \"{\\\"i\\\":-1}\"); return true; }\n            if (cmd == 'O') { return false; }\n" % it
        for x in mine:
            k = self.msgs.index(x)
            s += "            if (n == \"handle_%s\") { same(nameOf(m) == \"%s\", n); vfPut(cnt++ ? \",\" : \"\"); vfPut(\"{\\\"i\\\":%d,\\\"s\\\":\"); state_%d(m); vfPut('}'); return true; }\n" % (x[2], x[2], k, k)
        s += "            same(false, n); return true;\n        });\n"
        s += "        auto all = N(\"%s_AllFields\"); Val null; null.k = Val::Null;\n" % N
        s += "        vfPut(\"{\\\"h\\\":[\"); auto c = b.size() % 2 ? C(fr, \"processInputData\", {buffer(b), h}) : C(fr, \"processInputJsArray\", {A(b), h}); vfPut(\"],\\\"c\\\":\" + num(c)); cnt = 0;\n"
        s += "        vfPut(\",\\\"h1\\\":[\"); C(fr, \"processInputDataSingleMsg\", {buffer(b), h, null}); cnt = 0; vfPut(\"],\\\"h2\\\":[\"); C(fr, \"processInputJsArraySingleMsg\", {A(b), h, all}); vfPut(\"]}\");\n"
        for l in F["layers"]:
            s += "        static_cast<void>(nameOf(C(all, \"get%s\")));\n" % cpp.cls(l["name"])
        s += "    }\n    else {\n        int mi = static_cast<int>(vfNum());\n"
        for x in mine:
            k = self.msgs.index(x)
            s += "        if (mi == %d) {\n            auto m = N(\"%s\");\n%s" % (k, x[2], self.load(i, x[5]))
            s += "            auto b = N(vfDataBuf); auto es = C(fr, \"writeMessage\", {m, b}); auto a = N(vfDataBuf); C(a, \"push_back\", {I(0x5a)}); C(fr, \"writeMessage\", {m, a});\n"
            s += "            auto x = bytes(b), y = bytes(a); bool same = y.size() == x.size() + 1U && y[0] == 0x5a && std::vector<std::uint8_t>(y.begin() + 1, y.end()) == x;\n"
            s += "            vfPut(\"{\\\"l\\\":\" + std::to_string(same ? x.size() : 99999U) + \",\\\"e\\\":\" + num(es) + \",\\\"w\\\":\"); vfPhex(x); vfPut('}');\n        }\n"
        s += "    }\n}\n"
        self.code.append(s)
        self.frames.append((F, i, fm, mine))
        return True

    def flags(self):
        return ["-I", os.path.join(self.out, "include"), "-fno-sanitize=vptr", "-fno-sanitize=enum", "-DVF_EMB"]

    def alone(self, r, n):
        """some of the sources have to compile on their own"""
        for f in r.sample(self.src_files, min(n, len(self.src_files))):
            self.p.compile('#include "%s"\n' % os.path.join(self.out, f), name="alone", flags=self.flags(), link=False)
        return min(n, len(self.src_files))

    def build(self):
        self.exe = self.p.compile(self.src, name="emdrv", flags=self.flags())

    def registry(self, reg):
        """first disagreement of the registered names with the schema"""
        if reg["bad"]:
            return reg["bad"][0]
        if reg["unbound"]:
            return "unbound types: " + reg["unbound"][0]
        for n, b, fs in sorted(self.expect):
            c = reg["classes"].get(n)
            if c is None:
                return "class %s is not registered" % n
            if b and c["base"] != b:
                return "class %s is derived from %s, expected %s" % (n, c["base"], b)
            for f in fs:
                if f not in c["f"]:
                    return "%s.%s is not registered" % (n, f)
        want = {"comms_ErrorStatus": dict(Success=0, UpdateRequired=1, NotEnoughData=2, ProtocolError=3, BufferOverflow=4, InvalidMsgId=5, InvalidMsgData=6, MsgAllocFailure=7, NotSupported=8, NumOfErrorStatuses=9)}
        for n, v in want.items():
            if reg["enums"].get(n) != v:
                return "enumeration %s is %s" % (n, reg["enums"].get(n))
        at = {id(i): p for p, i in cpp.entities(self.model, "interfaces")}
        for p, m, N, it, i, inst in self.msgs:
            n = self.name(at[id(i)] if i else (), "MsgId")
            if n not in reg["enums"]:
                return "enumeration %s is not registered" % n
            # the enumeration of the C++ code lists the ids of other namespaces only when the global one has no messages
            if (p and not (i and at[id(i)])) and any(not q for q, *_ in self.msgs):
                continue
            if m["id"] not in reg["enums"][n].values():
                return "enumeration %s has no id of %s" % (n, N)
        for n, c in reg["classes"].items():
            for f in c["f"]:
                m = re.match(r"handle_(.*)", f)
                if m and m.group(1) not in reg["classes"] and not n.endswith("_Handler"):
                    return "%s.%s handles unknown class" % (n, f)
        return None
