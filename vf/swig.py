"""Reads what commsdsl2swig generates the way SWIG does, and drives it: the declared classes, the C++ code they stand for."""
import glob, os, re
from . import build, codec, cpp, desc, frames
from .codec import Opt, VOpt, Seq, Variant, Fields, Bitfield, Num, Float

PRIM = {"void", "bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "unsigned int", "long", "unsigned long",
        "long long", "unsigned long long", "float", "double", "std::string", "std::size_t",
        "std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t", "std::int64_t", "std::uint64_t"}


class Bad(Exception):
    """SWIG could not use the interface file"""


def strip(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)


class Scope:
    def __init__(self, name, kind="class", outer=None):
        self.name, self.kind, self.outer = name, kind, outer
        self.bases, self.alias, self.enums, self.methods, self.fields, self.classes = [], {}, {}, [], [], {}
        self.access = "public" if kind != "class" else "private"

    def q(self):
        return (self.outer.q() + "::" if self.outer and self.outer.name else "") + self.name


TOK = re.compile(r"\s*([A-Za-z_]\w*(?:::[A-Za-z_~]\w*)*|0[xX][0-9a-fA-F]+\w*|-?\d[\w.]*|\"[^\"]*\"|&&|.)", re.S)


class Parser:
    """of the declarations in the included headers"""

    def __init__(self, text, top, where):
        text = re.sub(r"^\s*#[^\n]*", "", strip(text), flags=re.M)
        self.t = [m.group(1) for m in TOK.finditer(text) if m.group(1).strip()]
        self.i = 0
        self.where = where
        while self.i < len(self.t):
            self.decl(top)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        if self.i >= len(self.t):
            raise Bad("%s: ends unexpectedly" % self.where)
        self.i += 1
        return self.t[self.i - 1]

    def need(self, x):
        y = self.next()
        if y != x:
            raise Bad("%s: %r instead of %r after %s" % (self.where, y, x, " ".join(self.t[max(0, self.i - 8):self.i - 1])))

    def upto(self, *stop):
        out, depth = [], 0
        while True:
            x = self.peek()
            if not x:
                raise Bad("%s: ends unexpectedly" % self.where)
            if depth == 0 and x in stop:
                return out
            if len(x) == 1 and not (out and out[-1] == "operator"):
                depth += (x in "(<{") - (x in ")>}")
            out.append(self.next())

    def decl(self, s):
        x = self.peek()
        if x == ";":
            self.next()
        elif x in ("public", "private", "protected") and self.peek(1) == ":":
            s.access = x
            self.i += 2
        elif x in ("class", "struct"):
            self.next()
            n = self.next()
            if self.peek() == ";":
                s.classes.setdefault(n, None)
                return
            c = Scope(n, x, s)
            if self.peek() == ":":
                self.next()
                c.bases = [b for b in self.upto("{") if b not in ("public", ",", "virtual")]
            self.need("{")
            if s.classes.get(n):
                raise Bad("%s: class %s is declared twice" % (self.where, n))
            s.classes[n] = c
            while self.peek() != "}":
                self.decl(c)
            self.next()
            self.need(";")
        elif x == "enum":
            self.next()
            sc = self.peek() in ("class", "struct")
            if sc:
                self.next()
            n = self.next() if self.peek() not in ("{", ":") else ""
            under = ""
            if self.peek() == ":":
                self.next()
                under = " ".join(self.upto("{", ";"))
            self.need("{")
            vals = []
            while self.peek() != "}":
                k = self.next()
                v = None
                if self.peek() == "=":
                    self.next()
                    v = " ".join(self.upto(",", "}"))
                if any(k == y for y, _ in vals):
                    raise Bad("%s: enumerator %s::%s is declared twice" % (self.where, s.q(), k))
                vals.append((k, v))
                if self.peek() == ",":
                    self.next()
            self.next()
            self.need(";")
            if n in s.enums:
                raise Bad("%s: enum %s is declared twice" % (self.where, n))
            s.enums[n] = (sc, under, vals, s.access)
        elif x == "using":
            self.next()
            n = self.next()
            self.need("=")
            s.alias[n] = ty(self.upto(";"))
            self.need(";")
        else:
            head = self.upto("(", ";")
            if self.peek() == ";":
                self.next()
                s.fields.append((ty(head[:-1]), head[-1], s.access))
                return
            if head and head[-1] == "operator":
                raise Bad("%s: operator()" % self.where)
            self.next()
            args, cur = [], []
            while self.peek() != ")":
                a = self.upto(",", ")")
                d = None
                if "=" in a:
                    d = " ".join(a[a.index("=") + 1:])
                    a = a[:a.index("=")]
                if len(a) > 1 and re.match(r"[A-Za-z_]\w*$", a[-1]) and a[-2] != "const" and (a[-1] not in PRIM):
                    a = a[:-1]
                args.append((ty(a), d))
                if self.peek() == ",":
                    self.next()
            self.next()
            const = False
            while self.peek() not in (";",):
                y = self.next()
                if y == "const":
                    const = True
                elif y not in ("override", "noexcept", "="):
                    raise Bad("%s: unexpected %r after %s(...)" % (self.where, y, " ".join(head)))
            self.next()
            fl = {k for k in head if k in ("static", "virtual", "explicit", "inline")}
            head = [k for k in head if k not in fl]
            if "operator" in head:
                k = head.index("operator")
                nm, r = "operator" + "".join(head[k + 1:]), head[:k]
            else:
                nm, r = head[-1], head[:-1]
                if r and r[-1] == "~":
                    nm, r = "~" + nm, r[:-1]
            s.methods.append(dict(name=nm, ret=ty(r) if r else None, args=args, const=const, static="static" in fl, virtual="virtual" in fl, access=s.access))


def ty(toks):
    """canonical spelling of a type"""
    s = " ".join(toks)
    s = re.sub(r"\s*([<>,&*])\s*", r"\1", s)
    return s.strip()


class Interface:
    """the .i file with everything it includes"""

    def __init__(self, out):
        fs = glob.glob(os.path.join(out, "*.i"))
        if len(fs) != 1:
            raise Bad("%d interface files" % len(fs))
        self.out = out
        t = open(fs[0]).read()
        self.code, self.incs, self.vecs, self.renames, self.directors, self.order, self.consts = [], [], {}, {}, set(), [], []
        self.top = Scope("", "namespace")
        self.late = []
        if len(re.findall(r"^%\{", t, re.M)) != len(re.findall(r"^%\}", t, re.M)):
            raise Bad("unbalanced %{ %}")
        if not re.match(r"\s*%module", t):
            raise Bad("no %module")
        for m in re.finditer(r"^%\{\n(.*?)^%\}", t, re.S | re.M):
            self.code.append(m.group(1))
        body = re.sub(r"^%\{\n.*?^%\}", "", t, flags=re.S | re.M)
        body = re.sub(r"^#if.*?^#endif[^\n]*", "", body, flags=re.S | re.M)
        for n, line in enumerate(body.split("\n")):
            line = strip(line).strip()
            if not line or line.startswith("%module") or line.startswith("#"):
                continue
            m = re.match(r'%include "([^"]+)"$', line)
            if m:
                f = m.group(1)
                if f.startswith("std_"):
                    continue
                if f in self.incs:
                    raise Bad("%s is included twice" % f)
                self.incs.append(f)
                p = os.path.join(out, f)
                if not os.path.isfile(p):
                    raise Bad("%s is included but was not generated" % f)
                before = set(k for k, c in self.top.classes.items() if c)
                Parser(open(p).read(), self.top, f)
                for k, c in self.top.classes.items():
                    if c and k not in before:
                        c.vecs = dict(self.vecs)
                        c.dirs = set(self.directors)
                        c.file = f
                continue
            m = re.match(r"%template\((\w+)\) std::vector<\s*(.*?)\s*>;$", line)
            if m:
                if m.group(2) in self.vecs or m.group(1) in self.vecs.values():
                    raise Bad("vector of %s is instantiated twice" % m.group(2))
                self.vecs[m.group(2)] = m.group(1)
                continue
            m = re.match(r"%rename\((\w+)\) (operator\S+)\((.*)\);$", line)
            if m:
                k = (m.group(2), m.group(3).replace(" ", ""))
                if k in self.renames or m.group(1) in self.renames.values():
                    raise Bad("%s is renamed twice" % line)
                self.renames[k] = m.group(1)
                continue
            m = re.match(r'%feature\("director"\) (\w+);$', line)
            if m:
                self.directors.add(m.group(1))
                continue
            m = re.match(r"%constant (\w+) (\w+) = (.*?);$", line)
            if m:
                self.consts.append(m.groups())
                continue
            if re.match(r'%feature\("valuewrapper"\) \w+;$|%nodefaultctor \w+;$|%ignore ', line):
                continue
            raise Bad("%s: not understood: %s" % (os.path.basename(fs[0]), line))
        have = {os.path.relpath(p, out) for p in glob.glob(os.path.join(out, "include", "**", "*.h"), recursive=True)}
        if have - set(self.incs):
            raise Bad("generated but not included: %s" % ", ".join(sorted(have - set(self.incs))))
        self.check()

    def classes(self):
        return [c for c in self.top.classes.values() if c]

    def resolve(self, s, t):
        """the type behind the aliases of the scope: (kind, C++ spelling within the code, declared)"""
        base = re.sub(r"\bconst\b", "", t).replace("&", "").replace("*", "").strip()
        return self.named(s, base)

    def named(self, s, n, depth=0):
        if depth > 10:
            raise Bad("%s: alias of itself" % n)
        m = re.match(r"std::vector<(.*)>$", n)
        if m:
            return ("vector", self.named(s, m.group(1), depth + 1))
        if n in PRIM:
            return ("prim", n)
        first, _, rest = n.partition("::")
        while s:
            for where, k in ((s.enums, "enum"), (s.alias, "alias"), (s.classes, "class")):
                if first in where:
                    x = where[first]
                    if k == "alias":
                        r = self.named(s, x, depth + 1)
                    elif k == "enum":
                        r = ("enum", s, first)
                    else:
                        if x is None:
                            x = self.top.classes.get(first)
                        if x is None:
                            raise Bad("class %s is used but never declared" % first)
                        r = ("class", x)
                    if rest:
                        if r[0] != "class":
                            raise Bad("%s is no class" % first)
                        return self.named(r[1], rest, depth + 1)
                    return r
            s = s.outer
        raise Bad("type %s is used but not declared" % n)

    def spelled(self, r):
        if r[0] == "prim":
            return r[1]
        if r[0] == "vector":
            return "std::vector<%s>" % self.spelled(r[1])
        if r[0] == "enum":
            return (r[1].q() + "::" if r[1].q() else "") + r[2]
        return r[1].q()

    def check(self):
        """what SWIG needs to know to make usable wrappers"""
        for c in self.classes():
            for b in c.bases:
                self.named(self.top, b)
            for n, a in c.alias.items():
                self.vec(c, self.named(c, a), a)
            for m in c.methods:
                for a in [m["ret"]] + [a for a, _ in m["args"]]:
                    if a:
                        try:
                            self.vec(c, self.resolve(c, a), a)
                        except Bad as e:
                            raise Bad("%s::%s(): %s" % (c.name, m["name"], e))
            for t, n, _ in c.fields:
                self.vec(c, self.resolve(c, t), t)
            seen = set()
            for m in c.methods:
                k = (m["name"], tuple(a for a, _ in m["args"]), m["const"])
                if k in seen:
                    raise Bad("%s::%s() is declared twice" % (c.name, m["name"]))
                seen.add(k)
            if "Handler" in c.name and any(m["virtual"] and m["name"].startswith("handle_") for m in c.methods) and c.name not in c.dirs:
                raise Bad("%s has functions to be overridden but is not made a director before it is declared" % c.name)
        for m in self.top.methods:
            if m["name"].startswith("operator"):
                k = (m["name"], ",".join(re.sub(r"\s", "", a) for a, _ in m["args"]))
                if k not in self.renames:
                    raise Bad("%s(%s) is not renamed" % k)
                for a, _ in m["args"]:
                    self.resolve(self.top, a)
            else:
                for a in [m["ret"]] + [a for a, _ in m["args"]]:
                    self.resolve(self.top, a)
        ops = {(m["name"], ",".join(re.sub(r"\s", "", a) for a, _ in m["args"])) for m in self.top.methods}
        for k in self.renames:
            if k not in ops:
                raise Bad("%s(%s) is renamed but not declared" % k)
        for d in self.directors:
            if not self.top.classes.get(d):
                raise Bad("director %s is not declared" % d)
        for v in self.vecs:
            self.named(self.top, v)

    def vec(self, c, r, a):
        if r[0] == "vector":
            if self.spelled(r[1]) not in [self.spelled(self.named(self.top, v)) for v in c.vecs]:
                raise Bad("%s uses %s, which is not instantiated (%%template) before" % (c.name, a))

    # ------------------------------------------------------------------ the declarations against the code
    def probes(self):
        o, n = [], 0

        def qual(c, a):
            """type a of class c as the code is to know it"""
            if a is None:
                return None
            r = self.resolve(c, a)
            base = self.spelled(r)
            tail = "&" if "&" in a else "*" if "*" in a else ""
            return ("const " if re.search(r"\bconst\b", a) else "") + base + tail
        for c in self.classes():
            C = c.q()
            for n_, a in c.alias.items():
                o.append('static_assert(VfSame<%s::%s, %s>, "%s::%s is declared as %s");' % (C, n_, self.spelled(self.named(c, a)), C, n_, a))
            for en, (sc, t, vals, acc) in c.enums.items():
                self.enum(o, C + "::", en, sc, vals)
            for t, f, acc in c.fields:
                o.append('static_assert(VfSame<decltype(%s::%s), %s>, "%s::%s");' % (C, f, qual(c, t), C, f))
            for m in c.methods:
                if m["access"] != "public":
                    continue
                nm = m["name"]
                args = [qual(c, a) for a, _ in m["args"]]
                if nm == c.name:
                    if self.abstract(c):
                        continue
                    o.append('static_assert(std::is_constructible<%s>::value, "%s(%s)");' % (", ".join([C] + args), C, ", ".join(args)))
                elif nm == "~" + c.name:
                    if m["virtual"]:
                        o.append('static_assert(std::has_virtual_destructor<%s>::value, "~%s()");' % (C, C))
                else:
                    full = [args[:k] for k in range(len(args) + 1) if all(d is not None for _, d in m["args"][k:])]
                    for ar in full:
                        call = "std::declval<%s%s&>().%s(%s)" % ("const " if m["const"] else "", C, nm, ", ".join("std::declval<%s>()" % (x if x.endswith(("&", "*")) else x) for x in ar))
                        if m["static"]:
                            call = "%s::%s(%s)" % (C, nm, ", ".join("std::declval<%s>()" % x for x in ar))
                        o.append('static_assert(VfRet<decltype(%s), %s>, "%s::%s");' % (call, qual(c, m["ret"]), C, nm))
                    if m["virtual"]:
                        o.append("struct VfOver_%d : public %s { %s %s(%s)%s override; };" % (len(o), C, qual(c, m["ret"]), nm, ", ".join(args), " const" if m["const"] else ""))
        for en, (sc, t, vals, acc) in self.top.enums.items():
            self.enum(o, "", en, sc, vals)
        for m in self.top.methods:
            args = ["std::declval<%s>()" % qual(self.top, a) for a, _ in m["args"]]
            call = "%s %s %s" % (args[0], m["name"][8:], args[1]) if m["name"].startswith("operator") else "%s(%s)" % (m["name"], ", ".join(args))
            o.append('static_assert(VfRet<decltype(%s), %s>, "%s");' % (call, qual(self.top, m["ret"]), m["name"]))
        return o

    def abstract(self, c):
        return any(m["name"] == c.name and m["access"] != "public" for m in c.methods)

    def enum(self, o, scope, en, sc, vals):
        last = None
        for k, v in vals:
            ref = scope + (en + "::" if sc and en else "") + k
            if v is None and last is None:
                e = "0"
            elif v is None:
                e = "(%s) + 1" % last
            else:
                e = v
            last = e
            o.append('static_assert(static_cast<long long>(%s) == static_cast<long long>(%s), "%s");' % (ref, e, ref))

    def cpp(self):
        """the code as it starts the wrapper"""
        return "#include <string>\n#include <vector>\n#include <cstdint>\n#include <cassert>\n#include <tuple>\n#include <type_traits>\n" + "\n".join(self.code) + HELP + "\n".join(self.probes()) + "\n"


HELP = """
// wrappers derive from the classes of the protocol without adding members, the code casts between them
template <class A, class B, bool TI = std::is_integral<A>::value && std::is_integral<B>::value>
struct VfSameT { static const bool value = std::is_same<A, B>::value || std::is_base_of<A, B>::value; };
template <class A> struct VfSameT<A, A, false> { static const bool value = true; };
template <class A, class B>
struct VfSameT<A, B, true> { static const bool value = sizeof(A) <= sizeof(B) && std::is_signed<A>::value == std::is_signed<B>::value && std::is_same<A, bool>::value == std::is_same<B, bool>::value; };
template <class A> using VfBare = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template <class A, class B> constexpr bool VfSame = VfSameT<VfBare<A>, VfBare<B>>::value;
// the wrapper code uses the names of the types, so a declared integer may be wider
// real, declared: where a reference is declared its address is taken
template <class A, class B> constexpr bool VfRet = VfSame<A, B> &&
    (!std::is_reference<B>::value || (std::is_lvalue_reference<A>::value &&
        (std::is_const<typename std::remove_reference<B>::type>::value || !std::is_const<typename std::remove_reference<A>::type>::value)));
"""


DRV = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
typedef std::vector<unsigned char> VfBuf;
static std::string vfOut;
static void vfPut(char c) { vfOut.push_back(c); }
static void vfPut(const std::string& s) { vfOut += s; }
static std::string vfNext() { std::string s; if (!(std::cin >> s)) { std::exit(0); } return s; }
static long long vfNum() { auto s = vfNext(); return s[0] == '-' ? std::strtoll(s.c_str(), nullptr, 10) : static_cast<long long>(std::strtoull(s.c_str(), nullptr, 10)); }
static VfBuf vfHex() { auto s = vfNext(); VfBuf r; if (s == "-") { return r; } for (std::size_t i = 0; i + 1 < s.size(); i += 2) { r.push_back(static_cast<unsigned char>(std::stoi(s.substr(i, 2), nullptr, 16))); } return r; }
template <typename T> void vfPhex(const T& b) { vfPut('"'); char t[3]; for (auto x : b) { std::snprintf(t, 3, "%02x", static_cast<unsigned>(static_cast<unsigned char>(x))); vfPut(t); } vfPut('"'); }
static void vfPstr(const char* s) { vfPut('"'); for (; *s; ++s) { if (*s == '"' || *s == '\\') { vfPut('\\'); } vfPut(*s); } vfPut('"'); }
template <typename T> void vfPfl(T v) { VfBuf b(sizeof(v)); std::memcpy(&b[0], &v, sizeof(v)); vfPhex(VfBuf(b.rbegin(), b.rend())); }
template <typename T> T vfFl() { auto b = vfHex(); T v; VfBuf r(b.rbegin(), b.rend()); std::memcpy(&v, r.data(), sizeof(v)); return v; }
template <typename F> void vfOptD(F& f)
{
    int m = f.doesExist() ? (f.isMissing() || f.isTentative() ? 9 : 1) : f.isMissing() ? (f.isTentative() ? 9 : 2) : f.isTentative() ? 0 : 9;
    if (static_cast<int>(f.getMode()) != m) { m = 8; }
    vfPut("{\"m\":" + std::to_string(m) + ",\"f\":");
}
template <typename F> void vfOptL(F& f)
{
    using M = decltype(f.getMode());
    auto m = vfNum();
    if (m % 2) { f.setMode(static_cast<M>(m)); }
    switch (m) { case 0: f.setTentative(); break; case 1: f.setMissing(); f.setExists(); break; default: f.setExists(); f.setMissing(); }
}
"""


class Missing(Exception):
    pass


class SwigDriver:
    """runs the code of the interface file through the declared functions only, understands the commands of wrapc.CDriver"""

    def __init__(self, proj, model, out, others=(), prefix=()):
        from . import wrapc
        self.p, self.i = proj, Interface(out)
        self.prefix = tuple(prefix)
        self.c = codec.Codec(model, others)
        self.tokens = lambda x, v, o: wrapc.CDriver.tokens(self, x, v, o)
        self.done, self.fwd, self.code, self.msgs, self.frames = {}, [], [], [], []
        self.bases = dict(re.findall(r"class (\w+) : public [\w:]+<(\w+)", "\n".join(self.i.code)))
        ifs = {self.name(p, cpp.cls(i["name"])): i for p, i in cpp.entities(model, "interfaces")}
        run, rf = [], []
        for p, m in sorted(cpp.entities(model, "messages"), key=lambda x: (x[1]["id"], x[1]["order"])):
            if ifs and not any(ip == p[:len(ip)] for ip, _ in cpp.entities(model, "interfaces")):
                continue
            N = self.name(p, "message", cpp.cls(m["name"]))
            C = self.cl(N)
            it = self.bases.get(N)
            i = ifs.get(it)
            if i is None and it != self.name((), "Message"):
                raise Missing("%s is derived from %s" % (N, it))
            try:
                inst = codec.Message(self.c, m, i)
            except codec.Unsupported:
                inst = None
            n = len(self.msgs)
            self.msgs.append((p, m, N, it, i, inst))
            if inst is None:
                continue
            for x, g in zip(inst.m, m["fields"]):
                self.gen(x, self.ret(C, "field_" + desc.cname(g["name"])))
            if inst.t:
                for x, g in zip(inst.t.m, i["fields"]):
                    self.gen(x, self.ret(self.cl(it), "transportField_" + desc.cname(g["name"])))
            self.message(n, C, self.cl(it), i, inst)
            run.append("        if (i == %d) { run_%d(cmd); }" % (n, n))
        for p, F in cpp.entities(model, "frames"):
            n = len(self.frames)
            if self.frame(n, p, F, ifs):
                rf.append("        if (i == %d) { frame_%d(cmd); }" % (n, n))
        self.src = self.i.cpp() + DRV + "\n".join(self.fwd) + "\n" + "\n".join(self.code)
        self.src += "\nint main()\n{\n    for (;;) {\n        char cmd = vfNext()[0];\n        int i = static_cast<int>(vfNum());\n        static_cast<void>(i);\n        vfOut.clear();\n"
        self.src += "        if (cmd == 'D' || cmd == 'R' || cmd == 'W') {\n%s\n        }\n        else {\n%s\n        }\n        std::cout << vfOut << std::endl;\n    }\n}\n" % ("\n".join(run), "\n".join(rf))

    def name(self, p, *rest):
        return "_".join(self.prefix + tuple(p) + rest)

    def cl(self, n):
        c = self.i.top.classes.get(n)
        if not c:
            raise Missing("no class %s" % n)
        return c

    def m(self, C, fn, args=None):
        for x in C.methods:
            if x["name"] == fn and x["access"] == "public" and (args is None or len(x["args"]) == args):
                return x
        for b in C.bases:
            try:
                return self.m(self.cl(b), fn, args)
            except Missing:
                pass
        raise Missing("no function %s::%s()" % (C.name, fn))

    def need(self, C, *fns):
        for f in fns:
            self.m(C, f)
        return fns[0]

    def ret(self, C, fn):
        x = self.m(C, fn)
        r = self.i.resolve(C, x["ret"])
        if r[0] != "class":
            raise Missing("%s::%s() gives %s" % (C.name, fn, x["ret"]))
        if "&" not in x["ret"]:
            raise Missing("%s::%s() gives a copy" % (C.name, fn))
        return r[1]

    def gen(self, x, C):
        T = C.q()
        if T in self.done:
            return
        self.done[T] = True
        self.fwd.append("static void d_%s(%s& f);\nstatic void l_%s(%s& f);" % (C.name, T, C.name, T))
        need = lambda *a: self.need(C, *a)
        names = {m["name"] for m in C.methods}
        need("read", "write", "length", "valid", "refresh")
        if not isinstance(x, codec.Inst):
            raise codec.Unsupported("?")
        if "ref" in names and not isinstance(x, VOpt):
            R = self.ret(C, "ref")
            self.gen(x, R)
            D = "d_%s(f.ref());" % R.name
            L = "l_%s(f.ref());" % R.name
        elif isinstance(x, (Opt, VOpt)):
            need("doesExist", "setExists", "isMissing", "setMissing", "isTentative", "setTentative", "getMode", "setMode")
            R = self.ret(C, "field")
            self.gen(x.x, R)
            D = "vfOptD(f); d_%s(static_cast<%s&>(f.field())); vfPut('}');" % (R.name, R.q())
            L = "vfOptL(f); l_%s(static_cast<%s&>(f.field()));" % (R.name, R.q())
        elif isinstance(x, Num):
            ull = x.size == 64 and not x.signed
            D = "vfPut(std::to_string(static_cast<%slong long>(f.%s())));" % ("unsigned " if ull else "", need("getValue"))
            bits = ""
            if isinstance(x, codec.Set):
                need("getBitValue", "setBitValue")
                for b in x.f["bits"]:
                    if self.c.exists(b, False) and not b["res"]:
                        D += " if (f.%s() != (((static_cast<unsigned long long>(f.getValue()) >> %d) & 1) != 0) || f.getBitValue(%dU) != f.getBitValue_%s()) { vfPut('0'); }" % (
                            need("getBitValue_" + b["name"]), b["idx"], b["idx"], b["name"])
                        bits += " f.%s(((v >> %d) & 1) != 0);" % (need("setBitValue_" + b["name"]), b["idx"])
            if isinstance(x, codec.Enum):
                need("valueName", "valueNameOf")
            V = "static_cast<std::remove_cv<std::remove_reference<decltype(f.getValue())>::type>::type>"
            if x.f.get("fixed"):
                L = "static_cast<void>(f); static_cast<void>(vfNum());"
            elif bits:
                L = "auto v = static_cast<unsigned long long>(vfNum()); f.%s(%s(~v)); f.setValue(%s(v));%s" % (need("setValue"), V, V, bits)
            else:
                L = "f.%s(%s(vfNum()));" % (need("setValue"), V)
        elif isinstance(x, Float):
            t = "float" if x.fmt == "f" else "double"
            D = "vfPfl<%s>(f.%s());" % (t, need("getValue"))
            L = "static_cast<void>(f); static_cast<void>(vfHex());" if x.f.get("fixed") else "f.%s(vfFl<%s>());" % (need("setValue"), t)
        elif isinstance(x, (Fields, Bitfield)):
            D, L = ["vfPut('[');"], ["static_cast<void>(f);"]
            for k, (y, g) in enumerate(zip(x.m, x.f["members"])):
                a = "field_" + desc.cname(g["name"])
                R = self.ret(C, a)
                self.gen(y, R)
                D.append("%sd_%s(f.%s());" % ("vfPut(','); " if k else "", R.name, a))
                L.append("l_%s(f.%s());" % (R.name, a))
            D, L = " ".join(D) + " vfPut(']');", " ".join(L)
        elif isinstance(x, Variant):
            need("currentField", "selectField", "reset", "totalFields", "currentFieldExec")
            H = self.i.resolve(C, self.m(C, "currentFieldExec")["args"][0][0])[1]
            K = len(x.ms)
            D = "int i = static_cast<int>(f.currentField()); if (f.totalFields() != %dU) { i = 99; } vfPut(\"{\\\"i\\\":\" + std::to_string(i >= %d && i != 99 ? -1 : i) + \",\\\"f\\\":\");" % (K, K)
            D += " struct H : public %s { int at = -1;" % H.q()
            ds, ls, bs = "", "", ""
            for i, g in enumerate(x.ms):
                a = desc.cname(g["name"])
                R = self.ret(C, "accessField_" + a)
                self.gen(self.c.inner(g), R)
                self.ret(C, "initField_" + a)
                h = self.m(H, "handle_" + a)
                if not h["virtual"] or self.i.resolve(H, h["args"][0][0]) != ("class", R):
                    raise Missing("%s::handle_%s() does not take %s" % (H.name, a, R.name))
                D += " void handle_%s(%s& x) override { static_cast<void>(x); at = %d; }" % (a, R.q(), i)
                ds += " case %d: d_%s(f.accessField_%s()); break;" % (i, R.name, a)
                ls += " case %d: l_%s(f.initField_%s()); break;" % (i, R.name, a)
            D += " }; H h; if (i >= 0 && i < %d) { f.currentFieldExec(h); if (h.at != i) { vfPut('0'); } } switch (i) {%s default: vfPut(\"null\"); } vfPut('}');" % (K, ds)
            L = "int i = static_cast<int>(vfNum()); f.reset(); switch (i) {%s default: break; }" % ls
        elif isinstance(x, Seq) and x.raw:
            D = "vfPhex(f.%s());" % need("getValue")
            V = "auto b = vfHex(); std::remove_cv<std::remove_reference<decltype(f.getValue())>::type>::type v(b.begin(), b.end()); f.%s(v);"
            L = "static_cast<void>(f); static_cast<void>(vfHex());" if x.f.get("fixed") else V % need("setValue")
        elif isinstance(x, Seq):
            r = self.i.resolve(C, self.m(C, "getValue")["ret"])
            if r[0] != "vector" or r[1][0] != "class":
                raise Missing("%s::getValue() gives no list" % C.name)
            R = r[1][1]
            need("value")
            self.gen(x.elem(), R)
            D = "auto v = f.getValue(); vfPut('['); for (std::size_t i = 0; i < v.size(); ++i) { if (i) { vfPut(','); } d_%s(v[i]); } vfPut(']'); if (f.value().size() != v.size()) { vfPut('0'); }" % R.name
            L = "%s::ValueType v(static_cast<std::size_t>(vfNum())); for (auto& e : v) { l_%s(e); } if (v.size() %% 2) { f.value() = v; } else { f.%s(v); }" % (T, R.name, need("setValue"))
        else:
            raise codec.Unsupported("?")
        self.code.append("static void d_%s(%s& f)\n{\n    %s\n}\nstatic void l_%s(%s& f)\n{\n    %s\n}" % (C.name, T, D, C.name, T, L))

    def state(self, C, I, i, inst):
        need = lambda *a: self.need(C, *a) if any(m["name"] == a[0] for m in C.methods) else self.need(I, *a)
        o = ['    vfPut("{\\"v\\":[");']
        for k, g in enumerate(inst.f["fields"]):
            a = "field_" + desc.cname(g["name"])
            o.append("    %sd_%s(m.%s());" % ("vfPut(','); " if k else "", self.ret(C, a).name, a))
        o.append('    vfPut("],\\"t\\":[");')
        if inst.t:
            for k, g in enumerate(i["fields"]):
                a = "transportField_" + desc.cname(g["name"])
                o.append("    %sd_%s(m.%s());" % ("vfPut(','); " if k else "", self.ret(I, a).name, a))
        o.append('    VfBuf b; auto n = m.%s(); auto es = m.%s(b); vfPut("],\\"l\\":" + std::to_string(n) + ",\\"w\\":"); vfPhex(b);' % (need("length"), need("write")))
        # writing always has the room it needs
        o.append('    vfPut(",\\"we\\":" + std::to_string(static_cast<int>(es))); if (n) { vfPut(",\\"wo\\":%d"); }' % codec.OVERFLOW)
        o.append('    vfPut(",\\"ok\\":" + std::to_string(static_cast<int>(m.%s())) + ",\\"n\\":"); vfPstr(m.%s());' % (need("valid"), need("name")))
        o.append('    if (static_cast<unsigned long long>(m.%s()) != %dULL) { vfPut("?"); }' % (need("getId"), inst.f["id"]))
        o.append("    vfPut('}');")
        return "\n".join(o)

    def load(self, C, I, i, inst, m, t=True):
        s = ""
        if inst.t and t:
            for g in i["fields"]:
                a = "transportField_" + desc.cname(g["name"])
                s += "    l_%s(%s.%s());\n" % (self.ret(I, a).name, m, a)
        return s

    def loadm(self, C, inst, m):
        return "".join("    l_%s(%s.field_%s());\n" % (self.ret(C, "field_" + desc.cname(g["name"])).name, m, desc.cname(g["name"])) for g in inst.f["fields"])

    def message(self, n, C, I, i, inst):
        s = "static void state_%d(%s& m)\n{\n%s\n}\n" % (n, C.q(), self.state(C, I, i, inst))
        s += "static void run_%d(char cmd)\n{\n    %s m;\n    if (cmd != 'D') {\n%s    }\n" % (n, C.q(), self.load(C, I, i, inst, "m"))
        s += "    if (cmd == 'W') {\n%s    }\n" % self.loadm(C, inst, "m")
        s += "    if (cmd == 'R') {\n        auto b = vfHex(); auto es = m.read(b);\n        vfPut(\"{\\\"e\\\":\" + std::to_string(static_cast<int>(es)) + \",\\\"c\\\":null,\\\"s\\\":\");\n        state_%d(m); vfPut('}');\n    }\n    else { state_%d(m); }\n}\n" % (n, n)
        self.code.append(s)

    def frame(self, n, p, F, ifs):
        N = self.name(p, "frame", cpp.cls(F["name"]))
        C = self.i.top.classes.get(N)
        own = cpp.in_ns([(x[0], x[1]) for x in self.msgs], p)
        mine = [x for x in self.msgs if any(x[1] is y for _, y in own)]
        if not C:
            return False
        a = self.m(C, "writeMessage")["args"][0][0]
        I = self.i.resolve(C, a)[1]
        i = ifs.get(I.name)
        if not mine or any(x[3] != I.name or x[5] is None for x in mine) or not frames.usable(self.c, F, i):
            return False
        try:
            fm = frames.Frame(self.c, F, i, [x[1] for x in mine])
        except codec.Unsupported:
            return False
        H = self.i.resolve(C, self.m(C, "processInputData")["args"][1][0])[1]
        for h in ("handle_" + x[2] for x in mine):
            self.need(H, h)
        self.need(H, "handle_" + I.name)
        self.need(C, "processInputDataSingleMsg", "appendMessage")
        s = "namespace { struct O_%d : public %s { int cnt = 0; void handle_%s(%s& m) override { static_cast<void>(m); vfPut(cnt++ ? \",{\\\"i\\\":-1}\" : \"{\\\"i\\\":-1}\"); } };\n" % (n, H.q(), I.name, I.q())
        s += "struct X_%d : public O_%d {\n%s}; }\n" % (n, n, "".join("    void handle_%s(%s& m) override { vfPut(cnt++ ? \",\" : \"\"); vfPut(\"{\\\"i\\\":%d,\\\"s\\\":\"); state_%d(m); vfPut('}'); }\n" % (
            x[2], x[2], self.msgs.index(x), self.msgs.index(x)) for x in mine))
        s += "static void frame_%d(char cmd)\n{\n    %s fr;\n    if (cmd == 'X' || cmd == 'O') {\n        auto b = vfHex(); O_%d o; X_%d x; %s& h = cmd == 'X' ? static_cast<%s&>(x) : static_cast<%s&>(o);\n" % (n, C.q(), n, n, H.q(), H.q(), H.q())
        s += "        vfPut(\"{\\\"h\\\":[\"); auto c = fr.processInputData(b, h); vfPut(\"],\\\"c\\\":\" + std::to_string(c)); o.cnt = x.cnt = 0;\n"
        s += "        vfPut(\",\\\"h1\\\":[\"); fr.processInputDataSingleMsg(b, h); o.cnt = x.cnt = 0; %s_AllFields all; vfPut(\"],\\\"h2\\\":[\"); fr.processInputDataSingleMsg(b, h, &all); vfPut(\"]}\");\n    }\n" % C.q()
        s += "    else {\n        int mi = static_cast<int>(vfNum());\n"
        for x in mine:
            k = self.msgs.index(x)
            MC = self.cl(x[2])
            s += "        if (mi == %d) {\n            %s m;\n%s%s            auto b = fr.writeMessage(m); VfBuf a(3, 0x5a); auto es = fr.appendMessage(m, a);\n" % (k, MC.q(), self.load(MC, self.cl(x[3]), i, x[5], "m"), self.loadm(MC, x[5], "m"))
            s += "            bool same = a.size() == b.size() + 3U && a[0] == 0x5a && a[2] == 0x5a && VfBuf(a.begin() + 3, a.end()) == b;\n            vfPut(\"{\\\"l\\\":\" + std::to_string(same ? b.size() : 99999U) + \",\\\"e\\\":\" + std::to_string(static_cast<int>(es)) + \",\\\"w\\\":\"); vfPhex(b); vfPut('}');\n        }\n"
        s += "    }\n}\n"
        self.code.append(s)
        self.frames.append((F, i, fm, mine))
        return True

    def build(self):
        # downcasts to classes which add nothing are how the wrapper works; fixed size enums stay as they are read
        self.exe = self.p.compile(self.src, name="swdrv", flags=["-fno-sanitize=vptr", "-fno-sanitize=enum"])
