"""Drives the C interface generated by commsdsl2c from a pure C program."""
import glob, os, re, subprocess
from . import build, codec, cpp, desc, wire
from .codec import Opt, VOpt, Seq, Variant, Fields, Bitfield, Num, Float

CF = ["-std=c99", "-Wall", "-Wextra", "-Werror", "-Wno-unused-function", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g0", "-O0"]
DECL = re.compile(r"(?:^|\n)\s*((?:const\s+)?\w[\w]*\s*\**)\s+(\w+)\(([^;{}]*)\);")

HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
static char tok[1 << 20];
static const char* next(void) { if (scanf("%1048575s", tok) != 1) { exit(0); } return tok; }
static long long num(void) { const char* t = next(); return t[0] == '-' ? strtoll(t, NULL, 10) : (long long)strtoull(t, NULL, 10); }
static unsigned hx(char c) { return c <= '9' ? (unsigned)(c - '0') : (unsigned)(c - 'a' + 10); }
static uint8_t raw[1 << 19];
static size_t hex(void)
{
    const char* t = next();
    size_t n = 0;
    if (t[0] == '-') { return 0; }
    for (; t[0]; t += 2) { raw[n++] = (uint8_t)(hx(t[0]) * 16 + hx(t[1])); }
    return n;
}
static void phex(const uint8_t* b, size_t n)
{
    size_t i;
    putchar('"');
    for (i = 0; i < n; ++i) { printf("%02x", b[i]); }
    putchar('"');
}
static void pstr(const char* s)
{
    putchar('"');
    for (; *s; ++s) {
        if (*s == '"' || *s == '\\') { putchar('\\'); }
        putchar(*s);
    }
    putchar('"');
}
static uint8_t rev_b[8];
static const uint8_t* rev(const void* p, size_t n) { size_t i; for (i = 0; i < n; ++i) { rev_b[i] = ((const uint8_t*)p)[n - 1 - i]; } return rev_b; }
#define OPT_DUMP(N, F) printf("{\"m\":%d,\"f\":", N##_doesExist(F) ? (N##_isMissing(F) || N##_isTentative(F) ? 9 : 1) : N##_isMissing(F) ? (N##_isTentative(F) ? 9 : 2) : N##_isTentative(F) ? 0 : 9)
#define OPT_LOAD(N, F) switch (num()) { case 0: N##_setTentative(F); break; case 1: N##_setExists(F); break; default: N##_setMissing(F); }
"""


def decls(inc):
    out = {}
    for p in glob.glob(os.path.join(inc, "**", "*.h"), recursive=True):
        t = open(p).read()
        t = re.sub(r"//[^\n]*", "", t)
        t = re.sub(r"#[^\n]*", "", t)
        t = re.sub(r'extern "C" \{', "", t)
        for m in DECL.finditer(t):
            out[m.group(2)] = (re.sub(r"\s*\*", "*", m.group(1).strip()), m.group(3))
    return out


class Missing(Exception):
    pass


class CDriver:
    def __init__(self, proj, model, cout, others=(), main="proto"):
        self.p, self.cout, self.main = proj, cout, main
        self.c = codec.Codec(model, others)
        self.inc = os.path.join(cout, "include")
        self.d = decls(self.inc)
        self.done = {}
        self.code = []
        self.fwd = []
        self.msgs = []
        self.frames = []
        ifs = {self.name(p, cpp.cls(i["name"])): i for p, i in cpp.entities(model, "interfaces")}
        run = []
        for p, m in sorted(cpp.entities(model, "messages"), key=lambda x: (x[1]["id"], x[1]["order"])):
            if ifs and not any(ip == p[:len(ip)] for ip, _ in cpp.entities(model, "interfaces")):
                # no interface to be used by the messages of this namespace
                continue
            N = self.name(p, "message", cpp.cls(m["name"]))
            it = self.ret(N + "_toInterface")
            i = ifs.get(it)
            if i is None and it != self.name((), "Message"):
                raise Missing("%s_toInterface() gives %s" % (N, it))
            try:
                inst = codec.Message(self.c, m, i)
            except codec.Unsupported:
                inst = None
            n = len(self.msgs)
            self.msgs.append((p, m, N, it, i, inst))
            if inst is None:
                continue
            for x, g in zip(inst.m, m["fields"]):
                self.gen(x, self.ret("%s_field_%s" % (N, desc.cname(g["name"]))))
            if inst.t:
                for x, g in zip(inst.t.m, i["fields"]):
                    self.gen(x, self.ret("%s_transportField_%s" % (it, desc.cname(g["name"]))))
            self.message(n, N, it, i, inst)
            run.append("    if (i == %d) { run_%d(cmd); }" % (n, n))
        rf = []
        for p, F in cpp.entities(model, "frames"):
            n = len(self.frames)
            if self.frame(n, p, F, ifs, model):
                rf.append("    if (i == %d) { frame_%d(cmd); }" % (n, n))
        incs = "".join('#include "%s"\n' % os.path.relpath(h, self.inc) for h in sorted(glob.glob(os.path.join(self.inc, "**", "*.h"), recursive=True)))
        # the test executable and the harness agree on one command per line
        self.src = incs + HEAD + "\n".join(self.fwd) + "\n" + "\n".join(self.code)
        self.src += "\nint main(void)\n{\n    for (;;) {\n    char cmd = next()[0];\n    int i = (int)num();\n    (void)i;\n    if (cmd == 'D' || cmd == 'R' || cmd == 'W') {\n%s\n    }\n    else {\n%s\n    }\n    printf(\"\\n\");\n    fflush(stdout);\n    }\n}\n" % ("\n".join(run), "\n".join(rf))

    def name(self, p, *rest):
        return "_".join((self.main,) + tuple(p) + rest)

    def ret(self, fn):
        """type a function returns a pointer to"""
        if fn not in self.d:
            raise Missing("no function %s()" % fn)
        r = self.d[fn][0]
        return r[:-1].strip() if r.endswith("*") else r

    def need(self, fn):
        self.ret(fn)
        return fn

    def gen(self, x, T):
        """code which dumps and loads a field"""
        if T in self.done:
            return
        self.done[T] = True
        self.fwd.append("static void d_%s(%s* f);\nstatic void l_%s(%s* f);" % (T, T, T, T))
        need = self.need
        if T + "_ref" in self.d and not isinstance(x, VOpt):
            R = self.ret(T + "_ref")
            self.gen(x, R)
            D = "d_%s(%s_ref(f));" % (R, T)
            L = "l_%s(%s_ref(f));" % (R, T)
        elif isinstance(x, (Opt, VOpt)):
            for s in ("doesExist", "setExists", "isMissing", "setMissing", "isTentative", "setTentative"):
                need("%s_%s" % (T, s))
            R = self.ret(T + "_field")
            self.gen(x.x, R)
            D = "OPT_DUMP(%s, f); d_%s(%s_field(f)); putchar('}');" % (T, R, T)
            L = "OPT_LOAD(%s, f); l_%s(%s_field(f));" % (T, R, T)
        elif isinstance(x, Num):
            D = 'printf("%%lld", (long long)%s(f));' % need(T + "_getValue")
            if x.size == 64 and not x.signed:
                D = 'printf("%%llu", (unsigned long long)%s(f));' % need(T + "_getValue")
            vt = "(%s)" % self.d[T + "_getValue"][0]
            bits = ""
            if isinstance(x, codec.Set):
                for b in x.f["bits"]:
                    if self.c.exists(b, False) and not b["res"]:
                        D += ' if (%s(f) != ((%s_getValue(f) >> %d) & 1)) { printf("0"); }' % (need("%s_getBitValue_%s" % (T, b["name"])), T, b["idx"])
                        bits += " %s(f, (v >> %d) & 1);" % (need("%s_setBitValue_%s" % (T, b["name"])), b["idx"])
            if x.f.get("fixed"):
                L = "(void)f; (void)num();"
            elif bits:
                L = "long long v = num(); %s(f, %s~v); %s_setValue(f, %sv);%s" % (need(T + "_setValue"), vt, T, vt, bits)
            else:
                L = "%s(f, %snum());" % (need(T + "_setValue"), vt)
        elif isinstance(x, Float):
            t = "float" if x.fmt == "f" else "double"
            D = "%s v = %s(f); phex(rev(&v, sizeof(v)), sizeof(v));" % (t, need(T + "_getValue"))
            L = "(void)f; (void)hex();" if x.f.get("fixed") else "%s v; (void)hex(); memcpy(&v, rev(raw, sizeof(v)), sizeof(v)); %s(f, v);" % (t, need(T + "_setValue"))
        elif isinstance(x, (Fields, Bitfield)):
            D, L = ['putchar(\'[\');'], []
            for i, (y, g) in enumerate(zip(x.m, x.f["members"])):
                a = "%s_field_%s" % (T, desc.cname(g["name"]))
                R = self.ret(a)
                self.gen(y, R)
                D.append("%sd_%s(%s(f));" % ("putchar(','); " if i else "", R, a))
                L.append("l_%s(%s(f));" % (R, a))
            D = " ".join(D) + " putchar(']');"
            L = " ".join(L)
        elif isinstance(x, Variant):
            D = "int i = (int)%s(f); (void)i; printf(\"{\\\"i\\\":%%d,\\\"f\\\":\", i >= %d ? -1 : i); switch (i) {" % (need(T + "_currentField"), len(x.ms))
            L = "int i = (int)num(); (void)i; %s(f); switch (i) {" % need(T + "_reset")
            for i, g in enumerate(x.ms):
                a = desc.cname(g["name"])
                R = self.ret("%s_accessField_%s" % (T, a))
                self.gen(self.c.inner(g), R)
                D += " case %d: d_%s(%s_accessField_%s(f)); break;" % (i, R, T, a)
                L += " case %d: l_%s(%s(f)); break;" % (i, R, need("%s_initField_%s" % (T, a)))
            D += ' default: printf("null"); } putchar(\'}\');'
            L += " default: break; }"
        elif isinstance(x, Seq) and x.raw:
            t = "char" if x.f["kind"] == "string" else "uint8_t"
            D = "size_t n = %s(f); %s* b = (%s*)malloc(n + 1); size_t g = %s(f, b, n); phex((const uint8_t*)b, g); if (n) { if (%s_getValue(f, b, n - 1) != n - 1) { printf(\"short\"); } } free(b);" % (
                need(T + "_valueSize"), t, t, need(T + "_getValue"), T)
            L = "(void)f; (void)hex();" if x.f.get("fixed") else "size_t n = hex(); %s(f, (const %s*)raw, n);" % (need(T + "_setValue"), t)
        elif isinstance(x, Seq):
            R = self.ret(T + "_at")
            for s in ("insert", "remove", "append", "resize"):
                need("%s_%s" % (T, s))
            self.gen(x.elem(), R)
            D = "size_t i = 0, n = %s(f); (void)i; putchar('['); for (i = 0; i < n; ++i) { if (i) { putchar(','); } d_%s(%s_at(f, i)); } putchar(']'); if (%s_at(f, n) != NULL) { printf(\"beyond\"); }" % (
                need(T + "_count"), R, T, T)
            if x.fix:
                L = "size_t i = 0, n = (size_t)num(); (void)i; %s_resize(f, n); for (i = 0; i < n; ++i) { l_%s(%s_at(f, i)); }" % (T, R, T)
            else:
                # through every way of changing the list
                L = ("size_t i = 0, n = (size_t)num(); (void)i; %s_resize(f, 0); for (i = 0; i < n; ++i) { l_%s(%s_append(f)); } "
                     "if (n) { %s* e = %s_insert(f, n / 2); if (e == NULL) { printf(\"insert\"); } %s_remove(f, n / 2); }") % (T, R, T, R, T, T)
        else:
            raise codec.Unsupported("?")
        self.code.append("static void d_%s(%s* f)\n{\n    %s\n}\nstatic void l_%s(%s* f)\n{\n    %s\n}" % (T, T, D, T, T, L))

    def tokens(self, x, v, o):
        """value tree -> what the loader reads"""
        if isinstance(x, (Opt, VOpt)):
            o.append(str(v["m"]))
            self.tokens(x.x, v["f"], o)
        elif isinstance(x, Num):
            o.append(str(v))
        elif isinstance(x, Float):
            o.append(v)
        elif isinstance(x, (Fields, Bitfield)):
            for y, w in zip(x.m, v):
                self.tokens(y, w, o)
        elif isinstance(x, Variant):
            o.append(str(v["i"]))
            if v["f"] is not None:
                self.tokens(self.c.inner(x.ms[v["i"]]), v["f"], o)
        elif x.raw:
            o.append(v or "-")
        else:
            o.append(str(len(v)))
            for w in v:
                self.tokens(x.elem(), w, o)
        return o

    def state(self, N, it, i, inst, m="m"):
        """prints the state of a message"""
        need = self.need
        o = ['    printf("{\\"v\\":[");']
        for k, g in enumerate(inst.f["fields"]):
            a = "%s_field_%s" % (N, desc.cname(g["name"]))
            o.append("    %sd_%s(%s(%s));" % ("putchar(','); " if k else "", self.ret(a), a, m))
        o.append('    printf("],\\"t\\":[");')
        if inst.t:
            for k, g in enumerate(i["fields"]):
                a = "%s_transportField_%s" % (it, desc.cname(g["name"]))
                o.append("    %sd_%s(%s(%s_toInterface(%s)));" % ("putchar(','); " if k else "", self.ret(a), a, N, m))
        o.append('    { size_t n = %s(%s); uint8_t* b = (uint8_t*)malloc(n + 1); uint8_t* p = b; int es = (int)%s(%s, &p, n);' % (need(N + "_doLength"), m, need(N + "_doWrite"), m))
        o.append('      printf("],\\"l\\":%d,\\"w\\":", (int)n); phex(b, (size_t)(p - b)); printf(",\\"we\\":%d", es);')
        o.append('      if (n) { p = b; printf(",\\"wo\\":%%d", (int)%s_doWrite(%s, &p, n - 1)); }' % (N, m))
        o.append('      free(b); }')
        o.append('    printf(",\\"ok\\":%%d,\\"n\\":", (int)%s(%s)); pstr(%s(%s)); printf("}");' % (need(N + "_doValid"), m, need(N + "_doName"), m))
        return "\n".join(o)

    def loadt(self, it, i, inst, e):
        if not inst.t:
            return ""
        return "".join("    l_%s(%s_transportField_%s(%s));\n" % (self.ret("%s_transportField_%s" % (it, desc.cname(g["name"]))), it, desc.cname(g["name"]), e) for g in i["fields"])

    def loadm(self, N, inst, e):
        return "".join("    l_%s(%s_field_%s(%s));\n" % (self.ret("%s_field_%s" % (N, desc.cname(g["name"]))), N, desc.cname(g["name"]), e) for g in inst.f["fields"])

    def message(self, n, N, it, i, inst):
        need = self.need
        s = "static void state_%d(%s* m)\n{\n%s\n}\n" % (n, N, self.state(N, it, i, inst))
        s += "static void run_%d(char cmd)\n{\n    %s* m = %s();\n    %s* f = %s(m);\n    (void)f;\n" % (n, N, need(N + "_alloc"), it, need(N + "_toInterface"))
        s += "    if (%s(f) != m) { printf(\"fromInterface\"); }\n" % need(N + "_fromInterface")
        s += "    if (cmd != 'D') {\n%s    }\n" % self.loadt(it, i, inst, "f").replace("    ", "        ")
        s += "    if (cmd == 'W') {\n%s    }\n" % self.loadm(N, inst, "m").replace("    ", "        ")
        s += "    if (cmd == 'R') {\n        size_t n = hex(); uint8_t* b = (uint8_t*)malloc(n); const uint8_t* p = b; int es;\n        memcpy(b, raw, n);\n        es = (int)%s(m, &p, n);\n        printf(\"{\\\"e\\\":%%d,\\\"c\\\":%%d,\\\"s\\\":\", es, (int)(p - b)); free(b);\n        state_%d(m); putchar('}');\n    }\n    else { state_%d(m); }\n" % (need(N + "_doRead"), n, n)
        s += "    %s(m);\n}\n" % need(N + "_free")
        self.code.append(s)

    def frame(self, n, p, F, ifs, model):
        from . import frames
        N = self.name(p, "frame", cpp.cls(F["name"]))
        if N + "_createMsg" not in self.d:
            return False
        it = self.ret(N + "_createMsg")
        i = ifs.get(it)
        own = cpp.in_ns([(x[0], x[1]) for x in self.msgs], p)
        mine = [x for x in self.msgs if any(x[1] is y for _, y in own)]
        if not mine or any(x[3] != it or x[5] is None for x in mine) or not frames.usable(self.c, F, i):
            return False
        try:
            fm = frames.Frame(self.c, F, i, [x[1] for x in mine])
        except codec.Unsupported:
            return False
        need = self.need
        H = re.search(r"(\w+)\s*\*\s*handler", self.d[need(N + "_processInputData")][1]).group(1)
        s = "".join("static void h_%d_%d(struct %s_* m, void* u)\n{\n    printf(\"%%s{\\\"i\\\":%d,\\\"s\\\":\", (*(int*)u)++ ? \",\" : \"\"); state_%d(m); putchar('}');\n}\n" % (n, self.msgs.index(x), x[2], self.msgs.index(x), self.msgs.index(x)) for x in mine)
        s += "static void other_%d(struct %s_* m, void* u) { (void)m; printf(\"%%s{\\\"i\\\":-1}\", (*(int*)u)++ ? \",\" : \"\"); }\n" % (n, it)
        s += "static void frame_%d(char cmd)\n{\n    %s* fr = %s();\n" % (n, N, need(N + "_alloc"))
        s += "    if (cmd == 'X' || cmd == 'O') {\n        %s h;\n        size_t n = hex(); uint8_t* b = (uint8_t*)malloc(n); int cnt = 0; size_t c;\n        memcpy(b, raw, n);\n        memset(&h, 0, sizeof(h));\n        h.handle_%s = &other_%d;\n" % (H, it, n)
        s += "        if (cmd == 'X') {\n%s        }\n" % "".join("            h.handle_%s = &h_%d_%d;\n" % (x[2], n, self.msgs.index(x)) for x in mine)
        s += "        printf(\"{\\\"h\\\":[\");\n        c = %s_processInputData(fr, b, n, &h, &cnt);\n        printf(\"],\\\"c\\\":%%d}\", (int)c);\n        free(b);\n    }\n" % N
        s += "    else {\n        int mi = (int)num();\n"
        for x in mine:
            k = self.msgs.index(x)
            s += "        if (mi == %d) {\n            %s* m = %s_alloc(); %s* f = %s_toInterface(m); size_t n; uint8_t* b; int es;\n            (void)f;\n%s%s" % (
                k, x[2], x[2], it, x[2], self.loadt(it, i, x[5], "f"), self.loadm(x[2], x[5], "m"))
            s += "            n = %s(fr, f); b = (uint8_t*)malloc(n); printf(\"{\\\"l\\\":%%d\", (int)n);\n            es = (int)%s(fr, f, b, &n); printf(\",\\\"e\\\":%%d,\\\"w\\\":\", es); phex(b, n); putchar('}'); free(b);\n            %s_free(m);\n        }\n" % (
                need(N + "_messageLength"), need(N + "_writeMessage"), x[2])
        s += "    }\n    %s(fr);\n}\n" % need(N + "_free")
        self.code.append(s)
        self.frames.append((F, i, fm, mine))
        return True

    def build(self, flags=()):
        """the C driver and the generated C++ sources, linked together"""
        d = self.p.dir
        c = os.path.join(d, "cdrv.c")
        with open(c, "w") as f:
            f.write(self.src)
        self.sh(["/usr/bin/clang"] + CF + ["-I", self.inc, "-c", c, "-o", os.path.join(d, "cdrv.o")], "driver")
        u = os.path.join(d, "unity.cpp")
        with open(u, "w") as f:
            for x in sorted(glob.glob(os.path.join(self.cout, "**", "*.cpp"), recursive=True)):
                f.write('#include "%s"\n' % os.path.relpath(x, self.cout))
        exe = os.path.join(d, "cdrv")
        self.sh([build.CXX] + cpp.CXXF + ["-fno-sanitize=enum", "-I", self.inc, "-I", self.cout, "-I", os.path.join(self.p.out, "include"), u, os.path.join(d, "cdrv.o"), "-o", exe], "build")
        self.exe = exe

    def sh(self, cmd, stage):
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            t = r.stdout.decode("utf-8", "replace")
            m = re.search(r"(?:error|undefined reference)[^\n]*", t)
            raise cpp.Failed("C interface " + stage, t[:5000], "C interface %s: %s" % (stage, m.group(0)[:200] if m else ""))

    def headers(self, r, limit):
        """every header is valid C on its own, every source is valid C++ on its own"""
        hs = sorted(glob.glob(os.path.join(self.inc, "**", "*.h"), recursive=True))
        for h in hs:
            self.sh(["/usr/bin/gcc", "-std=c99", "-fsyntax-only", "-Wall", "-Wextra", "-Werror", "-I", self.inc, "-x", "c", "-include", h, "/dev/null"], "header " + os.path.relpath(h, self.inc))
        src = sorted(glob.glob(os.path.join(self.cout, "**", "*.cpp"), recursive=True))
        for x in r.sample(src, min(limit, len(src))):
            self.sh([build.CXX, "-std=c++17", "-fsyntax-only", "-Wall", "-Wextra", "-Werror", "-Wno-unused-parameter", "-I", self.inc, "-I", self.cout, "-I",
                     os.path.join(self.p.out, "include"), "-I", cpp.MINI, x], "source " + os.path.relpath(x, self.cout))
        return len(hs)
