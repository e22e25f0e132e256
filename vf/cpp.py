"""Generates C++ from a schema with commsdsl2comms, compiles a reflection driver against the mini COMMS
headers with sanitizers and talks to it."""
import json, os, re, shutil, subprocess, tempfile
from . import build, codec

MINI = os.path.join(build.VERIF, "mini")
CXXF = ["-std=c++17", "-O0", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer", "-I" + MINI]
WARN = ["-Wall", "-Wextra", "-Werror", "-Wno-unused-parameter"]


def generator(app="comms"):
    return build.app_path(app)


def gen_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["LC_ALL"] = "C"
    return e


class Failed(Exception):
    def __init__(self, stage, text, key=None):
        Exception.__init__(self, stage)
        self.stage = stage
        self.text = text
        self.key = key or stage


def cls(n):
    return n[0].upper() + n[1:]


def walk(ns, path=()):
    """yields (path, namespace)"""
    yield path, ns
    for n in ns["namespaces"]:
        yield from walk(n, path + (n["name"],))


def entities(model, kind):
    """[(namespace path, entity)] of the schema; the first level of model['namespaces'] includes the
    global one with an empty name"""
    out = []
    for top in model["namespaces"]:
        for p, ns in walk(top, (top["name"],) if top["name"] else ()):
            for e in ns[kind]:
                out.append((p, e))
    return out


def first_error(text):
    m = re.search(r"(?:^|/)include/(\S+?):\d+:\d+: (?:fatal )?error: (.*)", text)
    m2 = re.search(r"error: (.*)", text)
    return (m.group(1) + ": " + m.group(2)) if m else (m2.group(1) if m2 else text[-300:])


class Proj:
    def __init__(self, texts, args=(), app="comms", keep=None, subdir="o", run=True):
        """texts: {file name: contents} in order"""
        self.dir = keep or tempfile.mkdtemp(prefix="vfcpp", dir=tmp())
        self.files = []
        for n, t in texts:
            p = os.path.join(self.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(t)
            self.files.append(p)
        self.out = os.path.join(self.dir, subdir)
        self.args = list(args)
        if run:
            self.generate(app)

    def generate(self, app="comms", out=None, extra=(), files=None):
        cmd = [generator(app), "-q", "-o", out or self.out] + self.args + list(extra) + (files or self.files)
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=gen_env(), timeout=120)
        t = r.stdout.decode("utf-8", "replace")
        if r.returncode != 0:
            raise Failed("generate", t, "generate: " + crash_line(t, r.returncode))
        return t

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, src, name="drv", flags=(), inc=None, link=True, ccache=True, base=CXXF):
        cpp = os.path.join(self.dir, name + ".cpp")
        with open(cpp, "w") as f:
            f.write(src)
        exe = os.path.join(self.dir, name)
        cmd = [build.CXX] + base + ["-I", inc or os.path.join(self.out, "include")] + list(flags)
        cmd += [cpp, "-o", exe] if link else ["-fsyntax-only", cpp]
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            t = r.stdout.decode("utf-8", "replace")
            raise Failed("compile", t[:6000], "compile: " + first_error(t))
        return exe

    def talk(self, exe, lines, timeout=120):
        r = subprocess.run([exe], input=("\n".join(lines) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=gen_env(), timeout=timeout)
        outs = r.stdout.decode("utf-8", "replace").split("\n")[:-1]
        if r.returncode != 0 or len(outs) != len(lines):
            e = r.stderr.decode("utf-8", "replace")
            bad = lines[len(outs)] if len(outs) < len(lines) else ""
            raise Failed("run", "command: %s\nexit %d\n%s" % (bad[:400], r.returncode, e[:4000]), "run: " + crash_line(e, r.returncode))
        return [json.loads(x) for x in outs]


def crash_line(t, rc):
    m = re.search(r"(\w+\.(?:cpp|h)):\d+:.*(Assertion .*? failed)", t)
    if m:
        return m.group(1) + " " + m.group(2)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t) or re.search(r"runtime error: ([^\n]*)", t)
    if m:
        return m.group(1)
    m = re.search(r"\[(?:ERROR|WARNING)\]: *(.*)", t)
    if m:
        return re.sub(r'^\S*?([^/\s]+:\d+): ', "", m.group(1))
    return "exit %d %s" % (rc, t[-200:])


_tmp = None


def tmp():
    d = os.path.join(os.environ.get("TMPDIR", "/tmp"), "vf-%d" % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d


MAIN = r'''
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        auto sp = line.find(' ');
        char cmd = line[0];
        auto idx = static_cast<std::size_t>(std::strtoul(line.c_str() + 1, nullptr, 10));
        refl::In in{sp == std::string::npos ? "" : line.c_str() + sp + 1};
        std::string o;
        run(o, cmd, idx, in);
        o += '\n';
        std::fwrite(o.data(), 1, o.size(), stdout);
        std::fflush(stdout);
    }
    return 0;
}
'''


def scope(main, path, *rest):
    return "::".join([main] + list(path) + list(rest))


def hdr(main, path, *rest):
    return "/".join([main] + list(path) + list(rest)) + ".h"


def subfields(f):
    for v in f.values():
        if isinstance(v, dict) and "kind" in v and "minLen" in v:
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict) and "kind" in y and "minLen" in y:
                    yield y


def referenced(model, c):
    """external names of the global fields the generated code needs"""
    glob = {f["ext"]: f for _, f in entities(model, "fields")}
    done = set()

    def visit(f):
        if f["kind"] == "ref":
            glb(f["target"])
        for y in subfields(f):
            if y.get("found") and y["ext"] in glob:
                glb(y["ext"])
            else:
                visit(y)

    def glb(e):
        if e in glob and e not in done:
            done.add(e)
            visit(glob[e])
    for kind in ("messages", "interfaces"):
        for _, m in entities(model, kind):
            for f in m["fields"]:
                visit(f)
    for _, fr in entities(model, "frames"):
        for l in fr["layers"]:
            for v in l.values():
                if isinstance(v, dict) and "minLen" in v:
                    if v.get("found") and v["ext"] in glob:
                        glb(v["ext"])
                    else:
                        visit(v)
    def forced(f):
        if f["forceGen"]:
            if f["ext"] in glob and glob[f["ext"]] is f:
                glb(f["ext"])
            else:
                visit(f)
        for y in subfields(f):
            if not (y.get("found") and y["ext"] in glob):
                forced(y)
    for f in glob.values():
        forced(f)
    return done


class MsgDriver:
    """one executable with every message (each on a chosen interface) and every global field"""

    def __init__(self, proj, model, main="proto", rng=None, ver=None, minrem=0, indep=False, others=(), fields=True, msgs=None, extra_inc=(), access=False, opts=None):
        self.p = proj
        self.model = model
        self.c = codec.Codec(model, others, forced=ver, minrem=minrem, indep=indep)
        if access:
            from . import desc
            access = self.access = desc.Access(self.c)
        ifs = entities(model, "interfaces")
        self.msgs = [(p, m) for p, m in entities(model, "messages")] if msgs is None else msgs
        ref = referenced(model, self.c)
        self.fields = [(p, f) for p, f in entities(model, "fields") if f["ext"] in ref] if fields else []
        self.ifof = []
        inc = list(extra_inc)
        mt = []
        for p, m in self.msgs:
            if ifs:
                ip, i = rng.choice(ifs)
                itype = scope(main, ip, cls(i["name"])) + "<>"
                inc.append(hdr(main, ip, cls(i["name"])))
            else:
                i = None
                itype = scope(main, (), "Message") + "<>"
                inc.append(hdr(main, (), "Message"))
            self.ifof.append(i)
            inc.append(hdr(main, p, "message", cls(m["name"])))
            mt.append(scope(main, p, "message", cls(m["name"])) + "<" + itype + (", Opts" if opts else "") + ">")
            if access:
                access.message(m, mt[-1])
        ft = []
        for p, f in self.fields:
            inc.append(hdr(main, p, "field", cls(f["name"])))
            ft.append(scope(main, p, "field", cls(f["name"])) + ("<Opts>" if opts else "<>"))
            if access:
                access.field(f, access.type(ft[-1]), 0, f["name"])
        src = '#include "refl/refl.h"\n'
        src += "".join('#include "%s"\n' % h for h in dict.fromkeys(inc))
        if opts:
            src += "using Opts = %s;\n" % opts
        src += "using Msgs = std::tuple<%s>;\n" % ",\n    ".join(mt)
        src += "using Flds = std::tuple<%s>;\n" % ",\n    ".join(ft)
        if access:
            src += access.source()
        src += "static void run(std::string& o, char cmd, std::size_t idx, refl::In& in)\n{\n"
        if access:
            src += "    if (cmd == 'A') { o += '\"'; o += accessBad(); o += '\"'; return; }\n"
        src += "    if (cmd == 'D' || cmd == 'R' || cmd == 'W') { refl::execAt<Msgs>(o, idx, cmd, in); }\n"
        src += "    else { refl::fieldAt<Flds>(o, idx, cmd, in); }\n}\n" + MAIN
        self.src = src

    def build(self):
        self.exe = self.p.compile(self.src)

    def talk(self, lines):
        return self.p.talk(self.exe, lines)


POLY = ["app::ReadIterator<const std::uint8_t*>", "app::WriteIterator<std::uint8_t*>", "app::LengthInfoInterface", "app::IdInfoInterface",
        "app::NameInterface", "app::ValidCheckInterface", "app::RefreshInterface"]


def iface_type(main, ifs, i, opts=POLY):
    """(header, C++ type) of an application interface based on the given one (path, interface) or the default one"""
    p, n = ((), "Message") if i is None else (i[0], cls(i[1]["name"]))
    return hdr(main, p, n), scope(main, p, n) + "<%s>" % ", ".join("comms::option::" + o for o in opts)


def in_ns(items, p):
    """those of the (path, entity) pairs that belong to the namespace"""
    return [x for x in items if (tuple(x[0][:len(p)]) == tuple(p) if p else not x[0])]


class FrameDriver:
    """one executable with every usable frame and the messages it carries"""

    def __init__(self, proj, model, main="proto", rng=None, ver=None, minrem=0, indep=False, maxframes=3):
        from . import frames
        self.p = proj
        self.c = codec.Codec(model, forced=ver, minrem=minrem, indep=indep)
        ifs = entities(model, "interfaces")
        msgs = [(p, m) for p, m in entities(model, "messages")]
        msgs.sort(key=lambda x: (x[1]["id"], x[1]["order"]))
        self.frames = []
        inc = [hdr(main, p, "message", cls(m["name"])) for p, m in msgs]
        src = ""
        run = ""
        for p, F in entities(model, "frames"):
            cand = [i for i in (ifs or [None]) if frames.usable(self.c, F, i and i[1])]
            if not cand or len(self.frames) >= maxframes:
                continue
            i = rng.choice(cand)
            own = in_ns(msgs, p)
            deflt = rng.random() < 0.4 or len(own) == len(msgs)
            try:
                fm = frames.Frame(self.c, F, i and i[1], [m for _, m in (own if deflt else msgs)])
            except codec.Unsupported:
                continue
            h, t = iface_type(main, ifs, i)
            inc += [h, hdr(main, p, "frame", cls(F["name"]))]
            n = len(self.frames)
            src += "using FI%d = %s;\nusing FM%d = std::tuple<%s>;\nusing FF%d = %s<FI%d%s>;\n" % (
                n, t, n, ", ".join(scope(main, mp, "message", cls(m["name"])) + "<FI%d>" % n for mp, m in msgs), n, scope(main, p, "frame", cls(F["name"])), n, "" if deflt else ", FM%d" % n)
            run += "    if (idx == %d) { refl::frame<FF%d, FM%d>(o, cmd, in); }\n" % (n, n, n)
            self.frames.append((F, i and i[1], fm))
        self.msgs = msgs
        self.src = '#include "refl/refl.h"\n' + "".join('#include "%s"\n' % h for h in dict.fromkeys(inc)) + '#include "comms/process.h"\n' + src
        self.src += "static void run(std::string& o, char cmd, std::size_t idx, refl::In& in)\n{\n    (void)o; (void)cmd; (void)idx; (void)in;\n" + run + "}\n" + MAIN

    build = MsgDriver.build
    talk = MsgDriver.talk
