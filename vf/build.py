"""Builds instrumented binaries from /repo's working tree (never touches /repo).

Objects go through a private ccache directory under /verif/build, so an unchanged
translation unit costs milliseconds whatever its mtime is."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CCDIR = os.path.join(BUILD, "ccache")
JOBS = int(os.environ.get("VF_JOBS", "8"))
APPS = ["comms", "c", "emscripten", "latex", "swig", "test", "tools_qt"]

CXX = "/usr/bin/clang++"
# asserts stay on: the maintainers' own run-time monitors are part of the oracle
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAGS = ["-std=c++17", "-O0", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS"] + SAN


class BuildError(Exception):
    pass


def ccenv():
    e = dict(os.environ)
    e.update(CCACHE_DIR=CCDIR, CCACHE_NOHASHDIR="1", CCACHE_COMPILERCHECK="string:vf-1",
             CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros,system_headers",
             CCACHE_MAXSIZE="4G", CCACHE_NOCOMPRESS="1", CCACHE_NOSTATS="1", LC_ALL="C")
    for k in ("CCACHE_BASEDIR", "CCACHE_DISABLE"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def compile_many(jobs, jobs_n=None):
    """jobs: list of (src, obj, flags[, compiler]); returns list of (src, returncode, output)."""
    os.makedirs(CCDIR, exist_ok=True)
    env = ccenv()

    def one(j):
        src, obj, flags = j[:3]
        cxx = j[3] if len(j) > 3 else CXX
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        r = run(["/usr/bin/ccache", cxx] + flags + ["-c", src, "-o", obj], env=env, cwd=BUILD)
        return src, r.returncode, r.stdout.decode("utf-8", "replace")
    with ThreadPoolExecutor(jobs_n or JOBS) as p:
        return list(p.map(one, jobs))


def sha_file(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


def link(out, objs, extra, flags=None):
    flags = SAN if flags is None else flags
    cmd = [CXX] + flags + objs + extra + ["-o", out]
    h = hashlib.sha1(("\0".join(cmd)).encode())
    for o in objs:
        h.update(sha_file(o).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = run(cmd)
    if r.returncode:
        raise BuildError("link %s\n%s" % (out, r.stdout.decode("utf-8", "replace")))
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def lib_sources():
    return sorted(glob.glob(REPO + "/lib/src/parse/*.cpp") + glob.glob(REPO + "/lib/src/gen/*.cpp"))


def inc():
    return ["-I" + REPO + "/lib/include", "-I" + REPO + "/lib/src", "-I" + REPO + "/lib/src/parse",
            "-I/usr/include/libxml2"]


def obj_for(src, tag):
    return os.path.join(BUILD, "obj", tag, src.strip("/").replace("/", "__") + ".o")


def _check(results):
    bad = [r for r in results if r[1] != 0]
    if bad:
        raise BuildError("\n".join("%s:\n%s" % (s, o[-3000:]) for s, _, o in bad[:3]))


def ensure(apps=(), dump=False):
    """Builds the library and the asked generators / the model dump driver; returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    tag = "san"
    jobs = [(s, obj_for(s, tag), FLAGS + inc()) for s in lib_sources()]
    libobjs = [j[1] for j in jobs]
    per = {}
    for a in apps:
        d = REPO + "/app/commsdsl2%s/src" % a
        srcs = sorted(glob.glob(d + "/*.cpp"))
        js = [(s, obj_for(s, tag), FLAGS + inc() + ["-I" + d]) for s in srcs]
        per[a] = [j[1] for j in js]
        jobs += js
    if dump:
        src = os.path.join(VERIF, "drivers", "dump.cpp")
        js = [(src, obj_for(src, tag), FLAGS + inc())]
        per["dump"] = [js[0][1]]
        jobs += js
    _check(compile_many(jobs))
    # one archive for the library: sorted members
    ar = os.path.join(BUILD, "bin", "libcommsdsl_san.a")
    os.makedirs(os.path.dirname(ar), exist_ok=True)
    h = hashlib.sha1("".join(sha_file(o) for o in libobjs).encode()).hexdigest()
    if not (os.path.exists(ar) and os.path.exists(ar + ".stamp") and open(ar + ".stamp").read() == h):
        if os.path.exists(ar):
            os.unlink(ar)
        r = run(["ar", "crsD", ar] + libobjs)
        if r.returncode:
            raise BuildError(r.stdout.decode())
        open(ar + ".stamp", "w").write(h)
    res = {}

    def lk(name):
        out = os.path.join(BUILD, "bin", "dump" if name == "dump" else "commsdsl2" + name)
        link(out, per[name] + [ar], ["-lxml2"])
        return name, out
    with ThreadPoolExecutor(JOBS) as p:
        for n, o in p.map(lk, list(per)):
            res[n] = o
    return res


def app_path(a):
    return os.path.join(BUILD, "bin", "commsdsl2" + a)


if __name__ == "__main__":
    import time
    t = time.time()
    print(ensure(APPS if "all" in sys.argv else [a for a in sys.argv[1:] if a in APPS], dump="dump" in sys.argv))
    print("%.1fs" % (time.time() - t))
