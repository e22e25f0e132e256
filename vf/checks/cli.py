"""G01 (determinism), G02 (containment, input/output failures), G03 (command line contract)."""
import zlib
import collections, os, random, re, resource, shutil, subprocess, tempfile
from .. import build, gen, hostile
from ..common import Violation, rng, seed_of

APPS = hostile.APPS
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SO = os.path.join(ROOT, "build", "iofault.so")
EXTS = dict(comms=[".inc", ".public", ".append", ".prepend", ".replace", ".extend", ".protected", ".private", ".read", ".write", ".valid", ".length", ".refresh", ".name", ".value"],
            c=[".inc", ".append", ".prepend", ".replace"], emscripten=[".inc", ".append", ".prepend", ".replace"],
            latex=[".append", ".prepend", ".replace"], swig=[".append", ".prepend", ".replace"], test=[".replace"], tools_qt=[".replace", ".append"])


def shim():
    src = os.path.join(ROOT, "drivers", "iofault.c")
    if not os.path.exists(SO) or os.path.getmtime(SO) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(SO), exist_ok=True)
        tmp = SO + ".%d" % os.getpid()
        subprocess.check_call(["/usr/bin/gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"])
        os.replace(tmp, SO)


def run(app, args, cwd, env=None, limit=60):
    """(exit, stdout, stderr)"""
    e = dict(hostile.ENV)
    e.update(env or {})

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    q = subprocess.run([build.app_path(app)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre, timeout=limit * 10)
    return q.returncode, q.stdout.decode("utf-8", "replace"), q.stderr.decode("utf-8", "replace")


def crashed(rc, out):
    return rc < 0 or rc == 86 or "runtime error:" in out or "AddressSanitizer" in out or "Assertion" in out


def snap(d):
    """contents of a tree; None for directories"""
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
    return out


def files(t):
    return {k: v for k, v in t.items() if v is not None}


def schema(tag, job, k=0, **o):
    for i in range(20):
        try:
            return gen.make(seed_of(tag, job, k, i), code=True, **o)
        except gen.GenError:
            pass
    raise gen.GenError("no schema")


def put(d, texts, name="in"):
    l = []
    for i, t in enumerate(texts):
        p = os.path.join(d, "%s%d.xml" % (name, i))
        open(p, "w").write(t)
        l.append(p)
    return l


def names(s):
    """names of messages and of interfaces, as references"""
    m = [".".join(list(p) + [el.props["name"]]) for p, sect, el in s.items if el.tag == "message"]
    i = [".".join(list(p) + [el.props["name"]]) for p, sect, el in s.items if el.tag == "interface"]
    f = [".".join(list(p) + [el.props["name"]]) for p, sect, el in s.items if el.tag == "frame"]
    return m, i, f


def options(app, r, s, d):
    """random legal options: [(name, value or None)]"""
    m, i, f = names(s)
    o = []
    ver = s.c.version

    def ch(p):
        return r.random() < p
    if ch(0.3):
        o.append(("force-schema-version", str(r.randint(0, ver))))
    if ch(0.3) and app not in ("test", "tools_qt"):
        o.append(("min-remote-version", str(r.randint(0, ver))))
    if ch(0.3):
        o.append(("namespace", r.choice(["other_ns", "proto2", "X"])))
    if ch(0.2):
        o.append(("code-inject-comments", None))
    if ch(0.2):
        o.append(("multiple-schemas-enabled", None))
    if ch(0.3):
        o.append(("code-version", "%d.%d.%d" % (r.randint(0, 9), r.randint(0, 20), r.randint(0, 3))))
    if app == "comms":
        if ch(0.4):
            o.append(("customization", r.choice(["full", "limited", "none"])))
        if ch(0.2):
            o.append(("version-independent-code", None))
        if ch(0.2):
            o.append(("force-main-ns-in-options", None))
        if ch(0.2) and m:
            p = os.path.join(d, "bundle.txt")
            open(p, "w").write("\n".join(r.sample(m, r.randint(1, len(m)))) + "\n")
            o.append(("extra-messages-bundle", r.choice(["", "Bnd@"]) + p))
    if app in ("c", "emscripten", "swig"):
        if ch(0.2) and m:
            p = os.path.join(d, "messages.txt")
            open(p, "w").write("\n".join(r.sample(m, r.randint(1, len(m)))) + "\n")
            o.append(("messages-list", p))
        if ch(0.2) and s.platforms:
            o.append(("force-platform", r.choice(s.platforms)))
        if ch(0.2) and i:
            o.append(("force-interface", r.choice(i)))
    if app == "c":
        if ch(0.3):
            o.append(("names-prefix", "pfx"))
        if ch(0.3):
            o.append(("comms-options", "ClientDefaultOptions"))
    if app in ("emscripten", "swig"):
        if ch(0.3):
            o.append(("force-main-ns-in-names", None))
        if ch(0.2):
            o.append(("has-code-version", None))
    if app == "tools_qt":
        if ch(0.3):
            o.append(("force-main-ns-in-options", None))
        if ch(0.3) and f and i:
            o.append(("protocol", "%s:%s:Name:Some text:id_1" % (r.choice(f), r.choice(i))))
    r.shuffle(o)
    return o


SHORT = {"quiet": "q", "debug": "d", "warn-as-err": "w", "output-dir": "o", "input-files-list": "i", "input-files-prefix": "p", "code-input-dir": "c",
         "multiple-schemas-enabled": "s", "namespace": "n", "min-remote-version": "m", "code-version": "V"}


def args_of(o, r=None, app=None):
    out = []
    for n, v in o:
        sh = SHORT.get(n) if not (app == "c" and n == "names-prefix") else "P"
        if app in ("latex",) and n == "code-version":
            sh = None
        out.append("-" + sh if sh and r and r.random() < 0.5 else "--" + n)
        if v is not None:
            out.append(v)
    return out


def code_dir(app, d, tree, r):
    """a directory with code to inject, for some of the generated files"""
    c = os.path.join(d, "code")
    os.makedirs(c, exist_ok=True)
    fs = sorted(f for f in tree if tree[f] is not None)
    n = 0
    for f in r.sample(fs, min(len(fs), 5)):
        e = r.choice(EXTS[app])
        if e == ".replace" and r.random() < 0.7:
            continue
        p = os.path.join(c, f + e)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("// injected %d\n" % n)
        n += 1
    for k in range(r.randint(0, 2)):
        p = os.path.join(c, r.choice(["extra%d.txt", "sub/extra%d.h", "include/extra%d.h"]) % k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write("extra file %d\n" % k)
        n += 1
    return c


# ------------------------------------------------------------------ G01

def g01_job(job, st):
    out = []
    r = rng("G01", job)
    s = schema("G01", job, nmsgs=r.choice([2, 5]), nfields=r.choice([5, 12]))
    d = tempfile.mkdtemp(prefix="vfg")
    try:
        ind = os.path.join(d, "in dir" if r.random() < 0.5 else "in")
        os.makedirs(ind)
        ins = put(ind, gen.to_files(s, nfiles=r.choice([1, 1, 2])))
        other = put(ind, gen.to_files(schema("G01o", job, nmsgs=3, nfields=5)), "other")
        for app in r.sample(APPS, 4):
            o = options(app, r, s, ind)
            od = os.path.join(d, "o")
            rc, so, se = run(app, args_of(o) + ["-o", od] + ins, d)
            if rc == 0 and r.random() < 0.5:
                o.append(("code-input-dir", code_dir(app, ind, snap(od), r)))
                shutil.rmtree(od)
                rc, so, se = run(app, args_of(o) + ["-o", od] + ins, d)
            base = snap(od) if os.path.isdir(od) else {}
            if rc != 0:
                st.count["%s refuses the options" % app] += 1
                shutil.rmtree(od, ignore_errors=True)
                continue
            st.count["%s" % app] += 1
            rep = {"in%d.xml" % i: open(p).read() for i, p in enumerate(ins)} | {"args.txt": " ".join(args_of(o))}

            def variant(what, args, cwd, env, outd, exact=True, key=None):
                rc2, so2, se2 = run(app, args, cwd, env)
                t = snap(outd) if os.path.isdir(outd) else {}
                if rc2 != rc:
                    out.append(Violation("commsdsl2%s: exit %d instead of %d %s: %s" % (app, rc2, rc, what, (so2 + se2)[-300:]), "%s: exit, %s" % (app, key or what), rep))
                    return
                a, b = (base, t) if exact else (files(base), {k: v for k, v in t.items() if k in base and v is not None})
                if a != b:
                    bad = sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))
                    out.append(Violation("commsdsl2%s: %d files differ %s, first %s" % (app, len(bad), what, bad[0]), "%s: differs, %s" % (app, key or what), rep | {"a.out": a.get(bad[0]) or b"", "b.out": b.get(bad[0]) or b""}))
                else:
                    st.case("%s %s %d %s" % (app, what, job, args_of(o)), **{"same output: " + (key or what): 1, "files compared": len(files(a))})

            A = args_of(o) + ["-o", od] + ins
            # 1. into its own output
            variant("when run again into its output", A, d, {}, od, key="again")
            # 2. damaged, longer or shorter previous files; files of another run
            fs = sorted(files(base))
            for f in r.sample(fs, min(len(fs), 12)):
                p = os.path.join(od, f)
                x = r.randrange(3)
                if x == 0:
                    os.unlink(p)
                else:
                    open(p, "wb").write(b"" if x == 1 else base[f] + b"old text\n" * 50)
            variant("over damaged previous files", A, d, {}, od, key="damaged")
            shutil.rmtree(od)
            if run(app, ["-o", od] + other, d)[0] == 0:
                variant("over the output of another schema", A, d, {}, od, exact=False, key="other schema")
            shutil.rmtree(od, ignore_errors=True)
            # 3. environment
            env = {r.choice(["TZ", "USER", "LOGNAME", "PWD", "X" * 50]): r.choice(["", "zz", "A" * 3000]), "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX", "nonsense", "tr_TR.UTF-8"]),
                   "HOME": d, "TMPDIR": r.choice(["/nonexistent", d]), "COLUMNS": "7", "TERM": "xterm", "LANG": "de_DE.UTF-8"}
            env["ASAN_OPTIONS"] = hostile.ENV["ASAN_OPTIONS"] + ":max_malloc_fill_size=100000:malloc_fill_byte=%d" % r.choice([0, 65, 171, 255])
            cw = os.path.join(d, "elsewhere", "x")
            os.makedirs(cw, exist_ok=True)
            variant("with another environment", A, cw, env, od, key="environment")
            shutil.rmtree(od, ignore_errors=True)
            if snap(cw):
                out.append(Violation("commsdsl2%s writes into the working directory: %s" % (app, sorted(snap(cw))[:3]), "%s: working directory" % app, rep))
                shutil.rmtree(cw)
                os.makedirs(cw)
            # 4. relative and odd spellings of the paths
            def spell(p):
                q = os.path.relpath(p, cw)
                x = r.randrange(5)
                return [q, "./" + q, q.replace("/", "//", 1), os.path.join(os.path.dirname(p), ".", os.path.basename(p)), p][x]
            o2 = [(n, ("@".join(v.split("@")[:-1] + [spell(v.split("@")[-1])]) if n == "extra-messages-bundle" and "@" in v else spell(v) if v and v.startswith(d) else v)) for n, v in o]
            r.shuffle(o2)
            od2 = spell(od) + r.choice(["", "/"])
            B = args_of(o2, r) + ["-o", od2]
            variant("with relative paths and other spelling and order of the options (%s)" % " ".join(B), r.choice([B + [spell(p) for p in ins], [spell(p) for p in ins] + B]) if len(ins) == 1 else B + [spell(p) for p in ins], cw, {}, od, key="relative paths")
            shutil.rmtree(od, ignore_errors=True)
            # 5. the working directory as the output, with unrelated files in it
            cw2 = os.path.join(d, "cwd2")
            os.makedirs(cw2)
            open(os.path.join(cw2, "unrelated.txt"), "w").write("x")
            variant("without output directory", args_of(o) + ins, cw2, {}, cw2, exact=False, key="no output directory")
            shutil.rmtree(cw2)
            # 6. files that look like injected code lie in the working directory and in the output directory
            if not any(n == "code-input-dir" for n, _ in o):
                for where in (cw2, od):
                    for f in r.sample(fs, min(len(fs), 8)):
                        for e in EXTS[app]:
                            p = os.path.join(where, f + e)
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            open(p, "w").write("stray text\n")
                variant("with stray files in the working and output directories", A, cw2, {}, od, exact=False, key="stray files")
                shutil.rmtree(cw2, ignore_errors=True)
                shutil.rmtree(od, ignore_errors=True)
            shutil.rmtree(os.path.join(ind, "code"), ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def g01(ck):
    build.ensure(APPS)
    ck.rule = "a case is one repeated run of a generator in changed circumstances whose complete output tree was compared byte by byte with the first run; distinct = distinct (generator, circumstances, schema, options)"
    ck.assumptions = ["only the locales C, C.UTF-8 and POSIX are installed in the sandbox; other locale names exercise the failure path only",
                      "heap contents are varied with the fill byte of AddressSanitizer, addresses by the system"]
    base = ck.seed * 7919
    ck.pmap(g01_job, [base + k for k in range(ck.scale(56, 2000))])


# ------------------------------------------------------------------ G02

def classify_path(rel):
    """kind of an output file: directory with names of user elements collapsed, and extension"""
    d, f = os.path.split(rel)
    parts = [p for p in d.split("/") if p]
    keep = {"include", "cmake", "doc", "message", "field", "frame", "input", "dispatch", "factory", "options", "src", "plugin", "layers", "prot", "core", "script"}
    d = "/".join(p if p in keep else "*" for p in parts)
    b, e = os.path.splitext(f)
    known = re.match(r"^(CMakeLists|Doxyfile|layout|Version|Fields?Base|FieldBase|MsgId|AllMessages|InterfaceMessages|\w*DefaultOptions|\w*OptionsT?|\w*InputMessages|Dispatch\w*|\w*Dispatcher\w*|\w*Factory\w*|\w*Common|Protocol|Plugin|main|test|\w*Test|Title|Makefile|\w*BareMetal\w*)$", b)
    if known:
        b = re.sub(r"^\w*?(Common|Options|OptionsT|InputMessages|Factory|Dispatcher|BareMetal\w*)$", r"*\1", re.sub(r"^Dispatch\w*$", "Dispatch*", b))
    return d + "/" + (b if known else "*") + e


def near(log, d):
    ops = []
    for l in open(log):
        n, kind, failed, p = l.rstrip("\n").split("\t", 3)
        ops.append((int(n), kind, p))
    return ops


def g02_job(job, st):
    out = []
    app = APPS[job % len(APPS)]
    r = rng("G02", job)
    s = schema("G02", job, nmsgs=r.choice([1, 2, 3]), nfields=r.choice([3, 6]))
    d = os.path.realpath(tempfile.mkdtemp(prefix="vfw"))
    try:
        for x in ("in", "cwd", "home", "tmp"):
            os.makedirs(os.path.join(d, x))
        ind, cwd = os.path.join(d, "in"), os.path.join(d, "cwd")
        ins = put(ind, gen.to_files(s, nfiles=r.choice([1, 2])))
        od = os.path.join(d, "out", "o")
        o = options(app, r, s, ind)
        for _ in range(6):
            rc, so, se = run(app, args_of(o) + ["-o", od] + ins, cwd)
            if rc == 0:
                break
            o = options(app, r, s, ind) if _ < 4 else []
        if rc:
            st.count["%s refuses" % app] += 1
            return out
        if r.random() < 0.7:
            o2 = o + [("code-input-dir", code_dir(app, ind, snap(od), r))]
            shutil.rmtree(od)
            if run(app, args_of(o2) + ["-o", od] + ins, cwd)[0] == 0:
                o = o2
        lst = os.path.join(ind, "list.txt")
        if r.random() < 0.4:
            open(lst, "w").write("\n".join(ins) + "\n")
            fin = ["-i", lst]
        else:
            fin = ins
        shutil.rmtree(os.path.join(d, "out"), ignore_errors=True)
        A = args_of(o) + ["-o", od] + fin
        env = dict(HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp"))
        before = {x: snap(os.path.join(d, x)) for x in ("in", "cwd", "home", "tmp")}
        log = os.path.join(d, "log")
        mon = dict(env, LD_PRELOAD=SO, VF_LOG=log)
        rc, so, se = run(app, A, cwd, mon)
        rep = {"in%d.xml" % i: open(p).read() for i, p in enumerate(ins)} | {"args.txt": "commsdsl2%s %s" % (app, " ".join(A))}
        if rc:
            out.append(Violation("commsdsl2%s: exit %d on the second run: %s" % (app, rc, se[-300:]), "%s: second run" % app, rep))
            return out
        base = snap(od)
        ops = near(log, d)
        # ---- containment
        written = set()
        for n, kind, p in ops:
            if kind in ("ropen", "read", "write"):
                continue
            a = os.path.normpath(os.path.join(cwd, p))
            if a != od and not a.startswith(od + "/") and not (kind == "mkdir" and (od + "/").startswith(a + "/")):
                out.append(Violation("commsdsl2%s: %s of %s outside of the output directory" % (app, kind, p), "%s: %s outside" % (app, kind), rep))
            elif kind == "wopen":
                written.add(os.path.relpath(a, od))
        for x, t in before.items():
            if snap(os.path.join(d, x)) != t:
                out.append(Violation("commsdsl2%s changes the directory %s" % (app, x), "%s: changes %s" % (app, x), rep))
        miss = set(files(base)) - written
        if miss:
            st.count["files not seen by the monitor"] += len(miss)
        st.count["%s: operations seen" % app] += len(ops)
        st.count["%s: clean runs" % app] += 1
        # ---- faults
        by = collections.defaultdict(list)
        for n, kind, p in ops:
            a = os.path.normpath(os.path.join(cwd, p))
            if kind in ("ropen", "read"):
                if not os.path.isfile(a) or not a.startswith(ind + "/"):
                    if a.startswith(od + "/"):
                        by["re-" + kind + " " + classify_path(os.path.relpath(a, od))].append((n, p))
                    continue
                c = "schema" if a.endswith(".xml") and "/code/" not in a else "list" if a.endswith(".txt") and "/code/" not in a else "injected code"
                by[kind + " " + c].append((n, p))
            else:
                by[kind + " " + (classify_path(os.path.relpath(a, od)) if a.startswith(od + "/") else "output directory")].append((n, p))
        by.pop("ropen injected code", None)
        cls = sorted(by)
        for k in cls:
            st.count["class %s %s" % (app, k)] += 0
        parts = -(-len(cls) // 14)  # successive jobs of a tool take successive parts of the classes
        mine = [c for c in cls if (zlib.crc32(c.encode()) + job // len(APPS)) % parts == 0]
        picks = [(c, r.choice(by[c])) for c in r.sample(mine, min(len(mine), 18))]
        for c, (n, p) in picks:
            shutil.rmtree(os.path.join(d, "out"), ignore_errors=True)
            if os.path.exists(log):
                os.unlink(log)
            en = r.choice([5, 28, 13, 30] if "open" in c or "mkdir" in c else [5, 28, 122] if "write" in c else [5])
            fenv = dict(mon, VF_FAIL=str(n), VF_ERRNO=str(en))
            if c.startswith("write") and r.random() < 0.3:
                fenv["VF_SHORT"] = "1"
            rc2, so2, se2 = run(app, A, cwd, fenv)
            t = snap(od) if os.path.isdir(od) else {}
            hit = any(l.split("\t")[2] == "1" for l in open(log))
            if not hit:
                st.count["fault not reached"] += 1
                continue
            bad = None
            if crashed(rc2, so2 + se2):
                bad = "dies (exit %d): %s" % (rc2, hostile.crash_key(so2 + se2))
            elif rc2 == 0 and t != base:
                m = sorted(k for k in set(base) | set(t) if base.get(k, 0) != t.get(k, 0))
                bad = "exit 0, but the output is not complete (%s)" % ", ".join(m[:3])
            elif rc2 != 0 and not re.search(r"ERROR|nhandled exception", se2):
                bad = "exit %d without any error message" % rc2
            if bad:
                out.append(Violation("commsdsl2%s: failing %s (errno %d) of %s: %s" % (app, c.split()[0], en, p, bad), "%s: %s: %s" % (app, c, re.sub(r"\(.*", "", bad).strip()), rep | {"output.txt": so2[-2000:] + se2[-3000:]}))
            else:
                st.case("%s %s %d %s" % (app, c, job, p), **{"faults answered by " + ("a failure with a message" if rc2 else "complete output"): 1, "fault " + c.split()[0]: 1, "class %s %s" % (app, c): 1})
        # ---- obstacles that are really there
        for _ in range(2):
            shutil.rmtree(os.path.join(d, "out"), ignore_errors=True)
            f = r.choice(sorted(files(base)))
            p = os.path.join(od, f)
            what = r.choice(["directory in the place of a file", "file in the place of a directory", "output directory is a file", "link to nowhere", "input is a directory", "input is missing", "list is missing", "code directory is missing"])
            B = list(A)
            if what.startswith("directory in"):
                os.makedirs(p)
            elif what.startswith("file in"):
                if not os.path.dirname(f):
                    continue
                q = os.path.join(od, r.choice([os.path.dirname(f), f.split("/")[0]]))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").write("x")
            elif what.startswith("output"):
                os.makedirs(os.path.dirname(od))
                open(od, "w").write("x")
            elif what.startswith("link"):
                os.makedirs(os.path.dirname(p))
                os.symlink("/nonexistent/dir/x", p)
            elif what.startswith("input is"):
                bad = ind if "directory" in what else os.path.join(ind, "nosuch.xml")
                B = args_of(o) + ["-o", od] + ins + [bad]
            elif what.startswith("list"):
                B = args_of(o) + ["-o", od] + ins + ["-i", os.path.join(ind, "nosuch.txt")]
            else:
                if any(n == "code-input-dir" for n, _ in o):
                    continue
                B = A + ["-c", os.path.join(ind, "nosuchdir")]
            rc2, so2, se2 = run(app, B, cwd, env)
            if rc2 == 0 or crashed(rc2, so2 + se2) or "ERROR" not in so2 + se2:
                out.append(Violation("commsdsl2%s: exit %d although %s (%s): %s" % (app, rc2, what, f, (so2 + se2)[-300:]), "%s: %s" % (app, what), rep))
            else:
                st.case("%s %s %d %s" % (app, what, job, f), **{"obstacle: " + what: 1})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def g02(ck):
    build.ensure(APPS)
    shim()
    ck.rule = "a case is one run of a generator in which one file operation was made to fail (or a real obstacle was put in its way) and the fault was seen to hit; distinct = distinct (generator, operation, file, schema)"
    ck.assumptions = ["operations are observed and made to fail at the interface of the C library (LD_PRELOAD), one per run; closing of a file is not made to fail",
                      "changes outside of the output directory are looked for in the monitored operations and by comparing the directories used by the run"]
    base = ck.seed * 7919
    base -= base % len(APPS)
    ck.pmap(g02_job, [base + k for k in range(ck.scale(140, 4000))])


# ------------------------------------------------------------------ G03

COMMON = ["help", "version", "quiet", "debug", "warn-as-err", "output-dir", "input-files-list", "input-files-prefix", "code-input-dir", "multiple-schemas-enabled", "namespace",
          "force-schema-version", "code-inject-comments"]
SEL = ["messages-list", "force-platform", "force-interface"]
OPTS = {
    "comms": COMMON + ["min-remote-version", "code-version", "customization", "version-independent-code", "extra-messages-bundle", "force-main-ns-in-options"],
    "c": COMMON + ["min-remote-version", "code-version", "names-prefix", "comms-options", "comms-input"] + SEL,
    "emscripten": COMMON + ["min-remote-version", "code-version", "force-main-ns-in-names", "has-code-version"] + SEL,
    "swig": COMMON + ["min-remote-version", "code-version", "force-main-ns-in-names", "has-code-version"] + SEL,
    "test": COMMON + ["code-version"],
    "tools_qt": COMMON + ["code-version", "protocol", "force-main-ns-in-options"],
    "latex": COMMON + ["min-remote-version"],
}
WARN = [("unknown attribute", "<fields>", '<fields><int name="VfWarnFld" type="uint8" vfUnknown="1"/>'), ("unknown element", "<fields>", '<fields><int name="VfWarnFld" type="uint8"><vfUnknown value="1"/></int>')]


def msg_files(app, tree, mname):
    """True if there is a file for the (unique) message name"""
    last = mname.split(".")[-1]
    cands = {last, last[:1].upper() + last[1:]}
    for f in files(tree):
        b = os.path.splitext(os.path.basename(f))[0]
        if "/message/" in f and any(b == c or b.endswith("_" + c) or b.endswith(c) for c in cands):
            return True
    return False


class G3:
    def __init__(self, job, st):
        self.job, self.st, self.out = job, st, []
        self.app = APPS[job % len(APPS)]
        self.r = rng("G03", job)
        self.n = 0
        self.top = "cc_c/%s/" if self.app == "c" else "include/%s/"

    def bad(self, key, what, A=None, extra=""):
        rep = {f: open(os.path.join(self.ind, f)).read() for f in os.listdir(self.ind) if os.path.isfile(os.path.join(self.ind, f))}
        rep["args.txt"] = "commsdsl2%s %s" % (self.app, " ".join(A or []))
        rep["output.txt"] = extra[-4000:]
        self.out.append(Violation("commsdsl2%s: %s" % (self.app, what), "%s: %s" % (self.app, key), rep))

    def ok(self, sig, **c):
        self.st.case("%s %s %d" % (self.app, sig, self.job), **({"rule " + re.sub(r"\W+", " ", sig): 1} | c))

    def go(self, args, cwd=None, keep=False):
        """exit, stdout, stderr, tree of the output directory; checks the rules all runs have to obey"""
        od = os.path.join(self.d, "out%d" % self.n)
        self.n += 1
        wd = cwd or self.cwd
        A = (["-o", od] if cwd is None else []) + args
        rc, so, se = run(self.app, A, wd)
        t = snap(od if cwd is None else cwd)
        if os.path.isdir(od) and not keep:
            shutil.rmtree(od)
        self.st.count["runs"] += 1
        if crashed(rc, so + se):
            self.bad("dies", "exit %d: %s" % (rc, hostile.crash_key(so + se)), A, so + se)
        elif rc == 0 and re.search(r"^\[ERROR\]|^ERROR", se + so, re.M):
            self.bad("success with an error message", "exit 0 although it reports an error: %s" % se[-200:], A, so + se)
        elif rc != 0 and not re.search(r"^\[ERROR\]|^ERROR", se, re.M):
            self.bad("failure without a message", "exit %d without any error on the error stream" % rc, A, so + se)
        if re.search(r"^\[(INFO|DEBUG)\]", se, re.M) or re.search(r"^\[(WARNING|ERROR)\]", so, re.M):
            self.bad("message on the wrong stream", "warnings and errors belong to the error stream, the rest to the output stream", A, so + se)
        return rc, so, se, t

    def same(self, key, A, B, tA, tB):
        m = sorted(k for k in set(tA) | set(tB) if tA.get(k, 0) != tB.get(k, 0))
        if m:
            self.bad(key, "%s: outputs of\n  %s\n  %s\ndiffer: %s" % (key, " ".join(A), " ".join(B), ", ".join(m[:4])), B)
        else:
            self.ok(key)

    def refused(self, key, args, nofiles=True):
        rc, so, se, t = self.go(args)
        if rc == 0:
            self.bad("accepts " + key, "exit 0 although the options are not acceptable (%s)" % key, args, so + se)
        elif nofiles and files(t):
            self.bad("files after " + key, "generates files although the options are refused (%s)" % key, args, so + se)
        else:
            self.ok("refused: " + key)

    # ---- the rules
    def r_help(self):
        for o in ("--help", "-h"):
            extra = self.r.choice([[], self.ins, ["--no-such-option"], ["-q", "-d"]])
            A = self.r.choice([[o] + extra, extra + [o]])
            rc, so, se, t = self.go(A)
            listed = set(re.findall(r"--([a-z][a-z-]+)", so))
            miss = set(OPTS[self.app]) - listed
            if rc or t:
                self.bad("help", "%s gives exit %d and %d files" % (o, rc, len(t)), A, so + se)
            elif miss:
                self.bad("help", "help does not mention the option(s) %s" % ", ".join(sorted(miss)), A, so)
            else:
                self.ok("help %s" % o)
        rc, so, se, t = self.go(["--version"] + self.r.choice([[], self.ins]))
        want = ".".join(re.search(r"#define COMMSDSL_%s_VERSION \(?(\d+)" % x, version_h()).group(1) for x in ("MAJOR", "MINOR", "PATCH"))
        if rc or t or so.strip() != want:
            self.bad("version", "--version gives exit %d, %r instead of %s, %d files" % (rc, so[:50], want, len(t)), ["--version"], so + se)
        else:
            self.ok("version")

    def r_levels(self):
        A = args_of(self.o) + self.ins
        rc, so, se, t = self.go(self.qa(["--quiet"]) + A)
        if rc:
            self.bad("quiet", "exit %d with --quiet" % rc, A, so + se)
        elif so.strip():
            self.bad("quiet", "--quiet prints %r" % so[:80], A, so + se)
        else:
            self.same("quiet leaves the output", A, ["-q"], self.t, t)
        rc, so, se, t = self.go(self.qa(["--debug"]) + A)
        if rc or "[DEBUG]" not in so or "[INFO]" not in so:
            self.bad("debug", "--debug gives exit %d and no debug messages" % rc, A, so + se)
        else:
            self.same("debug leaves the output", A, ["-d"], self.t, t)
        if "[DEBUG]" in self.so or "[INFO]" not in self.so:
            self.bad("default level", "unexpected verbosity without options", A, self.so)
        self.refused("quiet together with debug", self.qa(["--quiet", "--debug"]) + A)

    def qa(self, l):
        return [("-" + SHORT[x[2:]]) if self.r.random() < 0.5 else x for x in l]

    def r_spelling(self):
        for _ in range(2):
            o = list(self.o) + ([("quiet", None)] if self.r.random() < 0.4 else [])
            self.r.shuffle(o)
            toks = []
            for n, v in o:
                x = args_of([(n, v)], self.r, self.app)
                if v is not None and x[0].startswith("--") and self.r.random() < 0.5:
                    x = [x[0] + "=" + v]
                toks.append(x)
            # files between the options, in their order
            A = []
            fl = [[f] for f in self.ins]
            while toks or fl:
                A += (toks if toks and (not fl or self.r.random() < 0.6) else fl).pop(0)
            rc, so, se, t = self.go(A)
            if rc:
                self.bad("spelling", "exit %d with another order or spelling of the options: %s" % (rc, se[-200:]), A, so + se)
            else:
                self.same("spelling and order of options", args_of(self.o) + self.ins, A, self.t, t)

    def r_output(self):
        wd = os.path.join(self.d, "here%d" % self.n)
        os.makedirs(wd)
        A = args_of(self.o) + self.ins
        rc, so, se, t = self.go(A, cwd=wd)
        if rc:
            self.bad("no output directory", "exit %d without -o: %s" % (rc, se[-200:]), A, so + se)
        else:
            self.same("output to the working directory", A, A, self.t, t)
        shutil.rmtree(wd)

    def r_list(self):
        lst = os.path.join(self.ind, "list%d.txt" % self.n)
        k = self.r.randint(0, len(self.ins))
        if k == 0:
            k = len(self.ins)
        nl = self.r.choice(["\n", "\r\n", "\n\n"])
        A = args_of(self.o)
        if self.r.random() < 0.5:
            pre = self.r.choice([self.ind, self.ind + "/", os.path.dirname(self.ind)])
            rel = [os.path.relpath(p, pre) for p in self.ins[:k]]
            A += self.r.choice([["-i", lst, "-p", pre], ["-p", pre, "-i", lst], ["--input-files-prefix", pre, "--input-files-list", lst]])
        else:
            rel = self.ins[:k]
            A += ["-i", lst]
        open(lst, "w", newline="").write(nl.join(rel) + self.r.choice(["", nl]))
        A += self.ins[k:]
        rc, so, se, t = self.go(A)
        if rc:
            self.bad("list", "exit %d with a list of files: %s" % (rc, se[-200:]), A, so + se)
        else:
            self.same("list of files", args_of(self.o) + self.ins, A, self.t, t)
        self.refused("missing list", args_of(self.o) + ["-i", os.path.join(self.ind, "nolist")] + self.r.choice([[], self.ins]))
        self.refused("no input files", args_of(self.o))

    def r_warn(self):
        A = args_of(self.o)
        rc, so, se, t = self.go(["-w"] + A + self.ins)
        if (rc != 0) != ("[WARNING]" in self.se):
            w = [x for x in self.se.splitlines() if "[WARNING]" in x]
            late = rc == 0 and w and all("emscripten cannot handle enum values" in x for x in w)
            self.bad("warn-as-err" + " in the writing phase" * bool(late), "exit %d with --warn-as-err; warnings without it: %r" % (rc, self.se[:200]), ["-w"] + A, so + se)
        elif rc == 0:
            self.same("warn-as-err without warnings", A, ["-w"] + A, self.t, t)
        what, a, b = self.r.choice(WARN)
        txt = open(self.ins[0]).read()
        if a not in txt:
            return
        p = os.path.join(self.ind, "warn%d.xml" % self.n)
        open(p, "w").write(txt.replace(a, b, 1))
        ins = [p] + self.ins[1:]
        rc, so, se, t = self.go(A + ins)
        if rc or "[WARNING]" not in se:
            self.bad("warning", "schema with an %s: exit %d, %r" % (what, rc, se[:200]), A + ins, so + se)
            return
        self.ok("warning: " + what)
        rc, so, se, t = self.go(self.qa(["--quiet"]) + A + ins)
        if rc or "[WARNING]" not in se:
            self.bad("warning", "--quiet hides warnings: exit %d, %r" % (rc, se[:200]), A + ins, so + se)
        B = self.qa(["--warn-as-err"]) + A + ins
        self.refused("warning with --warn-as-err", B)

    def r_versions(self):
        ver = self.s.c.version
        base = [x for x in self.o if x[0] != "force-schema-version"]
        A = args_of(base)
        rc, so, se, t0 = self.go(A + self.ins)
        rc1, so, se, t1 = self.go(A + ["--force-schema-version", str(ver)] + self.ins)
        if rc or rc1:
            self.bad("same version", "exit %d with --force-schema-version equal to the version of the schema" % rc1, A, so + se)
        else:
            self.same("force-schema-version to the same version", A, A + ["--force-schema-version", str(ver)], t0, t1)
        self.refused("schema version beyond the schema", A + ["--force-schema-version", str(ver + self.r.choice([1, 7, 1000, 4000000000]))] + self.ins)
        self.refused("schema version that is not a number", A + ["--force-schema-version", self.r.choice(["abc", "-1", "1x", "", "0x", "99999999999999999999", "4294967296"])] + self.ins)
        if "min-remote-version" in OPTS[self.app]:
            B = args_of([x for x in self.o if x[0] != "min-remote-version"])
            self.refused("remote version that is not a number", B + [self.r.choice(["-m", "--min-remote-version"]), self.r.choice(["abc", "-1", "1x", "", "99999999999999999999"])] + self.ins)

    def r_unknown(self):
        A = args_of(self.o) + self.ins
        u = self.r.choice(["--no-such-option", "-Z", "--quite", "-qd", "-", "--outputdir", "--warn"])
        B = [u] + A if self.r.random() < 0.5 else A + [u]
        rc, so, se, t = self.go(B)
        if u not in se:
            self.bad("unknown option", "unknown option %s is not reported" % u, B, so + se)
        else:
            self.ok("unknown option")
        v = self.r.choice([n for n in ("input-files-list", "code-input-dir", "namespace", "force-schema-version") if n not in [x for x, _ in self.o]] or ["input-files-prefix"])
        B = A + ["--" + v]
        rc, so, se, t = self.go(B)
        if "--" + v not in se:
            self.bad("missing value", "missing value of --%s is not reported" % v, B, so + se)
        else:
            self.ok("missing value")

    def r_namespace(self):
        base = [x for x in self.o if x[0] not in ("namespace", "names-prefix")]
        A = args_of(base)
        new = self.r.choice(["vf_renamed", "VfOther"])
        rc, so, se, t = self.go(A + ["-n", new] + self.ins)
        old = self.s.model["name"]
        rc2, so2, se2, t2 = self.go(A + ["--namespace", "%s:%s" % (old, new)] + self.ins)
        if rc or rc2:
            self.bad("namespace", "exit %d/%d with a new namespace" % (rc, rc2), A, so + se + se2)
            return
        self.same("both forms of the namespace option", ["-n", new], ["-n", old + ":" + new], t, t2)
        if self.app in ("comms", "c"):
            if not any(f.startswith(self.top % new) for f in t) or any(f.startswith(self.top % old) for f in t):
                self.bad("namespace", "files are not in the requested namespace %s (schema %s)" % (new, old), A, so)
            else:
                ns = [f for f in t if t[f] and self.app == "comms" and re.search(rb"\bnamespace %s\b|[^\w]%s::" % (old.encode(), old.encode()), t[f])]
                if ns:
                    self.bad("namespace", "%s still refers to namespace %s after renaming to %s" % (ns[0], old, new), A, so)
                else:
                    self.ok("namespace in files")

    def r_multi(self):
        o = schema("G03m", self.job, nmsgs=1, nfields=2, name="vflib")
        p = put(self.ind, gen.to_files(o), "other")
        base = args_of([x for x in self.o if x[0] not in ("multiple-schemas-enabled", "names-prefix", "comms-options", "force-platform", "force-interface", "messages-list", "extra-messages-bundle", "protocol", "namespace", "force-schema-version")])
        self.refused("two schemas without -s", base + p + self.ins)
        rc, so, se, t = self.go(base + ["-s"] + p + self.ins)
        if rc:
            self.bad("multiple schemas", "exit %d with two schemas and -s: %s" % (rc, se[-300:]), base + ["-s"] + p + self.ins, so + se)
        elif self.app in ("comms", "c"):
            miss = [n for n in ((o.model["name"], self.s.model["name"]) if self.app == "comms" else (self.s.model["name"],)) if not any(f.startswith(self.top % n) for f in t)]
            if miss:
                self.bad("multiple schemas", "no files for schema %s" % miss, base, so)
            else:
                self.ok("two schemas")

    def r_code_version(self):
        if "code-version" not in OPTS[self.app] or self.app not in ("comms", "c"):
            return
        v = [self.r.randint(1, 99) for _ in range(3)]
        A = args_of([x for x in self.o if x[0] != "code-version"]) + ["-V", "%d.%d.%d" % tuple(v)] + self.ins
        rc, so, se, t = self.go(A)
        txt = b"\n".join(t[f] for f in t if t[f] and re.search(r"[Vv]ersion\.h$", f)).decode()
        got = {k: re.search(r"#define \w+_%s_VERSION \((\w+)\)" % k, txt) for k in ("MAJOR", "MINOR", "PATCH")}
        val = [int(g.group(1).rstrip("U")) if g else None for g in got.values()]
        if rc or val != v:
            self.bad("code version", "code version %s is recorded as %s" % (v, val), A, txt)
        else:
            self.ok("code version")

    def r_select(self):
        if "messages-list" not in OPTS[self.app]:
            return
        m, i, f = names(self.s)
        base = args_of([x for x in self.o if x[0] not in SEL])
        lst = os.path.join(self.ind, "msgs%d.txt" % self.n)
        lasts = [x.split(".")[-1].lower() for x in m]
        if m and len(set(lasts)) == len(lasts) and not any(a != b and a.endswith(b) for a in lasts for b in lasts):
            sel = self.r.sample(m, self.r.randint(1, len(m)))
            open(lst, "w", newline="").write(self.r.choice(["\n", "\r\n", "\n\n"]).join(sel))
            A = base + ["--messages-list", lst] + self.ins
            rc, so, se, t = self.go(A)
            if rc:
                self.bad("messages list", "exit %d with a list of messages: %s" % (rc, se[-200:]), A, so + se)
            else:
                _, _, _, full = self.go(base + self.ins)
                for x in m:
                    have, could = msg_files(self.app, t, x), msg_files(self.app, full, x)
                    if have != (could and x in sel):
                        self.bad("messages list", "message %s is %s although it is %s the list" % (x, "generated" if have else "not generated", "in" if x in sel else "not in"), A, so)
                        break
                else:
                    self.ok("messages list")
            self.refused("messages list together with platform", base + ["--messages-list", lst, "--force-platform", (list(self.s.platforms) + ["p"])[0]] + self.ins)
        open(lst, "w").write("\n".join(m[:1] + ["NoSuchMsg"]))
        self.refused("unknown message in the list", base + ["--messages-list", lst] + self.ins)
        self.refused("missing messages list", base + ["--messages-list", lst + ".nosuch"] + self.ins)
        self.refused("unknown platform", base + ["--force-platform", "NoSuchPlat"] + self.ins)
        self.refused("unknown interface", base + ["--force-interface", "NoSuchIface"] + self.ins)

    def r_special(self):
        base = args_of([x for x in self.o if x[0] not in ("extra-messages-bundle", "protocol", "customization")])
        m, i, f = names(self.s)
        if self.app == "comms":
            self.refused("missing bundle list", base + ["--extra-messages-bundle", "B@" + os.path.join(self.ind, "nosuch")] + self.ins)
            p = os.path.join(self.ind, "bnd%d.txt" % self.n)
            open(p, "w").write("NoSuchMsg\n")
            self.refused("unknown message in the bundle", base + ["--extra-messages-bundle", "B@" + p] + self.ins)
            A = base + ["--customization", "nonsense"] + self.ins
            rc, so, se, t = self.go(A)
            B = base + ["--customization", "limited"] + self.ins
            rc2, _, _, t2 = self.go(B)
            if "nonsense" not in se:
                self.bad("unknown customization", "unknown customization level is not reported", A, so + se)
            elif rc2:
                self.bad("customization", "exit %d with --customization limited" % rc2, B)
            else:
                self.same("default customization", A, B, {k: v for k, v in t.items()}, t2)
            cnt = {}
            for lvl in ("none", "limited", "full"):
                rc, so, se, t = self.go(base + ["--customization=" + lvl] + self.ins)
                txt = b"".join(v for k, v in t.items() if v and k.endswith("/options/DefaultOptions.h")).decode()
                cnt[lvl] = set(re.findall(r"using (\w+) =", txt)) if not rc else None
            if None in cnt.values() or not (cnt["none"] <= cnt["limited"] <= cnt["full"]):
                self.bad("customization", "the options offered by the levels are not nested: %s" % {k: len(v or ()) for k, v in cnt.items()}, base)
            else:
                self.ok("customization levels", **{"aliases none/limited/full: growing": int(cnt["none"] < cnt["full"])})
        if self.app == "tools_qt":
            fr, itf = (f + [""])[0], (i + [""])[0]
            self.refused("plugin with unknown frame", base + ["--protocol", "NoSuchFrame:%s:N:D:i" % itf] + self.ins)
            self.refused("plugin with unknown interface", base + ["--protocol", "%s:NoSuchIface:N:D:i" % fr] + self.ins)
        if self.app == "c":
            rc, so, se, t = self.go(base + ["--names-prefix", "vfpfx"] + self.ins)
            hdr = [k for k in t if t[k] and k.endswith(".h")]
            if rc or not any(b"vfpfx_" in t[k] for k in hdr):
                self.bad("names prefix", "exit %d, prefix is not used" % rc, base, so + se)
            else:
                self.ok("names prefix")


def version_h():
    return open("/repo/lib/include/commsdsl/version.h").read()


RULES = [k for k in sorted(vars(G3)) if k.startswith("r_")]


def g03_job(job, st):
    g = G3(job, st)
    r = g.r
    g.s = schema("G03", job, nmsgs=r.choice([1, 2, 3, 4]), nfields=r.choice([2, 4]))
    d = g.d = os.path.realpath(tempfile.mkdtemp(prefix="vfx"))
    try:
        g.ind, g.cwd = os.path.join(d, "in"), os.path.join(d, "cwd")
        os.makedirs(g.ind)
        os.makedirs(g.cwd)
        g.ins = put(g.ind, gen.to_files(g.s, nfiles=r.choice([1, 2, 3])))
        for k in range(6):
            g.o = options(g.app, r, g.s, g.ind) if k < 5 else []
            rc, g.so, g.se, g.t = g.go(args_of(g.o) + g.ins)
            if rc == 0:
                break
            del g.out[:]
        if rc:
            st.count["%s refuses" % g.app] += 1
            return g.out
        k = len(APPS)
        for x in RULES:
            getattr(g, x)()
            if files(snap(g.cwd)):
                g.bad("files in the working directory", "rule %s leaves files in the working directory although -o is given" % x)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return g.out


def g03(ck):
    build.ensure(APPS)
    ck.rule = "a case is one rule of the command line contract confirmed for one generator, schema and set of options; distinct = distinct (generator, rule, schema)"
    ck.assumptions = ["the list of options every generator has is written down in the check, from the documentation"]
    base = ck.seed * 7919
    base -= base % len(APPS)
    ck.pmap(g03_job, [base + k for k in range(ck.scale(84, 2400))])


CHECKS = {"G01": g01, "G02": g02, "G03": g03}
