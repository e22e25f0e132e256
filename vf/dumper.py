"""Client of the fork server drivers/dump.cpp."""
import json, os, subprocess, tempfile, shutil
from . import build


class Dumper:
    def __init__(self, n=1):
        self.dir = tempfile.mkdtemp(prefix="vfdump")
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1",
                 UBSAN_OPTIONS="print_stacktrace=1:exitcode=86")
        self.p = subprocess.Popen([os.path.join(build.BUILD, "bin", "dump")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=self.dir, text=True)
        self.n = 0

    def run(self, texts, flags="", prefixes="x_", keep=False):
        """texts: list of str/bytes; returns (result dict or None, exit, sig, stderr text)"""
        files = []
        for i, t in enumerate(texts):
            f = os.path.join(self.dir, "in%d.xml" % i)
            with open(f, "wb") as h:
                h.write(t if isinstance(t, bytes) else t.encode("utf-8"))
            files.append(f)
        return self.run_files(files, flags, prefixes)

    def run_files(self, files, flags="", prefixes="x_"):
        out = os.path.join(self.dir, "out.json")
        err = os.path.join(self.dir, "err.txt")
        if os.path.exists(out):
            os.unlink(out)
        self.p.stdin.write("\t".join([out, err, flags or "-", prefixes or "-"] + files) + "\n")
        self.p.stdin.flush()
        a = self.p.stdout.readline().split()
        if len(a) != 2:
            raise RuntimeError("dump server died")
        self.n += 1
        ec, sig = int(a[0]), int(a[1])
        res = None
        if ec == 0 and sig == 0:
            try:
                with open(out, encoding="utf-8", errors="surrogateescape") as h:
                    res = json.load(h)
            except ValueError:
                res = None
        et = ""
        if res is None or not res.get("ok"):
            with open(err, errors="replace") as h:
                et = h.read()
        return res, ec, sig, et

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
