"""P01: hostile schemas and command lines."""
import os, re, glob, random, shutil, subprocess, tempfile, resource, time
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from . import build, gen

APPS = ("comms", "c", "emscripten", "latex", "swig", "test", "tools_qt")
NUMS = ["0", "1", "-1", "2", "3", "7", "8", "9", "63", "64", "65", "127", "128", "255", "256", "-128", "-129", "32767", "65535", "65536", "2147483647", "2147483648",
        "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "0x7fffffffffffffff", "0xffffffffffffffff", "0x8000000000000000",
        "-0x8000000000000000", "0x", "0b101", "1e400", "nan", "inf", "-inf", "-nan", "1.5", "+5", " 5 ", "5 5", "1/0", "1/2", "-3/7", "9223372036854775807/1", "1/-9223372036854775808",
        "0.1e-320", "- 1", "--1", "0000000000000000000000001", "4294967295/4294967295", "1000000", "4294967290"]
STRS = ["", " ", ".", "..", "a", "a.b", ".a", "a.", "a..b", "a.b.c.d.e", "$", "$.", "$a", "$$a", "%a", "^", "^a", "^.", "^a.b.c", "#", "##a", "@", "@a", "@a.b", "@.", "@proto", "@proto.", "?a", "!a",
        "!", "!$a", "!$", "$a=", "$a = ", "=1", "$a = 1", "$a > $b", "$a.b != ^c", "$a.b.c.d = 3", "%a = 1", "size($a) > 0", "size()", "exists($a)", "exists(", "^^^", "[1,2]", "[1", "1]", "[,]", "[]", "[5,1]",
        "[min,max]", "(1,2)", "[-9223372036854775808, 18446744073709551615]", "[0,0x7fffffffffffffff]", "true", "false", "TRUE", "yes", "big", "little", "uint8", "int64", "intvar", "uintvar", "uint32", "int8", "float", "double",
        "crc-ccitt", "custom", "sum", "xor", "crc-16", "crc-32", "messageId", "version", "length", "exists", "missing", "tentative", "both", "client", "server", "any", "none", "replace", "extend",
        "+a,b", "-a", "+", "-", "+,", "a,,b", "a,a", "\"", "\\", "\\\\\\", "#01", "#zz", "0a0b", "0g", "0a0", "\n", "\t", "\x7f", "é", "日本", "a" * 300, "a." * 200, "1" * 400, "%s%n%x", "../../x", "class", "int", "_", "__a", "1a", "a b",
        "true_", "operator", "default", "std", "schema", "units", "millisec", "ms", "minute", "all", "hex", "%", "%%"]
SPECIAL_TEXT = ["<![CDATA[]]>", "<![CDATA[a<b]]>", "&lt;", "&#0;", "&amp;", "&#x10FFFF;", "<!-- c -->", "<?pi x?>"]
ELEMS = None
CORPUS = None


class N:
    __slots__ = ("tag", "attrs", "kids", "text")

    def __init__(self, tag, attrs=None, kids=None, text=""):
        self.tag, self.attrs, self.kids, self.text = tag, attrs or [], kids or [], text

    def copy(self):
        return N(self.tag, list(self.attrs), [k.copy() for k in self.kids], self.text)

    def walk(self, parent=None):
        yield self, parent
        for k in self.kids:
            yield from k.walk(self)


def of_et(e):
    return N(e.tag, list(e.attrib.items()), [of_et(k) for k in e if isinstance(k.tag, str)], (e.text or "").strip())


def parse(text):
    return of_et(ET.fromstring(text.encode() if isinstance(text, str) else text))


def ser(n, out, ind=0):
    out.append(" " * min(ind, 40) + "<" + n.tag)
    for k, v in n.attrs:
        out.append(" " + k + "=" + quoteattr(v, {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"}))
    if not n.kids and not n.text:
        out.append("/>\n")
        return
    out.append(">" + escape(n.text))
    if n.kids:
        out.append("\n")
        for k in n.kids:
            ser(k, out, ind + 1)
        out.append(" " * min(ind, 40))
    out.append("</" + n.tag + ">\n")


def to_text(n):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    ser(n, o)
    return "".join(o)


def corpus():
    """trees of the schemas of the repository"""
    global CORPUS, ELEMS
    if CORPUS is None:
        CORPUS = []
        for f in sorted(glob.glob(build.REPO + "/app/commsdsl2comms/test/*/*.xml") + glob.glob(build.REPO + "/lib/test/*/*.xml")):
            if os.path.getsize(f) > 30000:
                continue
            try:
                CORPUS.append(of_et(ET.parse(f).getroot()))
            except ET.ParseError:
                pass
        tags, names, vals = set(), set(), {}
        for t in CORPUS:
            for n, _ in t.walk():
                tags.add(n.tag)
                for k, v in n.attrs:
                    names.add(k)
                    vals.setdefault(k, set()).add(v)
        ELEMS = (sorted(tags), sorted(names), {k: sorted(v) for k, v in vals.items()})
    return CORPUS


def names_in(t):
    """names and dotted references of a tree"""
    out = []

    def rec(n, pre, inside):
        nm = dict(n.attrs).get("name")
        if nm is None:
            for k in n.kids:
                if k.tag == "name":
                    nm = dict(k.attrs).get("value")
        p = pre
        if nm and n.tag != "schema":
            p = pre + [nm]
            out.append(".".join(p))
            out.append(nm)
        for k in n.kids:
            rec(k, p, n)
    rec(t, [], None)
    return out or ["a"]


def value(r, refs, attr=None):
    x = r.random()
    if x < 0.3:
        return r.choice(NUMS)
    if x < 0.5:
        return r.choice(STRS)
    if x < 0.75:
        v = r.choice(refs)
        y = r.random()
        if y < 0.4:
            return v
        if y < 0.7:
            return r.choice(["$", "^", "%", "@proto.", "!$", "#", "$a.", "$"]) + v
        if y < 0.8:
            return v + "." + r.choice(refs)
        return "%s%s %s %s%s" % (r.choice("$$$%^"), v, r.choice(["=", "!=", "<", ">", "<=", ">=", "=="]), r.choice(["", "$", "%", "^"]), r.choice(refs + NUMS))
    if attr in ELEMS[2] and x < 0.95:
        return r.choice(ELEMS[2][attr])
    if x < 0.97:
        return "".join(chr(r.choice([r.randint(1, 127), r.randint(32, 126), r.randint(128, 0x2fff)])) for _ in range(r.randint(1, 12)))
    return r.choice(ELEMS[2][r.choice(sorted(ELEMS[2]))])


def mutate(t, r, others):
    """one random change of the tree"""
    corpus()
    nodes = list(t.walk())
    n, p = r.choice(nodes)
    refs = names_in(t)
    k = r.choice(["attr", "attr", "attr", "attr", "addattr", "addattr", "delattr", "del", "dup", "move", "tag", "graft", "graft", "swap", "propchild", "empty", "kids", "nest", "ref", "cycle", "text", "rename", "dupattrs", "version"])
    if k == "attr" and n.attrs:
        i = r.randrange(len(n.attrs))
        n.attrs[i] = (n.attrs[i][0], value(r, refs, n.attrs[i][0]))
    elif k == "addattr":
        nm = r.choice(ELEMS[1])
        n.attrs = [a for a in n.attrs if a[0] != nm] + [(nm, value(r, refs, nm))]
    elif k == "delattr" and n.attrs:
        n.attrs.pop(r.randrange(len(n.attrs)))
    elif k == "del" and p is not None:
        p.kids.remove(n)
    elif k == "dup" and p is not None:
        p.kids.insert(r.randint(0, len(p.kids)), n.copy())
    elif k == "move" and p is not None:
        q, _ = r.choice(nodes)
        if not any(x is q for x, _ in n.walk()):
            p.kids.remove(n)
            q.kids.insert(r.randint(0, len(q.kids)), n)
    elif k == "tag":
        n.tag = r.choice(ELEMS[0])
    elif k == "graft":
        o = r.choice(others)
        m = r.choice([x for x, _ in o.walk()]).copy()
        if m.tag != "schema" or r.random() < 0.1:
            n.kids.insert(r.randint(0, len(n.kids)), m)
    elif k == "swap":
        q, _ = r.choice(nodes)
        n.attrs, q.attrs = q.attrs, n.attrs
    elif k == "propchild" and n.attrs:
        i = r.randrange(len(n.attrs))
        a, v = n.attrs.pop(i)
        c = N(a, [("value", v)]) if r.random() < 0.6 else N(a, [], [], v)
        n.kids.insert(r.randint(0, len(n.kids)), c)
        if r.random() < 0.3:
            n.kids.append(c.copy())
    elif k == "empty":
        n.kids = []
    elif k == "kids" and n.kids:
        r.shuffle(n.kids)
    elif k == "nest":
        c = n.copy()
        n.kids.append(c)
    elif k == "ref":
        a = r.choice(["field", "reuse", "copyCodeFrom", "cond", "defaultValue", "validValue", "validRange", "lengthPrefix", "countPrefix", "termSuffix", "elemLengthPrefix", "copyFieldsFrom", "copyValuesFrom",
                      "element", "since", "sinceVersion", "deprecated", "id", "validCheckVersion", "copyReadCondFrom", "readCond", "validCond", "construct", "copyConstructFrom", "description", "displayName", "interface", "interfaces",
                      "from", "until", "verifyBeforeRead", "seekField", "escField", "name", "replace", "bitLength", "length", "scaling", "displayOffset", "serOffset", "units", "type", "endian"])
        n.attrs = [x for x in n.attrs if x[0] != a] + [(a, value(r, refs, a))]
    elif k == "cycle":
        f = dict(n.attrs)
        if "name" in f:
            nm = f["name"]
            n.kids.append(N("ref", [("name", r.choice([nm, "cyc"])), ("field", r.choice([nm, r.choice(refs)]))]))
    elif k == "text":
        n.text = r.choice(["x", "5", r.choice(refs), "  y  "])
    elif k == "rename":
        n.attrs = [(a, v if a != "name" else r.choice(refs + STRS)) for a, v in n.attrs]
    elif k == "dupattrs":
        q, _ = r.choice(nodes)
        have = {a for a, _ in n.attrs}
        n.attrs += [(a, v) for a, v in q.attrs if a not in have]
    elif k == "version":
        for a in ("sinceVersion", "deprecated"):
            if r.random() < 0.7:
                n.attrs = [x for x in n.attrs if x[0] != a] + [(a, r.choice(["0", "1", "2", "3", "5", "100", "4294967295"]))]
    return k


def bytes_mut(b, r):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 16])):
        if not b:
            break
        i = r.randrange(len(b))
        k = r.random()
        if k < 0.3:
            b[i] = r.randrange(256)
        elif k < 0.5:
            del b[i:i + r.choice([1, 1, 2, 8, 100])]
        elif k < 0.7:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 4, 20, 200])]
        elif k < 0.85:
            b[i:i] = r.choice(SPECIAL_TEXT + ["<", ">", "/>", "\"", "'", "<a>", "</a>", "<!DOCTYPE a [<!ENTITY b 'c'>]>", "&b;", "\0", "]]>"]).encode()
        elif k < 0.92:
            b[i:i + 4] = bytes(r.randrange(256) for _ in range(4))
        else:
            del b[i:]
    return bytes(b)


def nested(r):
    """very deep nesting or long reference chains"""
    d = r.choice([50, 300, 2000])
    k = r.randrange(5)
    if k == 0:
        b = '<bundle name="a">' * d + '<int name="i" type="uint8"/>' + '</bundle>' * d
        return '<schema name="proto"><fields>%s</fields></schema>' % b
    if k == 1:
        b = "".join('<ref name="r%d" field="r%d"/>' % (i, i - 1) for i in range(1, d))
        return '<schema name="proto"><fields><int name="r0" type="uint8"/>%s</fields><message name="M" id="1"><ref name="f" field="r%d"/></message></schema>' % (b, d - 1)
    if k == 2:
        return '<schema name="proto">' + '<ns name="n">' * d + '</ns>' * d + '</schema>'
    if k == 3:
        return '<schema name="proto"><fields><int name="i" type="uint8"/><bundle name="b"><ref name="x" field="i"/><optional name="o"><cond value="$x = 1"/>%s<ref field="i"/></optional></bundle></fields></schema>' % ("<and>" * 1 + "".join("<cond value=\"$x = %d\"/>" % j for j in range(d)) + "</and>")
    c = "<and>" * d + '<cond value="$x = 1"/><cond value="$x = 2"/>' + "</and>" * d
    return '<schema name="proto"><fields><bundle name="b"><int name="x" type="uint8"/><optional name="o">%s<int name="y" type="uint8"/></optional></bundle></fields></schema>' % c


OPTS = gen_opts = None


def texts_of(seed, r):
    """list of hostile schema texts and the description of the changes"""
    c = corpus()
    x = r.random()
    if x < 0.03:
        return [nested(r).encode()], ["nested"]
    if x < 0.5:
        base = [r.choice(c).copy()]
    else:
        s = gen.make(r.randrange(1 << 31), **({"size": 0.4} if False else {}))
        base = [parse(t) for t in gen.to_files(s, None, r.choice([1, 1, 1, 2]))]
    muts = []
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 8, 15])):
        muts.append(mutate(r.choice(base), r, [r.choice(c), base[0]]))
    if r.random() < 0.08:
        base.append(r.choice(c).copy())
        if r.random() < 0.6:
            base[-1].attrs = [a for a in base[-1].attrs if a[0] != "name"] + [("name", dict(base[0].attrs).get("name", "proto"))]
        muts.append("second file")
    out = [to_text(t) for t in base]
    if r.random() < 0.12:
        i = r.randrange(len(out))
        out[i] = bytes_mut(out[i].encode("utf-8", "surrogatepass"), r)
        muts.append("bytes")
    return [t if isinstance(t, bytes) else t.encode("utf-8", "replace") for t in out], muts


FLAG = {"comms": ["--code-inject-comments", "--version-independent-code", "--force-main-ns-in-options", "-w", "-d", "-q", "-s"],
        "c": ["--code-inject-comments", "-w", "-d", "-q", "-s"], "latex": ["--code-inject-comments", "-w", "-q", "-s"],
        "emscripten": ["--code-inject-comments", "--force-main-ns-in-names", "--has-code-version", "-q", "-s"],
        "swig": ["--code-inject-comments", "--force-main-ns-in-names", "--has-code-version", "-q", "-s"],
        "test": ["--code-inject-comments", "-q", "-s"], "tools_qt": ["--code-inject-comments", "--force-main-ns-in-options", "-q", "-s"]}


def args_of(app, r, d, refs):
    """hostile command line; every path stays in d"""
    a = []
    for f in FLAG[app]:
        if r.random() < 0.12:
            a.append(f)
    val = lambda: r.choice([r.choice(NUMS), r.choice([x for x in STRS if "\0" not in x]), r.choice(refs), r.choice(refs)])
    num = lambda: r.choice(NUMS + ["0", "1", "2", "3"] * 10)

    def lst():
        f = os.path.join(d, "list%d.txt" % r.randrange(100))
        with open(f, "w") as h:
            h.write("\n".join(val() for _ in range(r.randint(0, 6))) + r.choice(["", "\n"]))
        return f
    if r.random() < 0.2:
        a += ["-n", r.choice(["other", "a:b", "proto:x", ":", "a:", ":b", "a:b,c:d", "proto:x,proto:y", ",", val()])]
    if r.random() < 0.2:
        a += ["--force-schema-version", num()]
    if r.random() < 0.1:
        a += ["-V", r.choice(["1.2.3", "1", "1.2.", "a.b.c", "4294967296.1.1", "...", val()])]
    if app in ("comms", "c", "emscripten", "swig", "latex") and r.random() < 0.2:
        a += ["-m", num()]
    if app == "comms":
        if r.random() < 0.2:
            a += ["--customization", r.choice(["full", "limited", "none", val()])]
        if r.random() < 0.2:
            a += ["--extra-messages-bundle", r.choice(["N@" + lst(), "N@" + lst() + ",M@" + lst(), "N@", "@", ",", "N", "N@/nonexistent", val()])]
    if app in ("c", "emscripten", "swig"):
        if r.random() < 0.12:
            a += ["--messages-list", lst()]
        if r.random() < 0.12:
            a += ["--force-platform", val()]
        if r.random() < 0.12:
            a += ["--force-interface", val()]
    if app == "c" and r.random() < 0.3:
        a += [r.choice(["-P", "--comms-options", "--comms-input"]), val()]
    if app == "tools_qt" and r.random() < 0.4:
        a += ["--protocol", r.choice(["Frame", "Frame:Message", "Frame:Message:Input", "Frame:Message:Input:name:desc", ":::::", ":", "a:b:c:d:e:f:g", val(), val() + ":" + val()])]
    if r.random() < 0.03:
        a += [r.choice(["--nosuch", "-z", "--", "-", "-o", "--output-dir=", "--help", "--version", ""])]
    return a


ENV = dict(PATH="/usr/bin:/bin", HOME="/nonexistent", LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:hard_rss_limit_mb=6000:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=86")


def run_app(app, files, args, d, limit=40):
    """(exit, output) of the generator; None as exit for no end in time"""
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    o = os.path.join(d, "a", "b", "c", "o")
    os.makedirs(o, exist_ok=True)
    cmd = [build.app_path(app), "-o", o] + args + files
    try:
        q = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=os.path.join(d, "a", "b", "c"), preexec_fn=pre, timeout=limit * 12)
        return q.returncode, q.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def crash_key(t):
    m = re.search(r"(\w+\.(?:cpp|h)):\d+: ?(.*?): ?Assertion [`'](.*?)' failed", t)
    if m:
        f = re.sub(r"\(.*", "", m.group(2)).split()
        return "%s %s: assertion %s" % (m.group(1), f[-1] if f else "", m.group(3))
    m = re.search(r"(?:ERROR: AddressSanitizer:? (\S+)|runtime error: ([^\n]*)|what\(\):\s*(.*)|(/usr/include/c\+\+/[^\n]*Assertion[^\n]*))", t)
    kind = next((g for g in (m.groups() if m else ()) if g), "no report")
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", t)
    loc = [re.sub(r"\(.*", "", f) for f, p in fr if p.startswith(build.REPO)]
    # endless recursion shows a loop of frames: name it by the alphabetically first one
    where = min(loc[:60]) if "stack-overflow" in kind and loc else (loc[0] if loc else "")
    return "%s in %s" % (re.sub(r"-?\b(0x)?[0-9a-f]*\d[0-9a-f.e+]*\b", "#", re.sub(r"^/usr/include/c\+\+/\S+ ", "", kind))[:160], where)
