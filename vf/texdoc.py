"""Reader of the documents generated by commsdsl2latex: sections, labels, texts and tables as TeX would
typeset them. Only the constructs such a document needs are known, anything else is an error."""
import os, re

SECT = {"section": 0, "subsection": 1, "subsubsection": 2, "paragraph": 3, "subparagraph": 4, "subsubparagraph": 5}
TOK = re.compile(r"\\[a-zA-Z@]+\*?|\\.|\\\n|%[^\n]*\n?|[{}&#$_^~]|[^\\%{}&#$_^~]+", re.S)


class Bad(Exception):
    pass


class Block:
    def __init__(self, level, title):
        self.level, self.title, self.labels, self.text, self.tables, self.refs = level, title, [], "", [], []


class Cell:
    def __init__(self):
        self.text, self.refs = "", []


def norm(s):
    return re.sub(r"[ \t\n\r]+", " ", s).strip()


class Doc:
    def __init__(self, root, main):
        self.root = root
        self.files = []
        body = self.load(main)
        m = re.search(r"\\begin\{document\}(.*)\\end\{document\}", body, re.S)
        if not m:
            raise Bad("no document environment")
        self.title = re.search(r"\\title\{(.*)\}\n", body)
        self.tok = TOK.findall(m.group(1))
        if "".join(self.tok) != m.group(1):
            raise Bad("cannot be tokenized")
        self.i = 0
        self.blocks = [Block(-1, "")]
        self.refs = []
        self.run()
        self.label = {}
        for k, b in enumerate(self.blocks):
            for l in b.labels:
                if l in self.label:
                    raise Bad("label %s defined twice" % l)
                self.label[l] = k

    def load(self, rel):
        p = os.path.join(self.root, rel)
        self.files.append(os.path.normpath(rel))
        if not os.path.isfile(p):
            raise Bad("\\input of the missing file %s" % rel)
        s = open(p, encoding="utf-8", errors="surrogateescape").read()
        out = []
        for line in s.split("\n"):
            # comments first
            m = re.match(r"((?:[^%\\]|\\.)*)%", line)
            code = line[:m.end() - 1] if m else line
            out.append(re.sub(r"\\input\{([^}]*)\}", lambda m: self.load(m.group(1)), code) if "\\input" in code else line)
        return "\n".join(out)

    def raw(self):
        """argument which is not typeset"""
        if self.tok[self.i] != "{":
            raise Bad("argument expected")
        self.i += 1
        o = ""
        while self.tok[self.i] != "}":
            o += self.tok[self.i]
            self.i += 1
        self.i += 1
        return o

    def arg(self):
        """typeset argument"""
        if self.tok[self.i] != "{":
            raise Bad("argument expected")
        self.i += 1
        return self.text(("}",))

    def text(self, end, cell=None):
        o = ""
        while True:
            if self.i >= len(self.tok):
                raise Bad("unbalanced braces")
            t = self.tok[self.i]
            self.i += 1
            if t in end:
                self.last = t
                return o
            o += self.one(t, cell)

    def one(self, t, cell=None):
        if t[0] == "%":
            return ""
        if t in ("#", "$", "&", "_", "^"):
            raise Bad("unescaped %s near %r" % (t, "".join(self.tok[max(0, self.i - 6):self.i + 4])))
        if t == "~":
            return "\u00a0"
        if t == "{":
            return self.text(("}",))
        if t == "}":
            raise Bad("unbalanced braces near %r" % "".join(self.tok[max(0, self.i - 6):self.i + 4]))
        if t[0] != "\\":
            return t
        if t in ("\\{", "\\}", "\\#", "\\%", "\\$", "\\_", "\\&"):
            return t[1]
        if t in ("\\^", "\\~"):
            if self.tok[self.i:self.i + 2] != ["{", "}"]:
                raise Bad("accent over a letter near %r" % "".join(self.tok[max(0, self.i - 6):self.i + 4]))
            self.i += 2
            return t[1]
        if t == "\\textbackslash":
            # the blanks after a control word vanish
            if self.tok[self.i:self.i + 2] == ["{", "}"]:
                self.i += 2
            elif self.tok[self.i:self.i + 1] and self.tok[self.i][0] in " \t\n":
                self.tok[self.i] = self.tok[self.i].lstrip()
            return "\\"
        if t == "\\textbf":
            return self.arg()
        if t == "\\hyperref":
            m = re.match(r"\[([^\]]*)", self.tok[self.i])
            r = ""
            while self.tok[self.i] != "{":
                r += self.tok[self.i]
                self.i += 1
            r = r.strip()
            if r[:1] != "[" or r[-1:] != "]":
                raise Bad("\\hyperref without a label")
            r = r[1:-1]
            self.refs.append(r)
            if cell is not None:
                cell.refs.append(r)
            return self.arg()
        if t in ("\\nameref", "\\ref"):
            r = self.raw()
            self.refs.append(r)
            if cell is not None:
                cell.refs.append(r)
            return "\u2192" + r
        if t in ("\\\\", "\\smallskip", "\\noindent", "\\maketitle", "\\tableofcontents", "\\newpage", "\\ ", "\\par", "\\medskip"):
            return " "
        if t == "\\fbox":
            return self.arg()
        if t == "\\begin":
            env = self.raw()
            if env not in ("tabular", "longtable"):
                raise Bad("unexpected environment %s" % env)
            self.table(env)
            return " "
        if t == "\\label":
            self.blocks[-1].labels.append(self.raw())
            return ""
        raise Bad("unexpected %s near %r" % (t, "".join(self.tok[max(0, self.i - 6):self.i + 4])))

    def table(self, env):
        # columns
        depth = 0
        spec = ""
        if self.tok[self.i] != "{":
            raise Bad("no column specification")
        while True:
            t = self.tok[self.i]
            self.i += 1
            depth += (t == "{") - (t == "}")
            spec += t
            if not depth:
                break
        n = len(re.findall(r"[lcr]|p\{", re.sub(r"p\{[^}]*\}", "c", spec[1:-1])))
        rows = []
        row = []
        cell = Cell()
        while True:
            t = self.tok[self.i]
            self.i += 1
            if t == "&":
                row.append(cell)
                cell = Cell()
            elif t == "\\\\":
                row.append(cell)
                rows.append(row)
                row, cell = [], Cell()
            elif t == "\\hline":
                if row or norm(cell.text):
                    raise Bad("\\hline within a row")
            elif t == "\\end":
                if self.raw() != env:
                    raise Bad("environment does not end")
                break
            else:
                cell.text += self.one(t, cell)
        if row or norm(cell.text):
            row.append(cell)
            rows.append(row)
        for r in rows:
            if len(r) > n:
                raise Bad("%d cells in a table with %d columns" % (len(r), n))
            for c in r:
                c.text = norm(c.text)
        self.blocks[-1].tables.append(rows)

    def run(self):
        while self.i < len(self.tok):
            t = self.tok[self.i]
            self.i += 1
            if t[0] == "\\" and t[1:] in SECT:
                title = norm(self.arg())
                self.blocks.append(Block(SECT[t[1:]], title))
                continue
            self.blocks[-1].text += self.one(t)

    def sub(self, k, title):
        """table of the sub block with the title that belongs to the block k"""
        for b in self.blocks[k + 1:]:
            if b.title == title:
                return b
            if b.title not in PARTS:
                return None
        return None


PARTS = ("Details", "Member Fields", "Valid Values", "Special Values", "Bit Values", "Available Member Fields", "Frame Fields")
