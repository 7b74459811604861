"""A small reader for STEP physical files, independent of the crate, and comparison of attribute values.

Values: ("null",) ("derived",) ("str", text) ("int", "v") ("real", "v") ("tok", ".X.") ("ref", "n")
        ("list", [..]) ("typed", NAME, value)
"""
import re

UML = {"\\X2\\00C4\\X0\\": "Ä", "\\X2\\00E4\\X0\\": "ä", "\\X2\\00D6\\X0\\": "Ö", "\\X2\\00F6\\X0\\": "ö",
       "\\X2\\00DC\\X0\\": "Ü", "\\X2\\00FC\\X0\\": "ü", "\\X2\\00DF\\X0\\": "ß"}


def decode(s):
    for k, v in UML.items():
        s = s.replace(k, v)
    return s


class Bad(Exception):
    pass


NUM = re.compile(r"[+-]?\d+(\.\d*)?([eE][+-]?\d+)?")
WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
TOK = re.compile(r"\.[A-Za-z0-9_]+\.")


class P:
    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def ws(self):
        s = self.s
        while self.i < len(s):
            if s[self.i].isspace():
                self.i += 1
            elif s.startswith("/*", self.i):
                j = s.find("*/", self.i + 2)
                if j < 0:
                    raise Bad("open comment")
                self.i = j + 2
            else:
                break

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def text(self):
        s, i, out = self.s, self.i + 1, []
        while True:
            j = s.find("'", i)
            if j < 0:
                raise Bad("open text")
            out.append(s[i:j])
            if s.startswith("''", j):
                out.append("'")
                i = j + 2
            else:
                self.i = j + 1
                return decode("".join(out))

    def value(self):
        self.ws()
        c = self.peek()
        if c == "$":
            self.i += 1
            return ("null",)
        if c == "*":
            self.i += 1
            return ("derived",)
        if c == "'":
            return ("str", self.text())
        if c == "#":
            m = re.compile(r"#(\d+)").match(self.s, self.i)
            if not m:
                raise Bad("reference")
            self.i = m.end()
            return ("ref", m.group(1))
        if c == "(":
            return ("list", self.items())
        if c == ".":
            m = TOK.match(self.s, self.i)
            if not m:
                raise Bad("enumeration at %r" % self.s[self.i:self.i + 20])
            self.i = m.end()
            return ("tok", m.group(0))
        m = WORD.match(self.s, self.i)
        if m:
            self.i = m.end()
            items = self.items()
            if len(items) != 1:
                raise Bad("typed value")
            return ("typed", m.group(0), items[0])
        m = NUM.match(self.s, self.i)
        if not m:
            raise Bad("value at %r" % self.s[self.i:self.i + 20])
        self.i = m.end()
        return ("real", m.group(0)) if m.group(1) is not None or m.group(2) is not None else ("int", m.group(0))

    def items(self):
        if self.peek() != "(":
            raise Bad("( expected at %r" % self.s[self.i:self.i + 20])
        self.i += 1
        out = []
        self.ws()
        if self.peek() == ")":
            self.i += 1
            return out
        while True:
            out.append(self.value())
            self.ws()
            c = self.peek()
            self.i += 1
            if c == ")":
                return out
            if c != ",":
                raise Bad(", or ) expected at %r" % self.s[self.i - 1:self.i + 20])


def parse_value(s):
    p = P(s)
    v = p.value()
    p.ws()
    if p.i != len(s):
        raise Bad("trailing text %r" % s[p.i:p.i + 20])
    return v


def parse_inst(s):
    """KEYWORD(args) -> (keyword, [values])"""
    m = WORD.match(s)
    if not m:
        raise Bad("keyword")
    p = P(s, m.end())
    v = p.items()
    p.ws()
    if p.i != len(s):
        raise Bad("trailing text")
    return m.group(0), v


LINE = re.compile(r"#(\d+)\s*=\s*")


def sections(text):
    """-> (header text, [(id, raw instance text)], tail) of a written file"""
    i = text.find("DATA;")
    if i < 0:
        raise Bad("no data section")
    p = P(text, i + 5)
    insts = []
    while True:
        p.ws()
        if text.startswith("ENDSEC;", p.i):
            return text[:i], insts, text[p.i:]
        m = LINE.match(text, p.i)
        if not m:
            raise Bad("instance expected at %r" % text[p.i:p.i + 40])
        j = k = m.end()
        while True:
            c = text[k:k + 1]
            if c == "":
                raise Bad("open instance")
            if c == ";":
                break
            if c == "'":
                e = text.find("'", k + 1)
                if e < 0:
                    raise Bad("open text")
                k = e + 1
            elif text.startswith("/*", k):
                e = text.find("*/", k + 2)
                if e < 0:
                    raise Bad("open comment")
                k = e + 2
            else:
                k += 1
        insts.append((m.group(1), text[j:k].rstrip()))
        p.i = k + 1


def to_num(s):
    return float(s)


def real_close(a, b, rel=1e-13):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


BOOLS = {".T.": ".TRUE.", ".F.": ".FALSE.", ".U.": ".UNKNOWN."}


def same(exp, got, path=""):
    """Compares a value of the specification (JSON record) with a value read from text; None or what differs."""
    t = exp["t"]
    if t in ("null", "derived"):
        return None if got == (t,) else "%s: %s expected, got %r" % (path, t, got)
    if t == "str":
        return None if got == ("str", exp["txt"]) else "%s: text %r expected, got %r" % (path, exp["txt"], got)
    if t == "int":
        return None if got[0] == "int" and int(got[1]) == int(exp["v"]) else "%s: integer %s expected, got %r" % (path, exp["v"], got)
    if t == "real":
        ok = got[0] == "real" and real_close(exp["v"], got[1])
        return None if ok else "%s: real %s expected, got %r" % (path, exp["v"], got)
    if t == "tok":
        e = exp["c"]
        if e.startswith("'"):
            ok = got == ("str", e[1:-1])
        elif e.startswith("."):
            ok = got[0] == "tok" and BOOLS.get(got[1], got[1]) == e
        else:
            ok = got == ("int", e)
        return None if ok else "%s: item %s expected, got %r" % (path, e, got)
    if t == "ref":
        return None if got == ("ref", exp["v"]) else "%s: reference #%s expected, got %r" % (path, exp["v"], got)
    if t == "list":
        if got[0] != "list" or len(got[1]) != len(exp["v"]):
            return "%s: list of %d expected, got %r" % (path, len(exp["v"]), got)
        for i, (e, g) in enumerate(zip(exp["v"], got[1])):
            d = same(e, g, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if t == "typed":
        if got[0] != "typed" or got[1].upper() != exp["c"]:
            return "%s: %s(..) expected, got %r" % (path, exp["c"], got)
        return same(exp["v"], got[2], path + "/" + exp["c"])
    raise ValueError(t)
