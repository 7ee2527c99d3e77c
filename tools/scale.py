"""Scales the native intrinsics of the current sources down to 8-bit words.

Every file of /repo/src/intrinsics/native is rewritten token by token - 128-bit
words become 8-bit words, 64-bit halves 4-bit halves, 256 bits 16 bits - and
every block is made to record that it was entered, so that the result is a
model of the implementation, derived from it, whose whole state space (2^32
pairs of operands) can be explored.

What cannot be rewritten makes no model; it never makes a verdict."""
import os
import re

TOK = re.compile(r'''
 (?P<com>//[^\n]*|/\*.*?\*/)
|(?P<str>b?"(?:\\.|[^"\\])*"|b?'(?:\\.|[^'\\])')
|(?P<life>'[a-zA-Z_]\w*)
|(?P<num>\d\w*)
|(?P<id>[A-Za-z_]\w*)
|(?P<ws>\s+)
|(?P<op>=>|->|::|.)
''', re.X | re.S)

IDENT = {"u128": "u8", "i128": "i8", "NonZeroU128": "NonZeroU8"}
NUM = {128: 8, 127: 7, 64: 4, 63: 3, 256: 16, 255: 15, 0xffffffffffffffff: 0xf, (1 << 128) - 1: 0xff, 1 << 64: 16, 1 << 127: 128}


def rewrite(src, marks):
    m = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", src)
    if m:
        src = src[:m.start()]
    out = []
    pending = False      # between a keyword and the block it opens
    attr = 0
    depth = 0
    for t in TOK.finditer(src):
        k, s = t.lastgroup, t.group()
        if k == "com":
            out.append(" ")
            continue
        if k == "id":
            if s in ("if", "else", "while", "loop"):
                pending, depth = True, 0
            out.append(IDENT.get(s, s))
            continue
        if k == "num":
            n = re.match(r"(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9_]+)(.*)$", s)
            v = int(n.group(1).replace("_", ""), 0)
            suffix = re.sub("128", "8", n.group(2))
            out.append("%d%s" % (NUM.get(v, v), suffix))
            continue
        if k == "op" and pending:
            if s in "([":
                depth += 1
            elif s in ")]":
                depth -= 1
            elif s == "{" and depth == 0:
                marks[0] += 1
                out.append("{ crate::hit(%d); " % marks[0])
                pending = False
                continue
            elif s in ";}":
                pending = False
        out.append(s)
    text = "".join(out)
    text = re.sub(r"//!.*", "", text)
    if "crate::hit" in text:
        text = re.sub(r"\bconst\s+fn\b", "fn", text)
    return text


def generate(repo, path):
    """Writes the model.  Returns the number of marked blocks."""
    base = os.path.join(repo, "src", "intrinsics")
    marks = [0]
    cast = rewrite(open(os.path.join(base, "cast.rs")).read(), [0])
    root = open(os.path.join(base, "native.rs")).read()
    root = rewrite(root, [0])
    mods = re.findall(r"^\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", root, re.M)
    parts = [cast, "#[allow(warnings)]\npub mod native {\n"]
    rest = re.sub(r"^\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", "", root, flags=re.M)
    for m in mods:
        f = os.path.join(base, "native", m + ".rs")
        parts.append("mod %s {\n%s\n}\n" % (m, rewrite(open(f).read(), marks)))
    parts.append(rest)
    parts.append("}\n")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = "".join(parts)
    old = open(path).read() if os.path.exists(path) else None
    if text != old:
        open(path, "w").write(text)
    return marks[0]


if __name__ == "__main__":
    print(generate("/repo", "/tmp/scaled/gen.rs"))
