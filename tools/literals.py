"""The integer literals of the current, non-test sources of ethnum.

They only widen the alphabets that are enumerated: a value the code treats
specially has to appear in the code.
"""
import os
import re

SKIP_DIRS = {"target", "tests", "fuzz", "bench", ".git", "benches", "examples"}


def files(repo):
    for base in ("src", "intrinsics"):
        for d, dirs, names in os.walk(os.path.join(repo, base)):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
            for n in sorted(names):
                if n.endswith((".rs", ".ll", ".template", ".c")):
                    yield os.path.join(d, n)


def strip(text):
    """Comments out, test modules out."""
    text = re.sub(r"//[^\n]*", "", text)
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    out = ""
    while True:
        m = re.search(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", text)
        if not m:
            return out + text
        out += text[: m.start()]
        depth, i = 1, m.end()
        while i < len(text) and depth:
            c = text[i]
            depth += (c == "{") - (c == "}")
            i += 1
        text = text[i:]


NUM = re.compile(
    r"(?<![\w.])(0[xX][0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w])"
)


def literals(repo):
    seen = {}
    for f in files(repo):
        try:
            text = strip(open(f, encoding="utf-8", errors="replace").read())
        except OSError:
            continue
        for m in NUM.finditer(text):
            t = m.group(1).replace("_", "").lower()
            try:
                if t.startswith("0x"):
                    # hexadecimal digits also swallow no suffix
                    v = int(t[2:], 16)
                elif t.startswith("0b"):
                    v = int(t[2:], 2)
                elif t.startswith("0o"):
                    v = int(t[2:], 8)
                else:
                    v = int(t)
            except ValueError:
                continue
            if 0 <= v < 1 << 256:
                seen[v] = seen.get(v, 0) + 1
    return seen


if __name__ == "__main__":
    import sys

    d = literals(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    for v in sorted(d):
        print(hex(v), d[v])
    print(len(d))
