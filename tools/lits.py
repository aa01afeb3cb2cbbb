"""Literals of the code under test, as a dictionary for the search: values a change brought in are tried more often.
Only a choice of inputs: what counts as a violation is decided by the oracles alone."""
import json, os, re, sys
from collections import Counter

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_lits.json")
TOK = re.compile(r'''
    //[^\n]* | /\*.*?\*/
  | (?P<raw>b?r(?P<h>\#*)"(?P<rs>.*?)"(?P=h))
  | (?P<str>b?"(?P<s>(?:\\.|[^"\\])*)")
  | (?P<chr>b?'(?P<c>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])')
  | '[A-Za-z_]\w*
  | (?P<num>\b\d[\d_]*(?:x[0-9a-fA-F_]+|b[01_]+|\.\d+)?(?:[ui](?:8|16|32|64|128|size))?\b)
  | (?P<id>[A-Za-z_]\w*)
''', re.X | re.S)


def unesc(s):
    m = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}
    s = re.sub(r"\\\n\s*", "", s)
    def f(k):
        t = k.group(1)
        if t[0] == "u":
            return chr(int(t[2:-1].replace("_", ""), 16))
        if t[0] == "x":
            return chr(int(t[1:], 16))
        return m.get(t, t)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", f, s, flags=re.S)


def strip_tests(t):
    """drops `#[cfg(test)] mod x { .. }`, which ends a file here"""
    m = re.search(r"#\[cfg\(test\)\]\s*(pub\s+)?mod\s+\w+\s*\{", t)
    return t[:m.start()] if m else t


def literals(repo):
    toks = []
    for d, _, fs in sorted(os.walk(os.path.join(repo, "src"))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                t = strip_tests(open(os.path.join(d, f), errors="replace").read())
                toks.append(list(TOK.finditer(t)))
    def val(k):
        if k.group("raw") is not None:
            return "s" + k.group("rs")
        if k.group("str") is not None:
            return "s" + unesc(k.group("s"))
        if k.group("chr") is not None:
            return "s" + unesc(k.group("c"))
        if k.group("num") is not None:
            n = re.sub(r"[ui](8|16|32|64|128|size)$", "", k.group("num")).replace("_", "")
            try:
                return "n%d" % int(n, 0) if not re.match(r"0\d", n) else "n%d" % int(n)
            except ValueError:
                return "s" + n
        return None
    consts = {}
    for ts in toks:
        for i, k in enumerate(ts):
            if k.group("id") == "const" and i + 1 < len(ts) and ts[i + 1].group("id"):
                for j in range(i + 2, min(i + 8, len(ts))):
                    v = val(ts[j])
                    if v:
                        consts[ts[i + 1].group("id")] = v
                        break
                    if ts[j].group("id") == "const":
                        break
    out = Counter()
    for ts in toks:
        for k in ts:
            v = val(k)
            if v is None and k.group("id") in consts:
                v = consts[k.group("id")]
            if v is not None:
                out[v] += 1
    return out


def hot(repo):
    """values that occur more often than in the code the contracts were written for"""
    try:
        base = Counter(json.load(open(BASE)))
    except (OSError, ValueError):
        return []
    now = literals(repo)
    return [v for v, n in sorted(now.items()) if n > base.get(v, 0) and len(v) < 2000][:60]


def write(repo, path):
    with open(path, "w") as f:
        for v in hot(repo):
            f.write(v[0] + (v[1:] if v[0] == "n" else v[1:].encode("utf-8", "surrogateescape").hex()) + "\n")


if __name__ == "__main__":
    repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    if sys.argv[1] == "base":
        json.dump(dict(sorted(literals(repo).items())), open(BASE, "w"), indent=0)
    else:
        print(hot(repo))
