"""Literals of the source: what a change adds to them guides the tests of the real code."""
import os, re, json
from collections import Counter

TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)".*?"\1|[bc]?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))'|'[A-Za-z_]\w*|[A-Za-z_]\w*|\d[\w]*(?:\.\d\w*)?|<<|\S''', re.S)
MAX = {"u8::MAX": 255, "u16::MAX": 65535, "u32::MAX": 2**32 - 1, "i8::MAX": 127, "i16::MAX": 32767, "i32::MAX": 2**31 - 1}


def unescape(s):
    def one(m):
        c = m.group(1)
        if c[0] == "x":
            return chr(int(c[1:], 16))
        if c[0] == "u":
            return chr(int(c[2:-1].replace("_", ""), 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c[0], c[0] if c[0] != "\n" else "")
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", one, s, flags=re.S)


def number(t):
    t = t.replace("_", "")
    m = re.fullmatch(r"(0x[0-9a-fA-F]+?|0b[01]+|0o[0-7]+|\d+)(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)?", t)
    if not m:
        return None
    try:
        n = int(m.group(1), 0) if not re.fullmatch(r"\d+", m.group(1)) else int(m.group(1))
    except ValueError:
        return None
    return n if n < 2**64 else None


def of_text(text):
    out, toks = Counter(), []
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if t.startswith("//") or t.startswith("/*"):
            continue
        toks.append(t)
    for i, t in enumerate(toks):
        if t[0] == '"' or t[:2] in ('b"', 'c"'):
            out["s", unescape(t[t.index('"') + 1:-1])] += 1
        elif re.match(r'b?r#*"', t):
            out["s", t[t.index('"') + 1:t.rindex('"')]] += 1
        elif re.match(r"b?'.*'$", t, re.S):
            out["s", unescape(t[t.index("'") + 1:-1])] += 1
        elif t[0].isdigit():
            n = number(t)
            if n is not None:
                out["i", n] += 1
                v, k = n, i
                while k + 2 < len(toks) and toks[k + 1] in ("*", "<<", "+", "-") and number(toks[k + 2]) is not None:
                    b = number(toks[k + 2])
                    v = v * b if toks[k + 1] == "*" else v + b if toks[k + 1] == "+" else v - b if toks[k + 1] == "-" else v << min(b, 64)
                    k += 2
                if k > i and 0 <= v < 2**64:
                    out["i", v] += 1
        elif t == "MAX" and i >= 3 and "".join(toks[i - 3:i + 1]) in MAX:
            out["i", MAX["".join(toks[i - 3:i + 1])]] += 1
    return out


def of_tree(repo):
    r = {}
    for top in ("puck/src", "puck_liveview/src", "examples"):
        for d, ds, ns in os.walk(os.path.join(repo, top)):
            ds[:] = [x for x in ds if x not in ("target", "tests", ".git")]
            for n in ns:
                if n.endswith(".rs"):
                    p = os.path.join(d, n)
                    with open(p, errors="replace") as f:
                        r[os.path.relpath(p, repo)] = of_text(f.read())
    return r


def save(repo, path):
    t = {f: sorted([k, v, n] for (k, v), n in c.items() for v in [str(v)]) for f, c in sorted(of_tree(repo).items())}
    json.dump(t, open(path, "w"), indent=0, sort_keys=True)


def gained(repo, path):
    """(integers, texts) which occur more often in some file than when the contracts were written."""
    base = {}
    if os.path.exists(path):
        base = {f: {(k, v): n for k, v, n in xs} for f, xs in json.load(open(path)).items()}
    ints, strs = set(), set()
    for f, c in of_tree(repo).items():
        b = base.get(f, {})
        for (k, v), n in c.items():
            if n > b.get((k, str(v)), 0):
                (ints if k == "i" else strs).add(v)
    return pieces(ints, strs)


def everything(repo):
    ints, strs = set(), set()
    for c in of_tree(repo).values():
        for k, v in c:
            (ints if k == "i" else strs).add(v)
    return pieces(ints, strs)


def pieces(ints, strs):
    out = set()
    for s in strs:
        if len(s) <= 200:
            out.add(s)
        for p in re.split(r"\{[^{}]*\}", s):
            out.add(p)
            out.update(re.split(r"[^A-Za-z0-9\-_]+", p))
            out.update(re.split(r"\s+", p))
        if re.fullmatch(r"\d{1,18}", s):
            ints.add(int(s))
    for s in list(out):
        if len(out) < 300 and s.isascii():
            out.update((s.upper(), s.lower(), s.capitalize()))
    return sorted(ints), sorted(x for x in out if x and len(x) <= 200)[:400]


def write(path, ints, strs):
    with open(path, "w") as f:
        f.write("".join("i %d\n" % i for i in ints) + "".join("s %s\n" % s.encode().hex() for s in strs))
