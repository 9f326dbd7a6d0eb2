"""Random lexicons, texts and operation histories for the lexical analyser."""
import random

def c(ch): return {"o": "set", "neg": False, "r": [[ord(ch), ord(ch)]]}
def cls(rs, neg=False): return {"o": "set", "neg": neg, "r": [[ord(a), ord(b)] for a, b in rs]}
def cat(*a): return {"o": "cat", "a": list(a)}
def alt(*a): return {"o": "alt", "a": list(a)}
def rep(x, mn, mx=-1, lazy=False): return {"o": "rep", "x": x, "min": mn, "max": mx, "lazy": lazy}
ANY = {"o": "set", "neg": True, "r": [[10, 10]]}
EOT = {"o": "eot"}

SPECIAL = set("\\.+*?()|[]{}^$#&-~/ \n\r\t\"")
def esc(cp):
    ch = chr(cp)
    if ch == "\n": return "\\n"
    if ch == "\r": return "\\r"
    if ch == "\t": return "\\t"
    if ch == " ": return " "
    if ch in "\\.+*?()|[]{}^$#&-~": return "\\" + ch
    return ch

def render(r, top=True):
    """Source text of a regular expression (without needless groups at the top)."""
    o = r["o"]
    if "txt" in r: return r["txt"]
    if o == "set":
        if r is ANY or (r["neg"] and r["r"] == [[10, 10]]): return "."
        if not r["neg"] and len(r["r"]) == 1 and r["r"][0][0] == r["r"][0][1]: return esc(r["r"][0][0])
        s = "".join(esc(a) if a == b else esc(a) + "-" + esc(b) for a, b in r["r"])
        return "[" + ("^" if r["neg"] else "") + s + "]"
    if o == "cat": return "".join(render(x, False) if x["o"] != "alt" else "(" + render(x) + ")" for x in r["a"])
    if o == "alt":
        s = "|".join(render(x, False) if x["o"] != "alt" else "(" + render(x) + ")" for x in r["a"])
        return s if top else "(" + s + ")"
    if o == "rep":
        x = r["x"]
        s = render(x, False)
        if x["o"] in ("cat", "rep", "eot", "wb", "eol"): s = "(" + s + ")"
        mn, mx = r["min"], r["max"]
        q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((mn, mx))
        if q is None: q = "{%d,%s}" % (mn, "" if mx == -1 else mx) if mn != mx else "{%d}" % mn
        return s + q + ("?" if r["lazy"] else "")
    if o == "eot": return "$"
    raise ValueError(o)

def nullable(r):
    o = r["o"]
    if o == "set": return False
    if o == "cat": return all(nullable(x) for x in r["a"])
    if o == "alt": return any(nullable(x) for x in r["a"])
    if o == "rep": return r["min"] == 0 or nullable(r["x"])
    return True

def uses_eot(r):
    o = r["o"]
    if o in ("eot", "wb", "eol"): return True
    if o in ("cat", "alt"): return any(uses_eot(x) for x in r["a"])
    if o == "rep": return uses_eot(r["x"])
    return False

def rand_re(rng, alpha, depth=3):
    k = rng.random()
    if depth == 0 or k < 0.3:
        j = rng.random()
        if rng.random() < 0.04: return rng.choice(CLASSES)
        if j < 0.6: return c(rng.choice(alpha))
        if j < 0.7: return ANY
        s = rng.sample(alpha, min(len(alpha), rng.randint(1, 3)))
        return {"o": "set", "neg": rng.random() < 0.3, "r": [[ord(x), ord(x)] for x in sorted(s)]}
    if k < 0.6: return cat(*[rand_re(rng, alpha, depth - 1) for _ in range(rng.randint(2, 3))])
    if k < 0.75: return alt(*[rand_re(rng, alpha, depth - 1) for _ in range(rng.randint(2, 3))])
    if k < 0.78 and depth < 3: return EOT
    for _ in range(20):
        x = rand_re(rng, alpha, depth - 1)
        if not nullable(x) and not uses_eot(x): break
    else:
        x = c(rng.choice(alpha))
    mn, mx = rng.choice([(0, -1), (1, -1), (0, 1), (0, -1), (1, -1), (2, 2), (1, 2), (0, 2), (2, -1)])
    return rep(x, mn, mx, rng.random() < 0.25)

def cps(s): return [ord(x) for x in s]

BADRE = ["(", "a)|(b", "[", "*a", "a{2,1}", "a)", "(?P<n", "[b-a]", "\\", "a**{", "(?:a", "x)(y", "\\p{Foo}", "+"]

# well-known shapes, in the style of the tool's own specifications
def ident(): return cat(cls(["az", "AZ"]), rep(cls(["az", "AZ", "09", "__"]), 0))
def number(): return rep(cls(["09"]), 1)
def line_comment(): return cat(c("/"), c("/"), rep(cls([("\n", "\n"), ("\r", "\r")], True), 0))
def block_comment(): return cat(c("/"), c("*"), rep(alt(ANY, cls([("\n", "\n"), ("\r", "\r")])), 0, -1, True), c("*"), c("/"))
def blanks(): return rep(cls([(" ", " "), ("\t", "\t"), ("\r", "\r"), ("\n", "\n")]), 1)

def lexicon(lits, regs, skips, end=99):
    """lits: strings; regs/skips: ASTs. Tags are 1.. in order."""
    n = 0
    L = {"lits": [], "regs": [], "skips": [], "end": end}
    for s in lits:
        n += 1; L["lits"].append({"tag": n, "s": cps(s)})
    for r in regs:
        n += 1; L["regs"].append({"tag": n, "re": r, "ok": True, "src": cps(render(r))})
    for r in skips:
        L["skips"].append({"re": r, "ok": True, "src": cps(render(r))})
    return L

def distinct(L):
    seen = set()
    for key, f in (("lits", "s"), ("regs", "src"), ("skips", "src")):
        keep = []
        for x in L[key]:
            t = tuple(x[f])
            if t and t not in seen:
                seen.add(t); keep.append(x)
        L[key] = keep
    return L

def shuffle_tokens(rng, L):
    for key in ("lits", "regs"):
        rng.shuffle(L[key])
    return L

WORD = [[48, 57], [65, 90], [95, 95], [97, 122]]
WB = {"o": "wb", "r": WORD, "txt": "(?-u:\\b)"}
EOL = {"o": "eol", "txt": "(?m:$)"}
CLASSES = [{"o": "set", "neg": False, "r": [[48, 57]], "txt": "[[:digit:]]"}, {"o": "set", "neg": False, "r": [[48, 57]], "txt": "(?-u:\\d)"},
           {"o": "set", "neg": False, "r": [[9, 13], [32, 32]], "txt": "(?-u:\\s)"}, {"o": "set", "neg": False, "r": WORD, "txt": "(?-u:\\w)"},
           {"o": "set", "neg": False, "r": [[65, 90], [97, 122]], "txt": "[[:alpha:]]"}, {"o": "set", "neg": True, "r": [[97, 102]], "txt": "[^a-f]"},
           {"o": "set", "neg": False, "r": [[97, 97]], "txt": "\\x61"}, {"o": "set", "neg": False, "r": [[233, 233]], "txt": "\\u{e9}"},
           {"o": "set", "neg": False, "r": [[97, 97], [99, 105]], "txt": "[a-i&&[^b]]"}, {"o": "set", "neg": False, "r": [[10, 10]], "txt": "\\x0A"}]

def through(r, f):
    """the regular expression with f applied to its parts"""
    x = {k: v for k, v in r.items() if k != "txt"}
    if "x" in x: x["x"] = through(x["x"], f)
    if "a" in x: x["a"] = [through(y, f) for y in x["a"]]
    return f(x)

def plain_sets(r):
    return "txt" not in r and all(plain_sets(y) for y in r.get("a", [])) and ("x" not in r or plain_sets(r["x"]))

def folded(r):
    """as matched without regard to the case of ASCII letters"""
    if r["o"] == "set":
        extra = []
        for a, b in r["r"]:
            for u, v, d in ((65, 90, 32), (97, 122, -32)):
                lo, hi = max(a, u), min(b, v)
                if lo <= hi: extra.append([lo + d, hi + d])
        r["r"] = r["r"] + extra
    return r

def fancy(rng, re):
    """(regular expression, source) for one of the ways of dressing up a regular expression"""
    src = render(re)
    k = rng.randrange(9)
    if k == 0 and not any(c.isspace() or c in "#\u200e\u200f" for c in src): return re, "(?x)" + src + rng.choice(["# note", " # a)|(b", "  #", " "])
    if k == 1 and plain_sets(re) and not set(src) & set("\u00e9kKsS\u212a\u017f"): return through(re, folded), rng.choice(["(?i)%s", "(?i:%s)"]) % src
    if k == 2: return re, "(?:%s)" % src
    if k == 3: return re, "(?P<name>%s)" % src
    if k == 4 and plain_sets(re):
        return through(re, lambda r: dict(r, neg=False, r=[[0, 0x10ffff]]) if r["o"] == "set" and r["neg"] and r["r"] == [[10, 10]] else r), "(?s)" + src
    if k == 5: return through(re, lambda r: dict(r, lazy=not r["lazy"]) if r["o"] == "rep" and r["min"] != r["max"] else r), "(?U)" + src
    if k == 6: return through(re, lambda r: {"o": "eol"} if r["o"] == "eot" else r), "(?m)" + src
    if k == 7 and not nullable(re): 
        r = cat(re if re["o"] != "alt" else re, WB); return r, render(r)
    if k == 8:
        r = cat(re, EOL); return r, render(r)
    return re, src

ALPHAS = ["ab", "abc", "ab\n", "ab ", "a\u00e9b", "a\u20ac\U0001F600", "ab\n\r", "a \n\u00e9", "if9 ", "ab/*\n"]
# characters that other tools take for white space, line ends, marks, or nothing at all
QUIRKY = ["a\ufeff\n", "a\x0c\n", "a\x0b\x85", "a\u2028\u2029\n", "a\x00\x7f", "a\u0301\u00a0", "a\u200b\u3000\n", "\x1a\x04\ufffd"]
QUIRKS = "\ufeff\x0c\x0b\x85\u2028\u2029\x00\x7f\u0301\u00a0\u200b\u3000\x1a\x1b\ufffd\uffff\U0010ffff\ue000"

def long_lexicon(rng):
    """literals many of which begin others, up to a length no word has, and patterns that tie or nearly tie with them"""
    alpha = rng.choice(["ab", "a", "a-", "=\u00e9", "a\n", "xyz"])
    base = "".join(rng.choice(alpha) for _ in range(rng.choice([6, 12, 20, 40])))
    cut = sorted(set(rng.randint(1, len(base)) for _ in range(rng.randint(2, 8))))
    lits = {base[:n] for n in cut}
    for n in rng.sample(cut, min(2, len(cut))):
        lits.add(base[:n] + rng.choice(alpha + "z") + "".join(rng.choice(alpha) for _ in range(rng.randint(0, 20))))
    regs = []
    if rng.random() < .6: regs.append(rep(cls([(x, x) for x in sorted(set(alpha))]), rng.choice([1, 2, 17]), rng.choice([-1, 3, 17, 30]) if rng.random() < .5 else -1))
    if regs and regs[0]["max"] != -1 and regs[0]["max"] < regs[0]["min"]: regs[0]["max"] = regs[0]["min"]
    if rng.random() < .3: regs.append(cat(*[c(x) for x in base[:cut[-1]]]))
    if rng.random() < .3: regs.append(cat(*[c(x) for x in base[:cut[0]]], rep(ANY, 0, rng.randint(1, 18))))
    L = shuffle_tokens(rng, distinct(lexicon(sorted(sorted(lits), key=lambda _: rng.random()), regs, [c(" ")] if rng.random() < .5 else [])))
    ls = ["".join(map(chr, x["s"])) for x in L["lits"]]
    ts = []
    for _ in range(4):
        t = ""
        for _ in range(rng.randint(1, 3)):
            x = rng.choice(ls + [base])
            k = rng.random()
            if k < .4: x = x[: rng.randint(0, len(x))]
            elif k < .6: x += rng.choice(alpha)
            t += x + rng.choice(["", "", " ", "z", rng.choice(alpha)])
        ts.append(cps(t))
    return L, ts

def many_lexicon(rng):
    """many literals and patterns at once"""
    alpha = "abcdefgh"[: rng.choice([2, 3, 5, 8])]
    lits = {"".join(rng.choice(alpha) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(10, 70))}
    regs = [rand_re(rng, list(alpha), 1) for _ in range(rng.randint(3, 14))]
    skips = [rand_re(rng, list(alpha + " "), 1) for _ in range(rng.randint(0, 6))] if rng.random() < .5 else [c(" ")]
    L = shuffle_tokens(rng, distinct(lexicon(sorted(sorted(lits), key=lambda _: rng.random()), regs, skips)))
    return L, [rand_text(rng, alpha + " ", 10, "z", [x["s"] for x in L["lits"]]) for _ in range(3)]

def rand_lexicon(rng, alpha, maxlit=3, maxreg=3, maxskip=2):
    lits = set()
    for _ in range(rng.randint(0, maxlit)):
        lits.add("".join(rng.choice(alpha) for _ in range(rng.randint(1, 3))))
    regs = [rand_re(rng, alpha) for _ in range(rng.randint(0 if lits else 1, maxreg))]
    if regs and rng.random() < 0.4:      # overlap on purpose: a pattern that also matches a literal
        base = rng.choice(sorted(lits)) if lits else rng.choice(alpha)
        regs.append(cat(c(base[0]), *[rep(c(x), 0, 1) for x in base[1:]], rep(cls([(x, x) for x in alpha[:2]]), 0)))
    if rng.random() < 0.3 and regs:      # equal length ties
        regs.append(alt(regs[0], c(rng.choice(alpha))))
    skips = [rand_re(rng, alpha, 2) for _ in range(rng.randint(0, maxskip))]
    L = lexicon(sorted(sorted(lits), key=lambda _: rng.random()), regs, skips)
    for x in L["regs"] + L["skips"]:
        if rng.random() < 0.15:
            x["re"], src = fancy(rng, x["re"]); x["src"] = cps(src)
    L = distinct(L)
    return shuffle_tokens(rng, L)

def rand_text(rng, alpha, n, extra="", lits=()):
    out = []
    m = rng.randint(0, n)
    while len(out) < m:
        k = rng.random()
        if lits and k < 0.3: out += rng.choice(lits)
        elif extra and k < 0.4: out.append(ord(rng.choice(extra)))
        else: out.append(ord(rng.choice(alpha)))
    return out

def read_ops(rng, t, label="t", s=1, style=None):
    """open a text and read it to beyond its end, peeking here and there"""
    ops = [{"o": "new", "s": s, "t": t, "l": label}]
    n = len(t) + 2
    style = style or rng.choice(["advf", "fadv", "mixed"])
    if style == "advf":
        ops += [{"o": "front", "s": s}] + [{"o": "advf", "s": s}] * n
    elif style == "fadv":
        ops += [{"o": "fadv", "s": s}] * (n + 1)
    else:
        for _ in range(n + 1):
            k = rng.random()
            if k < 0.3: ops.append({"o": "front", "s": s})
            if k < 0.15: ops.append({"o": "front", "s": s})
            if rng.random() < 0.2: ops.append({"o": "empty", "s": s})
            ops.append({"o": rng.choice(["fadv", "advf", "adv"]), "s": s})
    return ops

def case(i, L, ops, streams=1):
    return {"id": i, "lex": L, "ops": ops, "streams": streams}
