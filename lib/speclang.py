"""The specification language as text: tokens, layouts, and parts moved into %inject files."""
import os, re

TOKS = [("RegEx", r"\(.+\)"), ("Literal", r'"(?:\\"|[^"\t\r\n\v\f])*"'), ("Ident", r"[a-zA-Z]+[a-zA-Z0-9_]*"),
        ("PredicateExpr", r"\?\([\s\S]*?\?\)"), ("ActionCode", r"!\{[\s\S]*?!\}"), ("RustCode", r"%\{[\s\S]*?%\}"),
        ("NumberExpr", r"[0-9]+")]
LITS = ["%attr", "%target", "%token", "%left", "%right", "%nonassoc", "%prec", "%skip", "%error", "%inject", "%%", ":", "|", ".",
        "%reduce_reduce", "%shift_reduce"]
SKIPS = [re.compile(r"/\*[\s\S]*?\*/"), re.compile(r"//[^\n\r]*"), re.compile(r"\s+")]
RX = [(k, re.compile(r)) for k, r in TOKS]

def tokenize(text):
    """[(kind, text, position)]"""
    out = tokenize_some(text)
    if out and out[-1][0] == "unreadable": raise ValueError("cannot read %r" % text[out[-1][2]:][:20])
    return out

def tokenize_some(text):
    """the same, ending with an entry of kind "unreadable" where there is no token"""
    out, i = [], 0
    while i < len(text):
        for s in SKIPS:
            m = s.match(text, i)
            if m and m.end() > i: break
        else: m = None
        if m: i = m.end(); continue
        best = ("", "", 0)
        for l in LITS:
            if text.startswith(l, i) and len(l) > len(best[1]): best = (l, l, i)
        for k, r in RX:
            m = r.match(text, i)
            if m and len(m.group(0)) > len(best[1]): best = (k, m.group(0), i)
        if not best[1]: return out + [("unreadable", text[i], i)]
        out.append(best); i += len(best[1])
    return out

WORDY = re.compile(r"[A-Za-z0-9_%]")
SPACES = [" ", "\n", "\t", "  \n ", "\r\n", "\r\n\r\n", " /* c */ ", "/* a\n b */", "// line\n", "//%% ) \" !}\n", "/**/", "/* ) \" %} !} ?) */",
          "\n\n// x\r\n", "\u00a0", " \u2003", "\x0b", "/***/ ", "// %inject \"x\" .\n", "/* // */", "\n/* %%\r\n*/\n"]

def place(text, n):
    """line and byte offset of character n of text"""
    i = text.rfind("\n", 0, n) + 1
    return text.count("\n", 0, n) + 1, len(text[i:n].encode()) + 1

def relayout(rng, toks, style=None, rec=None, label=""):
    """the tokens as text; rec: {mark: (label, line, offset)} is filled with the places of tokens carrying a mark"""
    out, marks = layout_of(rng, toks, style)
    text = "".join(out)
    if rec is not None:
        n = 0
        for k, s in enumerate(out):
            if k in marks: rec[marks[k]] = (label,) + place(text, n)
            n += len(s)
        rec["end", label] = (label,) + place(text, n)
    return text

def layout_of(rng, toks, style):
    marks = {}
    style = style or rng.choice(["mix", "tight", "lines", "crlf"])
    out = []
    if rng.random() < .5: out.append(rng.choice(SPACES))
    for n, (k, t, mark) in enumerate(toks):
        if not isinstance(mark, int): marks[len(out)] = mark
        out.append(t)
        if n + 1 == len(toks):
            if k == "RegEx" or rng.random() < .5: out.append("\n")
            break
        nx = toks[n + 1][1]
        if k == "RegEx": out.append(rng.choice(["\n", "\r\n"])); continue
        tight = not (WORDY.match(t[-1]) and WORDY.match(nx[0]))
        if k in ("RustCode",) or toks[n + 1][0] == "RustCode": tight = True
        if style == "tight": out.append("" if tight else " ")
        elif style == "lines": out.append("\n")
        elif style == "crlf": out.append(rng.choice(["\r\n", " "]))
        else: out.append("".join(rng.choice(SPACES) for _ in range(rng.choice([1, 1, 1, 2]))) if not tight or rng.random() < .8 else "")
    return out, marks

def gaps(toks):
    """token indices before which one %inject may stand, with the section"""
    res = []
    sect = 0
    rules = 0
    k = [t[0] for t in toks]
    first = True
    for i, x in enumerate(k):
        # an injection right after the only token definition is taken to be followed by another one
        if i > 2 and k[i - 3] == "%token" and k[:i].count("%token") == 1 and x != "%token" and sect == 1:
            if x == "%%": sect += 1
            continue
        if x == "RustCode": res.append(i)
        elif x in ("%attr", "%target"):
            if i > 0 and k[i - 1] == "RustCode" or i > 1 and k[i - 2] in ("%attr", "%target"): res.append(i)
        elif x in ("%reduce_reduce", "%shift_reduce"): res.append(i)
        elif x == "%%":
            # after a lone %reduce_reduce or %shift_reduce an injection is taken to be followed by the other one
            if not (sect == 0 and sum(y in ("%reduce_reduce", "%shift_reduce") for y in k[:i]) == 1): res.append(i)
            sect += 1
        elif x in ("%token", "%skip", "%left", "%right", "%nonassoc"): res.append(i)
        elif sect == 2 and i + 1 < len(k) and x == "Ident" and k[i + 1] == ":": res.append(i)
    res.append(len(k))
    return res

def injected(rng, toks, dir_, stem, rec=None):
    """(text, [files written]): parts moved to files, nested now and then; blank files in between"""
    files = []
    def write(text):
        p = os.path.join(dir_, "%s_%d.inj" % (stem, len(files)))
        files.append((p, text))
        return p
    def build(lo, hi, gs, depth):
        """tokens lo..hi, with injections at some of the gaps gs (all > lo unless the range is the whole text)"""
        out, i = [], lo
        todo = sorted(g for g in gs if lo <= g <= hi)
        seq = []
        while i < hi or todo:
            while todo and todo[0] < i: todo.pop(0)
            if todo and todo[0] == i:
                todo.pop(0)
                r = rng.random()
                if r < .3:
                    p = write(rng.choice(["// nothing\n", "\n", " /* none */ ", "/* a\nb */\n\n"]))
                    seq += [("%inject", "%inject", 0), ("Literal", '"%s"' % p, 0), (".", ".", 0)]
                elif r < .75 and i < hi:
                    j = rng.choice([g for g in gs_all if i < g <= hi] or [None])
                    if j is None: continue
                    inner = [g for g in gs_all if i < g < j] if depth < 2 else []
                    inner = [g for g in inner if rng.random() < .4]
                    body = build(i, j, inner, depth + 1)
                    p = write("")
                    files[-1] = (p, relayout(rng, body, None, rec, p))
                    seq += [("%inject", "%inject", 0), ("Literal", '"%s"' % p, 0), (".", ".", 0)]
                    i = j
                    # no second injection at the same gap
                    while todo and todo[0] <= i: todo.pop(0)
                continue
            if i < hi: seq.append(toks[i]); i += 1
        return seq
    gs_all = gaps(toks)
    pick = [g for g in gs_all if rng.random() < .35]
    if not pick: pick = [rng.choice(gs_all)]
    seq = build(0, len(toks), pick, 0)
    return seq, files
