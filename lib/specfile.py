"""Reading a specification file (the ones the generators ship with) into a grammar."""
from gram import *
from speclang import tokenize

SAMPLE = {"Literal": '"x"', "RegEx": "(x)\n", "Ident": "foo", "ActionCode": "!{ !}", "PredicateExpr": "?( ?)", "RustCode": "%{ %}",
          "NumberExpr": "1"}

class FileGram(Gram):
    """a grammar read from a file; its lexicon is kept as source text only"""
    def lexicon(self): return {"lits": [], "regs": [], "skips": [], "end": 0}

def read_spec(text, name="fe"):
    tk = tokenize(text)
    k = 0
    def at(n=0): return tk[k + n][0] if k + n < len(tk) else "end"
    toks, skips, lines, sr, rr = [], [], [], None, None
    preds = {}
    while at() != "%%": k += 1
    k += 1
    refs = {}
    while at() != "%%":
        if at() == "%token":
            n, (kind, src, _) = tk[k + 1][1], tk[k + 2]
            if kind == "Literal":
                t = Tok(n, src[1:-1].replace('\\"', '"')); refs[src] = len(toks)
            else:
                t = Tok(n, None, src, [SAMPLE.get(n, "?")])
            refs[n] = len(toks); toks.append(t); k += 3
        elif at() == "%skip": skips.append(tk[k + 1][1]); k += 2
        else:
            a = {"%left": "L", "%right": "R", "%nonassoc": "N"}[at()]; k += 1
            s = []
            while at() in ("Ident", "Literal"): s.append(tk[k][1]); k += 1
            lines.append((a, s))
    k += 1
    tags = []
    for a, s in lines:
        for x in s:
            if x not in refs and x not in tags: tags.append(x)
    ref = lambda x: ("t", refs[x]) if x in refs else ("g", tags.index(x))
    raw, nts = [], []
    while k < len(tk):
        l = tk[k][1]; k += 2
        if l not in nts: nts.append(l)
        cur = {"l": l, "r": [], "pk": None, "pt": None}
        while True:
            kind, src, _ = tk[k]
            if kind in ("|", "."):
                raw.append(cur); k += 1
                if kind == ".": break
                cur = {"l": l, "r": [], "pk": None, "pt": None}
            elif kind == "%prec": cur["pt"] = ref(tk[k + 1][1]); k += 2
            elif kind == "PredicateExpr": cur["pk"] = ("never", []); k += 1
            elif kind == "ActionCode": k += 1
            elif kind == "%error": cur["r"].append('e'); k += 1
            else: cur["r"].append(src); k += 1
    prods = []
    for c in raw:
        r = [x if x == 'e' else ("t", refs[x]) if x in refs else ("n", nts.index(x)) for x in c["r"]]
        prods.append(Prod(nts.index(c["l"]), r, pt=c["pt"], pk=c["pk"], act="act"))
    return FileGram(name, toks, nts, prods, [(a, [ref(x) for x in s]) for a, s in lines], tags, skips)

def repo_grams(rng=None):
    """the grammars the repository itself ships with (the generators', the examples'), each token written as a word:
    realistic ones, larger than the ones generated"""
    import glob, os
    from core import REPO
    out = []
    for p in sorted(glob.glob(REPO + "/*/src/*.laps") + glob.glob(REPO + "/*/src/*.alaps") + glob.glob(REPO + "/examples/*/src/*.*laps")):
        try:
            g = read_spec(open(p, encoding="utf-8").read())
            if not g.prods: continue
        except Exception: continue
        toks = [Tok(t.name, "w%d" % i) for i, t in enumerate(g.toks)]
        if rng:
            for q in g.prods:
                if q.pk: q.pk = rand_pred(rng, q.r, len(toks))
        nm = os.path.basename(p).split(".")[0].replace("_", "")
        g = Gram("R" + nm + ("a" if p.endswith(".alaps") else "l"), toks, g.nts, g.prods, g.lines, g.tags)
        if g.show() not in [x.show() for x in out]: out.append(g)
    return out
