"""Grammars: random and classic ones, their specification texts, and the form the TLA+ modules read."""
import random, re
from lexgen import *

POOL = ["a", "b", "c", "d", "+", "-", "*", "/", "(", ")", "[", "]", ",", ";", "=", "==", "<", "<=", "if", "then",
        "else", "do", "x", "{", "}", "->", "!", "in"]
NAMES = ["Kite", "Alpha", "Zed", "Mono", "Blue", "Quo", "Echo", "Tee", "Rho", "Dune", "Yak", "Fig", "Ox", "Pim", "Uno", "Vee"]
NTN = ["Start", "Expr", "Zulu", "Box", "List", "Aux", "Mid", "Tail", "Head", "Opt", "Wide", "Core", "Node", "Unit", "Kind", "Leaf"]

def src_re(r): return r if isinstance(r, str) else "(%s)" % render(r)

class Tok:
    def __init__(self, name, lit=None, re_=None, lexemes=None):
        self.name, self.lit, self.re = name, lit, re_
        self.lexemes = lexemes or [lit]

class Prod:
    def __init__(self, l, r, pt=None, pk=None, act="act", cp=0):
        self.l, self.r, self.pt, self.pk, self.act, self.cp = l, r, pt, pk, act, cp

class Gram:
    """toks: [Tok]; nts: names; prods: [Prod] with l an index into nts and symbols ('t',i), ('n',i), 'e';
    lines: [(assoc 'L'/'R'/'N', [('t',i)|('g',i)])]; tags: names"""
    def __init__(self, name, toks, nts, prods, lines=(), tags=(), skips=None, sr=None, rr=None):
        self.name, self.toks, self.nts, self.prods = name, toks, nts, prods
        self.lines, self.tags = list(lines), list(tags)
        self.skips = [blanks()] if skips is None else skips
        self.sr, self.rr = sr, rr

    # ---- the form the specification reads
    def sym(self, x):
        if x == 'e': return 200
        k, i = x
        return {"t": 1, "n": 101, "g": 301}[k] + i
    def tla(self):
        ps = []
        for i, p in enumerate(self.prods):
            ps.append({"l": 101 + p.l, "r": [self.sym(x) for x in p.r], "pt": self.sym(p.pt) if p.pt else 0,
                       "pk": p.pk[0] if p.pk else "none", "pa": list(p.pk[1]) if p.pk else [],
                       "act": i + 1 if p.act in ("act", "see", "inj") else 0, "kind": p.act or "none", "cp": p.cp, "ni": self.injections(i)})
        return {"nt": len(self.toks), "nn": len(self.nts), "prods": ps,
                "lines": [{"a": a, "s": [self.sym(x) for x in s]} for a, s in self.lines]}
    def lexicon(self):
        L = {"lits": [], "regs": [], "skips": [{"re": r, "ok": True, "src": cps(render(r))} for r in self.skips], "end": 0}
        for i, t in enumerate(self.toks):
            if t.lit is not None: L["lits"].append({"tag": i + 1, "s": cps(t.lit)})
            else: L["regs"].append({"tag": i + 1, "re": t.re, "ok": True, "src": cps(render(t.re))})
        return L
    def names(self):
        return {"toks": ["AAEnd"] + [t.name for t in self.toks],
                "nts": [["AAStart", 100], ["AAError", 200]] + [[n, 101 + i] for i, n in enumerate(self.nts)]}
    def shown(self, t): return '"%s"' % t.lit.replace('"', '\\"') if t.lit is not None else t.name
    def uses_err(self): return any('e' in p.r for p in self.prods)
    def has_pred(self): return any(p.pk for p in self.prods)
    def injections(self, k): return (0 if self.prods[k].act != "inj" else 2 if k % 4 in (2, 3) else 1)
    def has_inj(self): return any(p.act == "inj" for p in self.prods)

    # ---- the form the generators read
    def text(self, lib, rng=None, preamble=None, sr=None, rr=None, order=None, alias=None, gap=None, split=False):
        rng = rng or random.Random(0)
        alias = alias if alias is not None else 0.5
        nl = gap or (lambda: "\n")
        sr = self.sr if sr is None else sr
        rr = self.rr if rr is None else rr
        pre = preamble if preamble is not None else getattr(self, "pre", "%%{ %s %%}") % ("use rt::Attr; rt::entry_%s!();" % lib)
        o = [pre]
        conf = ["%attr Attr", "%target P"]
        exp = []
        if rr is not None: exp.append("%%reduce_reduce %d" % rr)
        if sr is not None: exp.append("%%shift_reduce %d" % sr)
        if order:
            if order & 1: conf.reverse()
            if order & 2: exp.reverse()
        o += conf + exp + ["%%"]
        for t in self.toks:
            o.append("%%token %s %s" % (t.name, '"%s"' % t.lit.replace('"', '\\"') if t.lit is not None else src_re(t.re)))
        for s in self.skips: o.append("%%skip %s" % src_re(s))
        for a, syms in self.lines:
            o.append({"L": "%left", "R": "%right", "N": "%nonassoc"}[a] + " " + " ".join(self.ref(x, rng, alias) for x in syms))
        o.append("%%")
        heads = []
        i = 0
        while i < len(self.prods):
            j = i
            while j < len(self.prods) and self.prods[j].l == self.prods[i].l and (j == i or not split or rng.random() < .5): j += 1
            alts = [self.alt(k, lib, rng, alias) for k in range(i, j)]
            o.append("%s: %s" % (self.nts[self.prods[i].l], (nl() + "    | ").join(alts)) + nl() + "    .")
            i = j
        return nl().join(o) + "\n"
    def ref(self, x, rng, alias):
        if x == 'e': return "%error"
        k, i = x
        if k == 'n': return self.nts[i]
        if k == 'g': return self.tags[i]
        t = self.toks[i]
        if t.lit is not None and rng.random() < alias: return '"%s"' % t.lit.replace('"', '\\"')
        return t.name
    def alt(self, k, lib, rng, alias):
        p = self.prods[k]
        o = [self.ref(x, rng, alias) for x in p.r]
        args = ", ".join("&$%d" % (j + 1) for j in range(len(p.r)))
        pre, post = getattr(p, "odd", ("", ""))
        twice = k % 3 == 1          # everything that can be referred to can be so more than once
        if p.pk and lib == "a":
            code = getattr(self, "code", None)
            code = code[k % len(code)] if code and k % 2 and "?)" not in code[k % len(code)] and "rt::" in code[k % len(code)] else None
            o.append('?( ' + ("{ %s true } && " % code if code else "") + ("{ let _ = (%s); true } && " % ", ".join((["&$1", "&$1"] if p.r else []) + ["&$? "] * (2 + k % 5)) if twice else "") + 'rt::pred(%d, "%s", &%s, &[%s], &$? ) ?)' % (
                k + 1, p.pk[0], list(p.pk[1]), ", ".join("$%d" % (j + 1) for j in range(len(p.r)))))
        if p.pt: o.append("%prec " + self.ref(p.pt, rng, alias))
        if p.act and "\n" not in pre and getattr(self, "code", None) and (k * 7 + len(self.prods)) % 3 == 0: pre = self.code[k % len(self.code)] + pre
        if p.act == "act": o.append("!{%s%s $$ = rt::act(%d, &$$, &[%s]); %s!}" % ("let _ = (%s); " % ", ".join((["&$1", "&$1", "&$%d" % len(p.r)] if p.r else []) + ["&$$"] * (2 + (k + len(self.prods)) % 9)) if twice else "", pre, k + 1, args, post))
        elif p.act == "see": o.append("!{ %srt::see(%d, &$$, &[%s]); !}" % (pre, k + 1, args))
        elif p.act == "inj":
            o.append("!{ %s$$ = rt::act(%d, &$$, &[%s]); %s!}" % (
            'if false { %s} ' % ('$INJECT("".to_string(), "".to_string()); ' * (2 + len(self.prods) % 5)) if twice else "", k + 1, args,
            "let (t, l) = rt::inj(); $INJECT(t, l); " * self.injections(k)))
        elif p.act == "copy": o.append("!{ $$ = $%d.clone(); !}" % p.cp)
        return " ".join(o)
    def show(self):
        r = {}
        for p in self.prods:
            s = " ".join(self.show_sym(x) for x in p.r) or "-"
            if p.pk: s += " ?%s%s" % (p.pk[0], list(p.pk[1]))
            if p.pt: s += " %prec " + self.show_sym(p.pt)
            r.setdefault(self.nts[p.l], []).append(s)
        return "; ".join("%s: %s" % (k, " | ".join(v)) for k, v in r.items()) + \
            ("" if not self.lines else " {" + "; ".join(a + " " + " ".join(self.show_sym(x) for x in s) for a, s in self.lines) + "}")
    def show_sym(self, x):
        if x == 'e': return "%error"
        k, i = x
        return self.nts[i] if k == "n" else self.tags[i] if k == "g" else (self.toks[i].lit or self.toks[i].name)
    # ---- texts
    def render_tokens(self, rng, w, seps=(" ",)):
        out = ""
        for t in w:
            if t == -1: out += rng.choice(["@", "@@", "\u00e9", "#~"])
            else: out += rng.choice(self.toks[t].lexemes)
            out += rng.choice(seps)
        return out

# --------------------------------------------------------------------------------------------------
def compact(name, rules, lines="", rng=None, acts="act", regs=()):
    """compact("calc", "E: E + E | ( E ) | n", "L +;L *"): symbols that are heads are non-terminals;
    `x / tag' is written  `.. %prec x'."""
    rng = rng or random.Random(0)
    groups = [g for g in rules.split(";;") if g.strip()]
    heads = []
    raw = []
    for g in groups:
        h, b = g.split(":", 1)
        h = h.strip()
        if h not in heads: heads.append(h)
        for a in b.split(" | ") if b.strip() else [""]:
            raw.append((h, a.split()))
    raw = [(h, [] if a == ["-"] else a) for h, a in raw]
    toks, tags = [], []
    ln = []
    for l in [x for x in lines.split(";") if x.strip()]:
        ws = l.split()
        ln.append((ws[0], ws[1:]))
    for h, a in raw:
        i = 0
        while i < len(a):
            x = a[i]
            if x.startswith("%prec"): i += 2; continue
            if x.startswith("?"): i += 1; continue
            if x not in heads and x != "%error" and x not in toks: toks.append(x)
            i += 1
    for _, ws in ln:
        for x in ws:
            if x not in toks: tags.append(x)
    names = rng.sample(NAMES, min(len(toks), len(NAMES))) + ["Tok%d" % i for i in range(len(NAMES), len(toks))]
    T = []
    for x, n in zip(toks, names):
        if x == "n" or x in regs:
            T.append(Tok("NUM", None, number(), ["1", "23", "007"]) if x == "n" else
                     Tok("IDENT", None, rep(cls(["pz"]), 1), ["p", "qr", "zz"]))
        else: T.append(Tok(n, x))
    def sy(x):
        if x == "%error": return 'e'
        if x in heads: return ('n', heads.index(x))
        if x in toks: return ('t', toks.index(x))
        return ('g', tags.index(x))
    ps = []
    for h, a in raw:
        r, pt, pk = [], None, None
        i = 0
        while i < len(a):
            if a[i] == "%prec": pt = sy(a[i + 1]); i += 2; continue
            if a[i].startswith("?"):
                k, _, ar = a[i][1:].partition(":")
                pk = (k, [(toks.index(z) + 1 if z in toks else int(z)) for z in ar.split(",") if z]); i += 1; continue
            r.append(sy(a[i])); i += 1
        ps.append(Prod(heads.index(h), r, pt, pk, acts if isinstance(acts, str) else acts(rng, r)))
    nts = [h if len(h) > 2 else "N" + h for h in heads]
    return Gram(name, T, nts, ps, [(a, [sy(x) for x in ws]) for a, ws in ln], tags)

def some_act(rng, r, inj=0.0):
    k = rng.random()
    if k < inj: return "inj"
    k = rng.random()
    if k < 0.75: return "act"
    if k < 0.83: return "see"
    return None

CLASSIC = [   # (rules, precedence lines)
 ("S: - ;; U: a U", ""), ("S: a", ""), ("S: - | S a", ""), ("S: - | a S", ""), ("S: a S b | -", ""), ("S: ( S ) S | -", ""),
 ("S: A B ;; A: a | - ;; B: b | -", ""), ("S: A A ;; A: a A | b", ""), ("S: L = R | R ;; L: * R | i ;; R: L", ""),
 ("S: a A d | b B d | a B e | b A e ;; A: c ;; B: c", ""),          # LR(1) but not LALR(1)
 ("S: A a | b A c | d c | b d a ;; A: d", ""),                     # LALR(1) but not SLR(1)
 ("E: E + T | T ;; T: T * F | F ;; F: ( E ) | n", ""),
 ("E: T R ;; R: + T R | - ;; T: F Q ;; Q: * F Q | - ;; F: ( E ) | n", ""),
 ("S: A B C D ;; A: a | - ;; B: b | A ;; C: c C | - ;; D: d | B c", ""),
 ("S: X ;; X: Y a | b ;; Y: X c | -", ""),
 ("S: B ;; B: B b | - ;; U: a U | c", ""),                         # U unused
 ("S: A ;; A: B A c | - ;; B: - | b", ""),
 ("S: A x B ;; A: B | A y ;; B: C | z B ;; C: - | c C w", ""),
 ("E: E + E | E * E | ( E ) | n", "L +;L *"), ("E: E + E | E - E | - E %prec UM | n", "L + -;R UM"),
 ("E: E = E | E + E | n", "R =;L +"), ("E: E < E | E + E | n", "N <;L +"),
 ("S: if c then S | if c then S else S | x", ""), ("S: if c then S | if c then S else S | x", "N then;N else"),
 ("S: if c then S %prec LOW | if c then S else S | x", "N LOW;N else"),
 ("S: L ;; L: L , I | I ;; I: a | %error", ""), ("S: L ;; L: L ; I | I ;; I: a | ( L ) | ( %error", ""),
 ("S: - | S K ;; K: a b ; | %error ; | ;", ""), ("S: - | S K ;; K: a b ; | %error", ""),
 ("E: E + E | ( E ) | ( %error ) | n | %error", "L +"),
 ("P: B ;; B: { L } | { %error ;; L: K | L ; K ;; K: a | B | %error", ""),
 ("S: A | B ;; A: a ;; B: a", ""), ("S: A c | B c | B d ;; A: a ;; B: a", ""),
 ("S: A | B | C ;; A: x a ;; B: x a ;; C: x a", ""),
 ("S: S S | a", ""), ("S: S S | a | -", ""), ("E: E E + | E E * | n", ""),
 ("D: V | V A ;; V: x | y ;; A: ( L ) | = n ;; L: n | L , n", ""),
 ("J: O | A | n ;; O: { } | { M } ;; M: Q | M , Q ;; Q: x : J ;; A: [ ] | [ V ] ;; V: J | V , J", ""),
 ("S: A A A a ;; A: - | b A", ""), ("S: A b | c ;; A: S d | -", ""),
]
def classic(rng, only=None):
    res = []
    for k, (r, l) in enumerate(CLASSIC):
        r = r.replace(" : J", " :: J") if ": x : J" in r else r
        res.append(compact("k%d" % k, fix(r), l, rng, acts=lambda g, r: some_act(g, r)))
    return res
def fix(r):
    # the compact notation uses ':' after the head only
    return r

def rand_toks(rng, n):
    lits = rng.sample(POOL, n)
    if "<=" in lits and "<" not in lits: pass
    names = rng.sample(NAMES, n)
    T = [Tok(nm, l) for nm, l in zip(names, lits)]
    if rng.random() < 0.3: T[rng.randrange(n)] = Tok("NUM", None, number(), ["1", "23", "007"])
    if n > 1 and rng.random() < 0.25:
        k = rng.randrange(n)
        if T[k].name != "NUM": T[k] = Tok("IDENT", None, rep(cls(["pz", "PZ"]), 1), ["p", "qr", "Zz"])
    return T

def rand_gram(rng, name, maxn=4, maxt=4, maxalt=3, maxlen=3, err=0.0, pred=0.0, prec=0.0, inj=0.0, eps=0.15):
    nn, nt = rng.randint(1, maxn), rng.randint(1, maxt)
    T = rand_toks(rng, nt)
    nts = rng.sample(NTN, nn)
    tags, lines = [], []
    if rng.random() < prec:
        cand = [('t', i) for i in range(nt)]
        if rng.random() < 0.6:
            tags = ["TAGa", "UNARY"][:rng.randint(1, 2)]
            cand += [('g', i) for i in range(len(tags))]
        rng.shuffle(cand)
        cand = cand[:rng.randint(1, len(cand))]
        while cand:
            k = rng.randint(1, min(2, len(cand)))
            lines.append((rng.choice("LLRN"), cand[:k])); cand = cand[k:]
        used = {x for _, s in lines for x in s}
        tags_used = [i for i in range(len(tags)) if ('g', i) in used]
        remap = {('g', o): ('g', k) for k, o in enumerate(tags_used)}
        tags = [tags[i] for i in tags_used]
        lines = [(a, [remap.get(x, x) for x in s]) for a, s in lines]
    P = []
    for l in range(nn):
        seen = set()
        for _ in range(rng.randint(1, maxalt)):
            if rng.random() < eps: r = []
            else:
                r = []
                for _ in range(rng.randint(1, maxlen)):
                    r.append(('t', rng.randrange(nt)) if rng.random() < 0.55 else ('n', rng.randrange(nn)))
            if err and rng.random() < err:
                if rng.random() < 0.75: r = (r if rng.random() < .6 else []) + ['e']
                else: r = r[:1] + ['e'] + r[1:2]
            key = tuple(r)
            if key in seen and rng.random() < 0.8: continue
            seen.add(key)
            pt = None
            if lines and r and rng.random() < 0.3:
                pt = rng.choice([x for _, s in lines for x in s])
            pk = None
            if pred and rng.random() < pred:
                pk = rand_pred(rng, r, nt)
            a = some_act(rng, r, inj)
            cp = 0
            if a is None and len(r) > 1 and rng.random() < 0.4:
                a, cp = "copy", rng.randint(1, len(r))
            P.append(Prod(l, r, pt, pk, a, cp))
    return Gram(name, T, nts, P, lines, tags)

def shape_gram(rng, name, err=0.0, pred=0.0, prec=0.0, inj=0.0, eps=0.15):
    """optional parts in a row, chains of unit productions, lists and brackets: longer than random ones, and more nearly LALR(1)"""
    T = rand_toks(rng, rng.randint(5, 11)); nt = len(T)
    names, rules = [], []
    depth = rng.randint(2, 5)
    free = list(range(nt)); rng.shuffle(free)
    def tok():
        if free and rng.random() < .85: return ('t', free.pop())
        return ('t', rng.randrange(nt))
    def new(): rules.append([]); return len(rules) - 1
    def nul(n): return eps >= .1 or rng.random() < .5
    def opt(d):
        n = new()
        for _ in range(rng.randint(1, 4)): rules[n].append([tok()] + ([item(d + 1)] if rng.random() < .25 else []))
        if nul(n): rules[n].insert(rng.randint(0, len(rules[n])), [])
        return ('n', n)
    def lst(d):
        n = new(); x = item(d + 1)
        sep = [tok()] if rng.random() < .5 else []
        first = [x] if sep or not nul(n) else []
        rules[n] += [first, [('n', n)] + sep + [x]] if rng.random() < .6 else [first, [x] + sep + [('n', n)]]
        return ('n', n)
    def chain(d):
        ns = [new() for _ in range(rng.randint(2, 6))]
        for a, b in zip(ns, ns[1:]):
            rules[a].append([('n', b)] if rng.random() < .85 else [('n', b), ('n', b)] if rng.random() < .3 else [('n', b), opt(d + 1)])
            if rng.random() < .2: rules[a].append([tok()])
        rules[ns[-1]].append([] if rng.random() < .6 else [tok()])
        if rng.random() < .5: rules[ns[-1]].append([tok()])
        return ('n', ns[0])
    def bracket(d):
        n = new()
        rules[n].append([tok(), ('n', 0) if rng.random() < .5 else item(d + 1), tok()])
        if rng.random() < .5: rules[n].append([tok()])
        return ('n', n)
    def item(d):
        if d > depth or len(rules) > 12: return tok()
        k = rng.random()
        f = tok if k < .3 else None
        if f: return f()
        return (opt if k < .6 else chain if k < .75 else lst if k < .88 else bracket)(d)
    new()
    for _ in range(rng.randint(1, 2)): rules[0].append([item(1) for _ in range(rng.randint(2, 6))])
    if rng.random() < .3: rules[0].append([('n', 0), tok()])
    nn = len(rules)
    nts = (NTN + ["Nt%d" % i for i in range(nn)])[:max(nn, 16)]
    nts = rng.sample(nts, nn)
    k = rng.random()
    if k < .5: nts.sort(reverse=k < .25)
    tags, lines = [], []
    if rng.random() < prec:
        c = rng.sample(range(nt), rng.randint(1, nt))
        while c: j = rng.randint(1, 3); lines.append((rng.choice("LLRN"), [('t', x) for x in c[:j]])); c = c[j:]
    P = []
    for l, alts in enumerate(rules):
        for r in alts:
            if err and rng.random() < err * .5: P.append(Prod(l, (r[:1] if rng.random() < .4 else []) + ['e'], act=some_act(rng, [0], inj)))
            pt = rng.choice(rng.choice(lines)[1]) if lines and r and rng.random() < .2 else None
            pk = rand_pred(rng, r, nt) if pred and rng.random() < pred else None
            P.append(Prod(l, r, pt, pk, some_act(rng, r, inj)))
    return Gram(name, T, nts, P, lines, tags)

def rand_pred(rng, r, nt):
    k = rng.random()
    if k < 0.4: return ("la", sorted(rng.sample(range(0, nt + 1), rng.randint(1, nt))))
    if k < 0.65: return ("par", [rng.randint(0, 1)])
    if k < 0.8 and r: return ("first" if rng.random() < .5 else "last", [rng.randint(0, 3)])
    return (rng.choice(["true", "false"]), [])

# --- what is worth parsing: sentences (and near misses) by random derivation
def min_heights(g):
    INF = 10 ** 6
    h = [INF] * len(g.nts)
    ch = True
    while ch:
        ch = False
        for p in g.prods:
            v = 0
            for x in p.r:
                if x == 'e' or x[0] == 't': continue
                v = max(v, h[x[1]])
            v = v + 1 if v < INF else INF
            if v < h[p.l]: h[p.l] = v; ch = True
    return h
def rand_sentence(rng, g, limit=24, h=None):
    h = h or min_heights(g)
    out = []
    if h[g.prods[0].l] >= 10 ** 6: return None
    budget = [rng.randint(2, 14)]
    def go(n, depth):
        if len(out) > 60: return
        alts = [p for p in g.prods if p.l == n and all(x == 'e' or x[0] == 't' or h[x[1]] < 10 ** 6 for x in p.r)]
        budget[0] -= 1
        if budget[0] < 0 or depth > 12:
            m = min(max([0] + [h[x[1]] for x in p.r if x != 'e' and x[0] == 'n']) for p in alts)
            alts = [p for p in alts if max([0] + [h[x[1]] for x in p.r if x != 'e' and x[0] == 'n']) == m]
        p = rng.choice(alts)
        for x in p.r:
            if x == 'e':
                if rng.random() < .3: out.append(rng.randrange(len(g.toks)))
            elif x[0] == 't': out.append(x[1])
            else: go(x[1], depth + 1)
    go(g.prods[0].l, 0)
    return out[:limit]
def mutate(rng, g, w, lexerr=0.0):
    w = list(w)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.random()
        if k < .3 and w: del w[rng.randrange(len(w))]
        elif k < .6: w.insert(rng.randint(0, len(w)), rng.randrange(len(g.toks)))
        elif k < .8 and w: w[rng.randrange(len(w))] = rng.randrange(len(g.toks))
        elif len(w) > 1:
            i = rng.randrange(len(w) - 1); w[i], w[i + 1] = w[i + 1], w[i]
    if lexerr and rng.random() < lexerr: w.insert(rng.randint(0, len(w)), -1)
    return w

CODE_BITS = ["!{", "{", "}", "(", ")", "?(", "?)", "%{", "%}", "%%", "//", "/*", "*/", "$", "$x", "$ 1", "$INJEC", "INJECT", "aa_lhs", "aa_rhs[0]", "%error",
             "  ", "\t", "\\", "\u00e9", "\u20ac", ".", "|", ":", ";", "'", "a", "B", "9", "\n", "%prec", "%inject", "!", "?", "r#", "{}", "{0}"]
def odd_code(rng):
    """a statement that does nothing unless its text has been tampered with"""
    while True:
        t = "".join(rng.choice(CODE_BITS) for _ in range(rng.randint(1, 7)))
        if not re.search(r"\$(\d|\$|\?|INJECT)", t): break
    while "!}" in t: t = t.replace("!}", "! }")
    while "?)" in t and rng.random() < .5: t = t.replace("?)", "? )")
    if rng.random() < .15: return rng.choice([" let _v = vec!{7}; assert_eq!(_v[0], 7); ", " /* !{ $$$ */ ", " // $ ?( \n", " let _n = if !{ true } { panic!{\"changed\"} } else { 1 }; "])
    return ' rt::text(r##"%s"##, &%s); ' % (t, [ord(c) for c in t])

def deep_gram(rng, name):
    """what is known about a symbol comes from far away: chains of productions, down to the empty text or to a token"""
    T = rand_toks(rng, rng.randint(3, 6)); nt = len(T)
    m = rng.randint(3, 9)
    k = rng.random()
    leaf = [[]] if k < .5 else [[], [('t', 0)]] if k < .75 else [[('t', 0)]]
    rules = [[]]
    first = len(rules)
    for i in range(m):
        nxt = ('n', first + i + 1)
        r = [nxt] if rng.random() < .75 else [nxt, nxt] if leaf == [[]] and rng.random() < .3 else [nxt, ('t', 1)] if rng.random() < .4 else [('n', first + m), nxt]
        rules.append([r] + ([[('t', 2)]] if rng.random() < .15 else []))
    rules.append(leaf)
    head = ('n', first)
    for w in rng.sample([[('t', 1), head, ('t', 2)], [head, ('t', nt - 1)], [head, head, ('t', 1)], [('t', 2), head], [('t', nt - 1), head, head, ('n', first + rng.randrange(m)), ('t', 1)]], rng.randint(1, 3)):
        rules[0].append(w)
    if rng.random() < .3: rules[0].append([('t', 0), ('n', 0)])
    nn = len(rules)
    nts = rng.sample(NTN + ["Nt%d" % i for i in range(nn)], nn)
    k = rng.random()
    if k < .8: nts.sort(reverse=k < .25)
    P = [Prod(l, r, act=some_act(rng, r)) for l, alts in enumerate(rules) for r in alts]
    return Gram(name, T, nts, P)

def broad_gram(rng, name, err=True, prec=False):
    """many tokens acceptable at one place, and many places at which the text can be resumed"""
    lits = rng.sample([a + b for a in "kqxz" for b in ("", "a", "b", "f", "1", "_", "'", "!")] + ["+", "-", "*", "/", "<", ">", "=", "&", "|", "^", "%", "~", ".", ":"], rng.randint(14, 30))
    T = [Tok(n, l) for n, l in zip(rng.sample(NAMES + ["W%d" % i for i in range(40)], len(lits)), lits)]
    t = lambda i: ('t', i)
    k = rng.randint(9, len(T) - 2); sep, last = t(len(T) - 1), t(len(T) - 2)
    n = lambda i: ('n', i)
    P = []
    form = rng.randrange(4)
    if form == 0: P += [Prod(0, []), Prod(0, [n(0), n(1)])]
    elif form == 1: P += [Prod(0, [n(1)]), Prod(0, [n(0), sep, n(1)])]
    elif form == 2: P += [Prod(0, [n(1)]), Prod(0, [n(1), n(0)])]
    else: P += [Prod(0, [n(0), n(1), sep]), Prod(0, [])]
    arg = rng.choice([[last], [n(2)], [n(2), last], [last, n(2)]])
    how = rng.choice(["each", "some", "op"])
    for i in range(k):
        if how == "op": break
        P.append(Prod(1, [t(i)] + arg))
        if err and (how == "each" or rng.random() < .6): P.append(Prod(1, [t(i), 'e']))
    if how == "op":
        P.append(Prod(1, [n(2), last, n(2)]))
        if err: P += rng.sample([Prod(1, [n(2), last, 'e']), Prod(1, [n(2), 'e']), Prod(1, ['e'])], rng.randint(1, 2))
    ops = list(range(len(T) - 2)); rng.shuffle(ops)
    for i in ops[: rng.randint(9, len(ops))]: P.append(Prod(2, [t(i)]))
    if how != "op" and rng.random() < .3: P.append(Prod(2, []))
    heads = []
    for p in P:
        p.act = some_act(rng, p.r)
    P.sort(key=lambda p: p.l)
    return Gram(name, T, rng.sample(NTN, 3), P)

def wide_gram(rng, name, pred=False):
    """productions with ten symbols and more, so that attributes have numbers of two digits"""
    T = rand_toks(rng, rng.randint(3, 5))
    nt = len(T)
    P = [Prod(0, [('n', 1), ('n', 0)] if rng.random() < .5 else [('n', 1)], act=rng.choice(["act", "copy"]), cp=1), ]
    if len(P[0].r) == 2: P.append(Prod(0, [('n', 1)]))
    for k in range(rng.randint(1, 2)):
        r = [('t', k)] + [('t', rng.randrange(nt)) if rng.random() < .6 else ('n', 2) for _ in range(rng.randint(9, 13))]
        act = rng.choice(["act", "act", "copy", "see"])
        pk = None
        if pred: pk = rand_pred(rng, r, nt)
        P.append(Prod(1, r, None, pk, act, rng.randint(10, len(r))))
        if pk: P.append(Prod(1, list(r)))
    P.append(Prod(2, [('t', nt - 1)]))
    return Gram(name, T, rng.sample(NTN, 3), P)

def tall_gram(rng, name):
    """grammars of the size of a small programming language, put together from the usual shapes"""
    punct = ["(", ")", "[", "]", "{", "}", ",", ";", "=", ":", "->", ".", "?"]
    ops = ["+", "-", "*", "/", "%", "<", "<=", "==", "!=", "&&", "||", "^", "<<", "!", "~"]
    words = ["if", "then", "else", "do", "while", "let", "in", "fun", "return", "for", "to", "end", "begin", "case", "of", "not", "and", "or"]
    rng.shuffle(ops); rng.shuffle(words)
    T, P, N, lines = [], [], [], []
    def tok(l):
        for i, t in enumerate(T):
            if t.lit == l: return ('t', i)
        T.append(Tok("T%s%d" % (rng.choice("AQZ"), len(T)), l)); return ('t', len(T) - 1)
    def nt(n): N.append(n); return ('n', len(N) - 1)
    def add(l, *rs, **kw):
        for r in rs: P.append(Prod(l[1], list(r), act=some_act(rng, r), **kw))
    T.append(Tok("NUM", None, number(), ["1", "23", "007"])); num = ('t', 0)
    T.append(Tok("IDENT", None, rep(cls(["PZ"]), 1), ["P", "QR", "ZZ"])); ident = ('t', 1)
    prog, stmts, stmt, expr = nt("Program"), nt("Statements"), nt("Statement"), nt("Expression")
    add(prog, [stmts])
    add(stmts, [], [stmts, stmt]) if rng.random() < .5 else add(stmts, [stmt], [stmts, tok(";"), stmt])
    wd = iter(words)
    block = nt("Block"); add(block, [tok("{"), stmts, tok("}")])
    add(stmt, [block])
    for _ in range(rng.randint(2, 5)):
        k = rng.randrange(5)
        if k == 0: add(stmt, [tok(next(wd)), expr, block]);
        elif k == 1: add(stmt, [tok(next(wd)), expr, tok(next(wd)), expr, block])
        elif k == 2:
            o = nt("Opt%d" % len(N)); add(o, [], [tok(next(wd)), block]); add(stmt, [tok(next(wd)), expr, block, o])
        elif k == 3:
            o = nt("List%d" % len(N)); add(o, [ident], [o, tok(","), ident]); add(stmt, [tok(next(wd)), tok("("), o, tok(")"), block])
        else: add(stmt, [tok(next(wd)), ident, tok("="), expr, tok(":")])
    low = expr
    op = iter(ops)
    if rng.random() < .5:
        for k in range(rng.randint(2, 4)):        # layers
            hi = nt("Layer%d" % k)
            rs = [[low, tok(next(op)), hi] if rng.random() < .7 else [hi, tok(next(op)), low] for _ in range(1)]
            if rs[0][0] == low and rng.random() < .5: rs.append([low, tok(next(op)), hi])
            add(low, *rs); add(low, [hi]); low = hi
    else:
        for k in range(rng.randint(2, 4)):        # precedences
            ls = [tok(next(op)) for _ in range(rng.randint(1, 2))]
            lines.append(("L", ls))
            for x in ls: add(low, [low, x, low])
        u = tok(next(op)); lines.append(("L", [u])); add(low, [u, low])
    add(low, [num], [ident])
    add(low, [tok("("), expr, tok(")")])
    if rng.random() < .6:
        a = nt("Args"); add(a, [expr], [a, tok(","), expr]); add(low, [tok("["), a, tok("]")], [tok("["), tok("]")])
    if rng.random() < .4: add(stmts, [stmts, 'e'])
    P.sort(key=lambda p: p.l)
    return Gram(name, T, N, P, lines)

def many_gram(rng, name, kind=None):
    """more states, productions or tokens than fit in small numbers"""
    kind = kind or rng.choice(["states", "prods", "toks"])
    def words(n): return ["%s%d" % (rng.choice("kqz"), i) for i in range(n)]
    if kind == "states":
        lits = words(11)
        T = [Tok("M%d" % i, l) for i, l in enumerate(lits)]
        P = [Prod(0, []), Prod(0, [('n', 0), ('n', 1)])]
        for k in range(len(lits)): P.append(Prod(1, [('t', k)] + [('t', rng.randrange(11)) for _ in range(rng.randint(24, 28))]))
        return Gram(name, T, ["Start", "Line"], P)
    if kind == "prods":
        lits = words(17)
        T = [Tok("M%d" % i, l) for i, l in enumerate(lits)]
        P = [Prod(0, []), Prod(0, [('n', 0), ('n', 1)])] + [Prod(1, [('t', i), ('t', j)]) for i in range(17) for j in range(16)]
        return Gram(name, T, ["Start", "Pair"], P)
    lits = words(97)
    T = [Tok("M%d" % i, l) for i, l in enumerate(lits)]
    P = [Prod(0, []), Prod(0, [('n', 0), ('n', 1)])] + [Prod(1, [('t', i)]) for i in range(97)]
    return Gram(name, T, ["Start", "One"], P)
