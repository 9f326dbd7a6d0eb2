"""Documents in the specification language, sound and faulty, as sequences of declarations with the places of everything
in them: what SpecLang.tla reads, and the text the generators read."""
import os, random
from speclang import *

NAMES_T = ["A", "B", "Num", "PLUS", "X_1"]
NAMES_N = ["S", "Rule", "Opt", "x", "List_2", "A1", "zz"]
NAMES_G = ["Hi", "LO", "tag"]
LITS = ['"a"', '"b"', '"+"', '"->"', '"(a)"', '"a\\"b"', '"([0-9]+)"', '"\u00e9"', '"%%"', '"//"', '"/"']
REGS = ["(\\(a\\))", "([0-9]+)", "(a)", "([a-z]+)", "(b+)", "(.\\n)"]
BADREGS = ["([)", "(a(b)", "(\\p{Nope})", "(a{2,1})", "(*)"]
SKIPS = ["([ \\t\\r\\n]+)", "(//[^\\n\\r]*)", "([0-9]+)", "(a)"]

def unescape(l): return l[1:-1].replace('\\"', '"')

def across(src, lit):
    if not lit: return '"%s"' % src.replace('"', '\\"') if src not in BADREGS and "\n" not in src else None
    p = unescape(src)
    return p if p[:1] == "(" and p[-1:] == ")" and len(p) > 2 else None

class Doc:
    def __init__(self):
        self.ds, self.toks = [], []
        self.sect = 0
    def t(self, kind, text, mark=0): self.toks.append((kind, text, mark))
    def add(self, **d):
        self.ds.append(d); return len(self.ds)

def rand_doc(rng, lib, fault=.5, clash=False):
    """fault: how readily faults are made (0: none on purpose)"""
    D = Doc()
    wild = lambda p=1.0: rng.random() < fault * p
    # preamble and configuration
    if rng.random() < .5: D.t("RustCode", rng.choice(["%{ use x; %}", "%{%}", "%{ /* \"%% ( \n */ %}"]))
    conf = [("%attr", "Attr"), ("%target", "P")]
    if rng.random() < .3: conf.reverse()
    for k, v in conf: D.t(k, k); D.t("Ident", v)
    nums = rng.choice([[], [], ["%shift_reduce"], ["%reduce_reduce"], ["%shift_reduce", "%reduce_reduce"], ["%reduce_reduce", "%shift_reduce"]])
    for k in nums:
        D.t(k, k)
        big = wild(.4)
        v = rng.choice(["4294967296", "99999999999999999999", "18446744073709551616"]) if big else rng.choice(["0", "1", "007", "4294967295"])
        i = D.add(d="num", bad=big)
        D.t("NumberExpr", v, (i, "at"))
    D.t("%%", "%%")
    # tokens
    ntok = rng.randint(1, 5)
    used_n, used_p = [], []
    for k in range(ntok):
        free_n = [n for n in NAMES_T + ["T%d" % k] if n not in used_n]
        n = rng.choice(used_n) if used_n and wild(.35) else rng.choice(free_n)
        if clash and rng.random() < .3: n = rng.choice([x for x in ["aaTok%d" % k, "AAt%d" % k, "aa%d" % k, "aa", "AA", "aA%d" % k, "Aa", "a", "AAA"] if x not in used_n])
        same = used_p and wild(.35)
        r = rng.random()
        if wild(.12): src, lit, bad = '""', True, False
        elif wild(.15): src, lit, bad = rng.choice(BADREGS), False, True
        elif same and rng.random() < .6: src, lit, bad = rng.choice(used_p)
        elif same and any(across(s, l) for s, l, b in used_p):       # a literal that reads as a pattern does, or the other way round
            s, l = rng.choice([(s, l) for s, l, b in used_p if across(s, l)])
            src, lit, bad = across(s, l), not l, False
        else:
            for _ in range(40):
                lit, bad = rng.random() < .6, False
                src = rng.choice(LITS) if lit else rng.choice(REGS)
                p = unescape(src) if lit else src
                if all(p != (unescape(s) if l else s) for s, l, b in used_p): break
            else: lit, bad, src = True, False, '"t%d"' % k
        used_n.append(n); used_p.append((src, lit, bad))
        i = D.add(d="tok", n=n, s=src, p=unescape(src) if lit else src, lit=lit, bad=bad)
        D.t("%token", "%token"); D.t("Ident", n, (i, "at")); D.t("Literal" if lit else "RegEx", src, (i, "pat"))
    for k in range(rng.choice([0, 0, 1, 1, 2, 3])):
        for _ in range(40):
            src = rng.choice(SKIPS + (BADREGS if wild(.3) else []))
            if wild(.6) or all(src != (unescape(s) if l else s) for s, l, b in used_p): break
        else: break
        used_p.append((src, False, src in BADREGS))
        i = D.add(d="skip", p=src, bad=src in BADREGS)
        D.t("%skip", "%skip"); D.t("RegEx", src, (i, "pat"))
    # precedences
    lits = [s for s, l, b in used_p if l]
    tags, done = [], []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        xs = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            c = None
            if r < .35 and lits: c = (True, rng.choice(lits))
            elif r < .65: c = (False, rng.choice(used_n))
            elif r < .9: c = (False, rng.choice(NAMES_G + (["aaG", "aa", "AA", "Aa", "aaa"] if clash else [])))
            if wild(.15): c = (True, '"unk%d"' % rng.randint(0, 1))
            key = None if c is None else [n for n, (s, l, b) in zip(used_n, used_p) if s == c[1]][:1] or [c[1]] if c[0] else [c[1]]
            if c is None or (not wild(.5) and key[0] in done): continue
            if key[0] in [q for _, _, q in xs]: continue
            xs.append((c[0], c[1], key[0])); done.append(key[0])
            if not c[0] and c[1] not in used_n: tags.append(c[1])
        if not xs: continue
        k = rng.choice(["%left", "%right", "%nonassoc"])
        D.t(k, k)
        i = D.add(d="prec", xs=[])
        for m, (l, s, _) in enumerate(xs):
            D.ds[-1]["xs"].append({"lit": l, "s": s})
            D.t("Literal" if l else "Ident", s, (i, "x", m))
    D.t("%%", "%%")
    # rules
    nts = rng.sample(NAMES_N, rng.randint(1, 4))
    heads = [n for n in nts if not wild(.15)] or nts[:1]
    heads += [rng.choice(heads) for _ in range(rng.choice([0, 0, 1]))]
    if rng.random() < .2: rng.shuffle(heads)
    if wild(.25): heads.insert(rng.randrange(len(heads) + 1), rng.choice(used_n))
    for h in heads:
        i = D.add(d="head", n=h)
        D.t("Ident", h, (i, "at")); D.t(":", ":")
        for a in range(rng.randint(1, 3)):
            if a: D.t("|", "|")
            m = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .98 else rng.randint(10, 14)
            for _ in range(m):
                r = rng.random()
                if wild(.08): lit, s = True, '"unk%d"' % rng.randint(0, 1)
                elif wild(.05) or (m > 9 and fault and rng.random() < .7): lit, s = False, rng.choice(["Undef", "missing"])
                elif r < .35 and lits: lit, s = True, rng.choice(lits)
                elif r < .6: lit, s = False, rng.choice(used_n)
                elif r < .9: lit, s = False, rng.choice(nts if wild(.5) else heads)
                else: lit, s = None, "%error"
                if s == '""': continue
                i = D.add(d="sym", lit=lit is True, err=lit is None, s=s)
                D.t("%error" if lit is None else "Literal" if lit else "Ident", s, (i, "at"))
            if m and D.toks[-1][0] in (":", "|"): m = 0
            if lib == "a" and rng.random() < .15: D.t("PredicateExpr", rng.choice(["?( true ?)", "?( /* \" ) */ $? ?)", "?(a\n?)"]))
            if m and rng.random() < .2:
                r = rng.random()
                if wild(.3): lit, s = rng.choice([(True, '"unk9"'), (False, "NoTag"), (False, heads[0])])
                elif r < .4 and tags: lit, s = False, rng.choice(tags)
                elif r < .7 or not lits: lit, s = False, rng.choice(used_n)
                else: lit, s = True, rng.choice(lits)
                if s != '""':
                    i = D.add(d="use", lit=lit, s=s)
                    D.t("%prec", "%prec"); D.t("Literal" if lit else "Ident", s, (i, "at"))
            if rng.random() < .4: D.t("ActionCode", rng.choice(["!{ !}", "!{ $$ = $1; !}", "!{ /* } \n*/ !}", "!{// x\n!}"]))
        D.t(".", ".")
    return D

def with_bad_injections(rng, D, dir_, stem):
    """some %inject statements of files that are missing, empty or not text"""
    made = []
    for _ in range(rng.choice([1, 1, 2])):
        g = [k for k in gaps(D.toks)]
        # where one already stands no other may
        g = [k for k in g if not (k >= 1 and D.toks[k - 1][0] == "." and D.toks[k - 2][1].startswith('"' + dir_)) and
             not (k < len(D.toks) and D.toks[k][0] == "%inject")]
        if not g: break
        k = rng.choice(g)
        kind = rng.choice(["missing", "empty", "bytes", "dir"])
        p = os.path.join(dir_, "%s_%s%d.bad" % (stem, kind, len(made)))
        if kind == "empty": open(p, "w").close()
        elif kind == "bytes": open(p, "wb").write(b"%token X \xff\xfe\n")
        elif kind == "dir": p = dir_
        # the declaration takes its turn where it stands
        before = [m[0] for _, _, m in D.toks[:k] if not isinstance(m, int)]
        at = max(before) if before else 0
        D.ds.insert(at, {"d": "inj"})
        D.toks = [(a, b, m if isinstance(m, int) or m[0] <= at else (m[0] + 1,) + m[1:]) for a, b, m in D.toks]
        D.toks[k:k] = [("%inject", "%inject", 0), ("Literal", '"%s"' % p, (at + 1, "at")), (".", ".", 0)]
        made.append(p)
    return made

def located(D, rec):
    """the declarations with the places filled in"""
    out = []
    for i, d in enumerate(D.ds):
        e = dict(d)
        loc = lambda m: dict(zip("flo", rec[m]))
        for f in ("at", "pat"):
            if (i + 1, f) in rec: e[f] = loc((i + 1, f))
        if d["d"] == "prec": e["xs"] = [dict(x, at=loc((i + 1, "x", m))) for m, x in enumerate(d["xs"])]
        out.append(e)
    return out
