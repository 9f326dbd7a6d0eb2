"""Checks about grammars, tables, generated parsers and the generators (C01-C09, C17-C23)."""
import hashlib, os, random, re, subprocess
from core import *
from gram import *
from pipe import *
from study import *
from speclang import *
from specfile import repo_grams
from concurrent.futures import ThreadPoolExecutor

def uniq(gs):
    seen, out = set(), []
    for g in gs:
        k = g.show() + "|".join("%s%s" % (t.lit, bool(t.re)) for t in g.toks)
        if k in seen: continue
        seen.add(k); out.append(g)
    return out

def kind_tally(chk, gs):
    t = {"grammars": len(gs), "with_%error": sum(g.uses_err() for g in gs), "with_predicates": sum(g.has_pred() for g in gs),
         "with_precedences": sum(bool(g.lines) for g in gs), "with_empty_productions": sum(any(not p.r for p in g.prods) for g in gs),
         "largest_productions": max([len(g.prods) for g in gs] or [0])}
    chk.cov.setdefault("grammars", {}).update(t)

def bigger(rng, name, **kw):
    for _ in range(20):
        g = any_size(rng, name, **kw)
        if rng.random() < .2 or max(min_heights(g)) < 10 ** 6: return g
    return g
def any_size(rng, name, **kw):
    k = rng.random()
    if k < .2: return shape_gram(rng, name, **kw)
    if k < .25 and not kw.get("err") and not kw.get("pred"): return deep_gram(rng, name)
    k = rng.random()
    if k < .25: return rand_gram(rng, name, 3, 3, 2, 2, **kw)
    if k < .7: return rand_gram(rng, name, **kw)
    return rand_gram(rng, name, rng.randint(4, 8), rng.randint(3, 9), rng.randint(2, 4), rng.randint(2, 5), **kw)

def conflict_free(st, rng, want, tries, mk, dialects="la"):
    """grammars the code accepts with no conflicts at all"""
    cand = uniq([mk(rng, "r%d" % i) for i in range(tries)])
    its = [(g, rng.choice(dialects), {}) for g in cand]
    res, _ = st.outcomes(its)
    ok = [g for (g, l, o), r in zip(its, res) if r["r"] == "ok"]
    st.chk.count("candidate_grammars", len(cand)); st.chk.count("accepted_as_conflict_free", len(ok))
    ok.sort(key=lambda g: -interest(g))
    a = ok[: want * 2 // 3]
    rest = ok[want * 2 // 3:]
    rng.shuffle(rest)
    return a + rest[: want - len(a)]

def interest(g):
    h = min_heights(g)
    reach = {g.prods[0].l}
    ch = True
    while ch:
        ch = False
        for p in g.prods:
            if p.l in reach:
                for x in p.r:
                    if x != 'e' and x[0] == 'n' and x[1] not in reach: reach.add(x[1]); ch = True
    s = 0
    for p in g.prods:
        if p.l in reach and all(x == 'e' or x[0] == 't' or h[x[1]] < 10 ** 6 for x in p.r):
            s += 1 + 0.5 * sum(1 for x in p.r if x != 'e' and x[0] == 'n') + (1 if not p.r else 0)
    return s if h[g.prods[0].l] < 10 ** 6 else 0.5

def both(gs, rng=None, p=1.0):
    return [(g, l) for g in gs for l in "la" if not (l == "l" and g.has_pred()) and (rng is None or rng.random() < p)]

def runs_of(rng, n, err=0.3, mut=0.7, labels=("", "x", "a b"), seps=(" ", " ", "\n", "  ", "\r\n"), raw=0.0, inj=3):
    def f(g):
        h = min_heights(g)
        out = []
        for _ in range(n):
            s = rand_sentence(rng, g, h=h) or []
            if rng.random() < mut: s = mutate(rng, g, s, err)
            if raw and rng.random() < raw: s = [rng.randrange(-1, len(g.toks)) for _ in range(rng.randint(0, 12))]
            t = g.render_tokens(rng, s, seps)
            if rng.random() < .3: t = rng.choice(["", " ", "\n"]) + t.rstrip()
            ij = []
            if g.has_inj():
                for k in range(rng.randint(0, inj)):
                    w = rand_sentence(rng, g, 5, h) or []
                    ij.append((g.render_tokens(rng, mutate(rng, g, w, err), seps) if rng.random() < .85 else rng.choice(["", " ", "\n "]),
                               rng.choice(["inj%d" % k, "i j", ""])))
            out.append((t, rng.choice(labels), ij))
        return out
    return f

def need(st, live):
    if not live: raise ToolError("no parser could be generated and compiled")
    return live

# --------------------------------------------------------------------------------------------------
def c01(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    gs = conflict_free(st, rng, 90 if q else 420, 1500 if q else 9000,
                       lambda r, n: bigger(r, n, eps=r.choice([.05, .15, .3])))
    gs = [g for g in classic(rng) if not g.lines and not g.uses_err() and not g.has_pred()] + gs
    gs += uniq([deep_gram(rng, "d%d" % i) for i in range(14 if q else 80)])
    its = both(gs)
    res, _ = st.outcomes([(g, l, {}) for g, l in its])
    free = {}
    for (g, l), r in zip(its, res): free[(id(g), l)] = r["r"] == "ok"
    live = need(st, st.parsers([x for x in its if free[(id(x[0]), x[1])]]))
    kind_tally(chk, [g for g, l, n in live])
    def lang(g):
        nt = max(1, len(g.toks))
        cap = 1500 if q else 9000
        k = 2
        tot = 1 + nt + nt * nt
        while k < 9 and tot + nt ** (k + 1) <= cap: k += 1; tot += nt ** k
        h = min_heights(g)
        extra = []
        for _ in range(10 if q else 30):
            s = rand_sentence(rng, g, 18, h)
            if s is None: s = [rng.randrange(nt) for _ in range(rng.randint(0, 10))]
            if rng.random() < .6: s = mutate(rng, g, s)
            extra.append(s)
        return (k, extra)
    st.observe(live, False, None, lang)
    st.validate()

def c02(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 100 if q else 420
    gs = conflict_free(st, rng, n * 2 // 3, 900 if q else 5000, lambda r, n: bigger(r, n, eps=.12, inj=.05))
    gs += uniq([rand_gram(rng, "m%d" % i, prec=.8, pred=.15, inj=.1, err=.05) for i in range(n // 3)])
    gs += [wide_gram(rng, "w%d" % i) for i in range(6 if q else 20)] + [tall_gram(rng, "t%d" % i) for i in range(4 if q else 30)]
    gs += [many_gram(rng, "M" + k, k) for k in ("states", "prods")]
    gs += classic(rng) + repo_grams(rng)
    for g in gs: g.code = [odd_code(rng) for _ in range(4)] if rng.random() < .5 else None
    deep = deep_grams(rng, [2])
    live = need(st, st.parsers(both(gs + [g for g, _ in deep])))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, False, with_deep(deep, runs_of(rng, 8 if q else 24, mut=.15, err=0.05)), None)
    st.validate()

def c10_parsers(chk):
    """texts injected by semantic actions"""
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 40 if q else 200
    gs = conflict_free(st, rng, n, 400 if q else 2500, lambda r, n: bigger(r, n, eps=r.choice([.1, .3]), inj=r.choice([.3, .8]), err=r.choice([0, 0, .15])))
    gs += uniq([rand_gram(rng, "j%d" % i, eps=.25, pred=.1, inj=.7, err=rng.choice([0, .1])) for i in range(n // 2)])
    gs = [g for g in gs if g.has_inj()]
    live = need(st, st.parsers(both(gs)))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, False, runs_of(rng, 10 if q else 30, mut=.3, err=.15, inj=5), None)
    st.validate()

def declared_counts(st, gs, rng, opts):
    its = [(g, l, opts(rng)) for g, l in both(gs)]
    res, _ = st.outcomes(its)
    for (g, l, o), r in zip(its, res): st.count_case(g, l, o, r)
    st.chk.count("generator_outcomes_checked", len(its))

def c03(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    bg = Background(chk, "LalrTheory", "LalrTheory.cfg" if q else "LalrTheory_thorough.cfg", workers=2 if q else 4) if theory() else None
    n = 70 if q else 400
    gs = conflict_free(st, rng, n, 900 if q else 6000, lambda r, n: bigger(r, n, eps=r.choice([.05, .2, .35])))
    gs += uniq([bigger(rng, "m%d" % i, err=rng.choice([0, 0, .1])) for i in range(n // 2)])
    gs = [g for g in classic(rng) if not g.lines] + gs + [tall_gram(rng, "t%d" % i) for i in range(3 if q else 25)]
    gs += uniq([deep_gram(rng, "d%d" % i) for i in range(14 if q else 80)])
    gs += [many_gram(rng, "M" + k, k) for k in ("states", "prods", "toks")] + repo_grams(rng)
    live = need(st, st.parsers(both(gs)))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, True)
    more = uniq([bigger(rng, "z%d" % i, eps=rng.choice([.05, .2, .35])) for i in range(500 if q else 5000)])
    declared_counts(st, gs + more, rng, lambda r: {})
    st.validate()
    if bg: bg.join()

def theory(): return os.path.exists(os.path.join(SPEC, "LalrTheory.cfg"))

def ops_gram(rng, name):
    """expression-like grammars with several precedence levels"""
    k = rng.randint(2, 5)
    T = rand_toks(rng, k + 1)
    for t in T[1:]:
        if t.lit is None: t.lit, t.re, t.lexemes = "o" + t.name.lower(), None, ["o" + t.name.lower()]
    tags = ["UM", "LOW"][:rng.randint(0, 2)]
    P = [Prod(0, [('t', 0)])]
    syms = [('t', i) for i in range(1, k + 1)] + [('g', i) for i in range(len(tags))]
    rng.shuffle(syms)
    used = syms[:rng.randint(1, len(syms))]
    for i in range(len(tags)):
        if ('g', i) not in used: used.append(('g', i))
    lines = []
    u = list(used)
    while u:
        m = rng.randint(1, 3); lines.append((rng.choice("LLRN"), u[:m])); u = u[m:]
    for i in range(1, k + 1):
        f = rng.random()
        r = [('n', 0), ('t', i), ('n', 0)] if f < .6 else [('t', i), ('n', 0)] if f < .75 else [('n', 0), ('t', i)] if f < .85 \
            else [('t', i), ('n', 0), ('t', rng.randint(1, k)), ('n', 0)]
        P.append(Prod(0, r, rng.choice(used) if rng.random() < .3 else None))
        if rng.random() < .25: P.append(Prod(0, [('t', i), ('n', 0)], rng.choice(used) if rng.random() < .7 else None))
    if rng.random() < .2: P.append(Prod(0, [('n', 0), ('n', 0)], rng.choice(used)))
    if rng.random() < .15: P.append(Prod(0, ['e'] if rng.random() < .5 else [('t', 1), 'e']))
    return Gram(name, T, [rng.choice(NTN)], P, lines, tags)

def dense_grams(rng):
    """more conflicts, and more of them in a state, than fit a byte"""
    n = rng.randint(17, 18)
    sr = compact("DS", "E: " + " | ".join(["E o%dx E" % i for i in range(n)] + ["v"]), "", rng)
    k, m = rng.choice([(9, 33), (5, 66)])
    rr = compact("DR", "S: " + " | ".join("B%d u%s" % (i, rng.choice(["", "", " w"])) for i in range(k)) + "".join(
        " ;; B%d: " % i + " | ".join("x%dy" % j for j in range(m)) for i in range(k)), "", rng)
    one = compact("DO", "S: " + " | ".join("B%d %s" % (i, "u" if i < 24 else "w") for i in range(26)) + "".join(" ;; B%d: x" % i for i in range(26)), "", rng)
    return [sr, rr, one]

def levels_gram(rng, name):
    """more levels of precedence than fit a byte, few of them of tokens"""
    ops = ["+", "*", "^", "=", "-"][:rng.randint(3, 5)]
    n = rng.randint(258, 300)
    at = rng.sample(range(n), len(ops))
    i, j = rng.sample(range(len(ops)), 2)
    at[i] = rng.randint(0, n - 258); at[j] = at[i] + rng.choice([255, 256, 257])
    lines = ["%s %s" % (rng.choice("LRN"), " ".join([o for o, k in zip(ops, at) if k == r] or ["Lev%d" % r])) for r in range(n)]
    used = ["Lev%d" % r for r in rng.sample([r for r in range(n) if r not in at], 2)]
    rules = "E: " + " | ".join(["E %s E" % o for o in ops] + ["! E %%prec %s" % used[0], "E & E %%prec %s" % used[1], "v"])
    return compact(name, rules, ";".join(lines), rng, acts=lambda g, r: some_act(g, r))

def c04(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    bg = Background(chk, "PrecTheory", "PrecTheory.cfg" if q else "PrecTheory_thorough.cfg", workers=2 if q else 4)
    n = 60 if q else 330
    gs = uniq([ops_gram(rng, "o%d" % i) for i in range(n)] + [bigger(rng, "p%d" % i, prec=1, err=rng.choice([0, 0, .08])) for i in range(n)])
    gs = [g for g in classic(rng) + repo_grams(rng) if g.lines] + gs + [levels_gram(rng, "V%d" % i) for i in range(2 if q else 8)]
    live = need(st, st.parsers(both(gs)))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, True, runs_of(rng, 3 if q else 8, mut=.3, err=.05))
    more = uniq([clash_gram(rng, "c%d" % i, prec=1) for i in range(60 if q else 600)] + [ops_gram(rng, "y%d" % i) for i in range(150 if q else 1500)] + [bigger(rng, "z%d" % i, prec=1) for i in range(250 if q else 2500)])
    declared_counts(st, more, rng, lambda r: {"irr": r.random() < .5})
    st.validate()
    bg.join()

def c05(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    gs = classic(rng) + uniq([bigger(rng, "p%d" % i, prec=rng.choice([0, .5]), err=rng.choice([0, .1]), pred=rng.choice([0, 0, .15]))
                              for i in range(350 if q else 3000)] + [ops_gram(rng, "o%d" % i) for i in range(80 if q else 600)] +
                             [clash_gram(rng, "c%d" % i, rng.choice([0, .3])) for i in range(90 if q else 800)]) + dense_grams(rng)
    kind_tally(chk, gs)
    def opt(r):
        return {"sr": r.choice([None, None, 0, 1, 2, 3]), "rr": r.choice([None, None, 0, 1, 2]), "isr": r.random() < .25, "irr": r.random() < .25}
    # first what the code itself counts, then declarations around those numbers
    its = [(g, l, opt(rng)) for g, l in both(gs)]
    res, _ = st.outcomes(its)
    near = []
    for (g, l, o), r in zip(its, res):
        st.count_case(g, l, o, r)
        o2 = dict(o)
        if r["r"] == "sr": o2["sr"] = r["n"]; near.append((g, l, o2))
        if r["r"] == "rr": o2["rr"] = r["n"]; near.append((g, l, o2))
        if r["r"] in ("sr", "rr"):
            o3 = dict(o2); o3[r["r"]] = max(0, r["n"] + rng.choice([-1, 1, 2])); near.append((g, l, o3))
            o4 = dict(o); o4["i" + r["r"]] = True; near.append((g, l, o4))
    res2, _ = st.outcomes(near)
    last = []
    for (g, l, o), r in zip(near, res2):
        st.count_case(g, l, o, r)
        if r["r"] == "rr": o2 = dict(o); o2["rr"] = r["n"]; last.append((g, l, o2))
    res3, _ = st.outcomes(last)
    for (g, l, o), r in zip(last, res3): st.count_case(g, l, o, r)
    st.chk.count("generator_outcomes_checked", len(its) + len(near) + len(last))
    # nothing is written when refused; the ignore options do not change what is written
    jobs, grp = [], []
    ok = [(g, l, o) for (g, l, o), r in list(zip(its, res)) + list(zip(near, res2)) + list(zip(last, res3)) if r["r"] == "ok"]
    rng.shuffle(ok)
    for k, (g, l, o) in enumerate(ok[:150 if q else 1200]):
        t = g.text(l, random.Random(k), sr=o.get("sr"), rr=o.get("rr"))
        for f in range(4):
            jobs.append({"lib": l, "text": t, "label": "spec", "sr": bool(f & 1), "rr": bool(f & 2),
                         "out": os.path.join(st.p.dir, "w%d_%d.rs" % (k, f)), "report": None})
            grp.append((k, f, o, g))
    res = st.p.gen(jobs)
    outs = []
    for (k, f, o, g), j, r in zip(grp, jobs, res):
        x = {"text": k + 1, "ok": r["r"] == "ok", "out": filehash(j["out"]), "flags": f}
        outs.append(x)
    outputs_case(st, outs, "C05", "ignore options change the parser")
    st.validate()

def filehash(p):
    if not os.path.exists(p): return ""
    with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()[:20]

def outputs_case(st, outs, prop, what):
    """outs: [{text, ok, out}]: wherever generation succeeded the output is a function of the text"""
    per = {}
    for x in outs: per.setdefault(x["text"], []).append(x)
    for k, xs in per.items():
        st.add_case({"k": "out", "g": 1, "prop": prop, "xs": [{"ok": x["ok"], "out": x["out"]} for x in xs]}, what)
    st.chk.count("outputs_compared", len(outs))

def rr_gram(rng, name, pred):
    """several non-terminals with overlapping right-hand sides"""
    nt = rng.randint(2, 4)
    T = rand_toks(rng, nt)
    nn = rng.randint(2, 4)
    P = []
    body = [[('t', rng.randrange(nt)) for _ in range(rng.randint(1, 2))] for _ in range(2)]
    for l in range(1, nn + 1):
        for b in body:
            if rng.random() < .75:
                r = list(b)
                if rng.random() < .15: r = r + ['e']
                if rng.random() < .1: r = ['e']
                P.append(Prod(l, r, None, rand_pred(rng, r, nt) if rng.random() < pred else None, some_act(rng, r) or "act"))
        if rng.random() < .15: P.append(Prod(l, [], None, rand_pred(rng, [], nt) if rng.random() < pred else None))
        if not any(p.l == l for p in P): P.append(Prod(l, list(body[0]), None, rand_pred(rng, body[0], nt) if rng.random() < pred else None))
    S = []
    for l in range(1, nn + 1):
        for _ in range(rng.randint(1, 2)):
            r = [('n', l)]
            for _ in range(rng.randint(0, 2)): r.append(('t', rng.randrange(nt)) if rng.random() < .7 else ('n', rng.randint(1, nn)))
            S.append(Prod(0, r))
    if rng.random() < .3: S.append(Prod(0, [('n', 0), ('n', rng.randint(1, nn))]))
    rng.shuffle(P)
    P.sort(key=lambda p: 0 if rng.random() < .5 else p.l)   # declaration order of heads varies
    heads = []
    Q = []
    for p in P:
        if p.l not in heads: heads.append(p.l)
    for h in heads: Q += [p for p in P if p.l == h]
    lines = []
    if rng.random() < .25: lines = [(rng.choice("LRN"), [('t', rng.randrange(nt))])]
    return Gram(name, T, rng.sample(NTN, nn + 1), S + Q, lines)

def clash_gram(rng, name, pred=0.0, prec=.3):
    """many productions that can be reduced in the same state, before the same tokens and some that could be shifted"""
    nt = rng.randint(3, 6)
    T = rand_toks(rng, nt)
    nn = rng.randint(3, 8)
    body = [('t', rng.randrange(nt)) for _ in range(rng.randint(1, 2))] if rng.random() < .8 else []
    S, P = [], []
    tags = ["TAGa"]
    used = False
    for l in range(1, nn + 1):
        r = list(body)
        if rng.random() < .1: r = r + ['e']
        pt = None
        if prec and r and rng.random() < .25: pt = ('g', 0); used = True
        P.append(Prod(l, r, pt, rand_pred(rng, r, nt) if rng.random() < pred else None, some_act(rng, r) or "act"))
        if rng.random() < .15: P.append(Prod(l, [('t', rng.randrange(nt)), ('n', rng.randint(1, nn))]))
        for t in rng.sample(range(nt), rng.randint(1, min(3, nt))): S.append(Prod(0, [('n', l), ('t', t)]))
    for t in rng.sample(range(nt), rng.randint(0, 3)): S.append(Prod(0, body + [('t', t), ('t', t)]))
    rng.shuffle(S)
    lines = []
    if used or rng.random() < prec:
        c = [('t', i) for i in range(nt)]; rng.shuffle(c)
        c = c[:rng.randint(0, 3)] + ([('g', 0)] if used else [])
        rng.shuffle(c)
        lines = [(rng.choice("LRN"), [x]) for x in c]
    return Gram(name, T, rng.sample(NTN, nn + 1), S + P, lines, tags if used else [])

def c06(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 90 if q else 420
    gs = uniq([rr_gram(rng, "q%d" % i, rng.choice([0, .4, .8])) for i in range(n)] +
              [bigger(rng, "p%d" % i, pred=.4, err=rng.choice([0, .12]), prec=rng.choice([0, .3])) for i in range(n // 2)])
    gs += uniq([clash_gram(rng, "c%d" % i, rng.choice([0, .4, .8])) for i in range(n // 4)])
    gs = classic(rng) + repo_grams(rng) + gs + [wide_gram(rng, "w%d" % i, True) for i in range(4 if q else 20)]
    for g in gs: g.code = [odd_code(rng) for _ in range(4)] if rng.random() < .3 else None
    live = need(st, st.parsers(both(gs)))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, True, runs_of(rng, 4 if q else 12, mut=.4, err=.05))
    more = uniq([rr_gram(rng, "y%d" % i, rng.choice([0, .4, .8])) for i in range(300 if q else 2500)] + [clash_gram(rng, "x%d" % i, rng.choice([0, .3])) for i in range(100 if q else 1000)])
    declared_counts(st, more, rng, lambda r: {"isr": r.random() < .7, "rr": r.choice([None, None, 1, 2])})
    st.validate()

def err_grams(rng, n, conflict=True):
    gs = []
    for i in range(n):
        k = rng.random()
        if k < .35: gs.append(list_gram(rng, "l%d" % i))
        elif k < .43: gs.append(broad_gram(rng, "b%d" % i))
        else: gs.append(bigger(rng, "e%d" % i, err=rng.choice([.15, .3]), prec=rng.choice([0, .3]), pred=rng.choice([0, 0, .1]), inj=rng.choice([0, .05])))
    return uniq(gs)

def list_gram(rng, name):
    """the shapes people recover in: lists, blocks and brackets, at several depths"""
    lits = rng.sample([";", ",", "{", "}", "(", ")", "[", "]", "a", "b", "if", "=", "x"], 7)
    ns = rng.sample(NAMES, 7)
    T = [Tok(n, l) for n, l in zip(ns, lits)]
    if rng.random() < .5: T[0] = Tok("NUM", None, number(), ["1", "23", "007"])
    t = lambda i: ('t', i)
    n = lambda i: ('n', i)
    P = []
    # 0 list, 1 item, 2 block, 3 expression
    sep = rng.choice([[], [t(1)]])
    if rng.random() < .5: P += [Prod(0, []), Prod(0, [n(0), n(1)] + sep)]
    else: P += [Prod(0, [n(1)]), Prod(0, [n(0)] + ([t(1)]) + [n(1)])]
    P += [Prod(1, [n(3)] + rng.choice([[], [t(4)]])), Prod(1, [n(2)])]
    P += [Prod(2, [t(2), n(0), t(3)])]
    P += [Prod(3, [t(0)]), Prod(3, [n(3), t(5), t(0)]), Prod(3, [t(6), n(3), t(6)])]
    places = [Prod(1, ['e']), Prod(1, ['e', t(1)]), Prod(2, [t(2), 'e']), Prod(2, [t(2), n(0), 'e']), Prod(3, [t(6), 'e']),
              Prod(3, [n(3), t(5), 'e']), Prod(0, [n(0), 'e']), Prod(2, [t(2), 'e', t(3)]), Prod(3, ['e'])]
    P += rng.sample(places, rng.randint(1, 3))
    heads = []
    for p in P:
        if p.l not in heads: heads.append(p.l)
    P = [p for h in heads for p in P if p.l == h]
    for p in P: p.act = some_act(rng, p.r)
    g = Gram(name, T, rng.sample(NTN, 4), P)
    return g

def long_runs(rng, k, n, err=.15):
    def f(g):
        out = []
        for _ in range(k):
            w = []
            h = min_heights(g)
            for _ in range(n):
                s = rand_sentence(rng, g, 12, h) or []
                w += mutate(rng, g, s, err)
            out.append((g.render_tokens(rng, w[:120], (" ", "\n")), "long", []))
        return out
    return f

DEEP = [  # (rules, precedence, the texts, of n tokens and more)
 ("S: ( S ) S | - | ( %error ) S", "", lambda n: ["(" * n + ")(]" * 2 + ")" * (n // 8)]),
 ("S: - | S K ;; K: a b ; | a b %error", "", lambda n: ["ab" + "b" * n + "a;ab"]),
 ("L: a L | a", "", lambda n: ["a" * n, "a" * n + "b"]),
 ("E: E + E | ( E ) | ( %error ) | x | E ^ E", "L +;R ^", lambda n: ["((x" + "x" * n + ")+x)^", "x" + "^x" * (n // 2)]),
]
def deep_grams(rng, which):
    """Grammars with texts of hundreds of tokens: stacks deeper and more tokens discarded than fit a byte. -> [(grammar, texts)]"""
    out = []
    for k in which:
        r, l, f = DEEP[k]
        g = compact("D%d" % k, r, l, rng, acts=lambda g, r: some_act(g, r))
        out.append((g, [(t, "deep", []) for t in f(rng.randint(258, 275))]))
    return out

def with_deep(deep, f):
    ts = {id(g): t for g, t in deep}
    return lambda g: ts[id(g)] if id(g) in ts else f(g)

def c07(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 120 if q else 400
    gs = classic(rng) + repo_grams(rng) + err_grams(rng, n) + uniq([broad_gram(rng, "w%d" % i, err=False) for i in range(6 if q else 40)]) + uniq([bigger(rng, "n%d" % i, prec=.3, inj=.1, pred=rng.choice([0, .3])) for i in range(n // 2)])
    fed = uniq([bigger(rng, "f%d" % i, err=.3, inj=.7) for i in range(n // 4)] + [bigger(rng, "fl%d" % i, err=.3, inj=.7, eps=.3) for i in range(n // 8)])
    fed = [g for g in fed if g.has_inj() and g.uses_err()]
    deep = deep_grams(rng, [0, 3])
    live = need(st, st.parsers(both(gs + fed + [g for g, _ in deep])))
    kind_tally(chk, [g for g, l, n in live])
    short, long_ = runs_of(rng, 8 if q else 22, mut=.9, err=.35, raw=.15), long_runs(rng, 1 if q else 3, 8, .4)
    texts_in = runs_of(rng, 12 if q else 40, mut=.9, err=.4, raw=.15, inj=6)
    ids = {id(g) for g in fed}
    st.observe(live, True, with_deep(deep, lambda g: texts_in(g) if id(g) in ids else short(g) + (long_(g) if g.uses_err() else [])))
    st.validate()

def c08(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    bg = Background(chk, "RecTheory", "RecTheory.cfg" if q else "RecTheory_thorough.cfg", workers=2 if q else 4)
    n = 110 if q else 450
    gs = [g for g in classic(rng) + repo_grams(rng) if g.uses_err()] + err_grams(rng, n)
    gs = [g for g in gs + [tall_gram(rng, "t%d" % i) for i in range(8 if q else 40)] if g.uses_err()]
    deep = deep_grams(rng, [0, 3])
    live = need(st, st.parsers(both(gs + [g for g, _ in deep])))
    kind_tally(chk, [g for g, l, n in live])
    short, long_ = runs_of(rng, 10 if q else 30, mut=.95, err=.25, raw=.25), long_runs(rng, 1 if q else 3, 8)
    st.observe(live, True, with_deep(deep, lambda g: short(g) + long_(g)))
    st.validate()
    bg.join()

def c09(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    bg = Background(chk, "RecTheory", "RecGuard.cfg" if q else "RecGuard_thorough.cfg", workers=2 if q else 4)
    n = 120 if q else 480
    gs = conflict_free(st, rng, n // 2, 1200 if q else 6000, lambda r, n: bigger(r, n, eps=.2, err=r.choice([.1, .25])))
    gs += conflict_free(st, rng, n // 4, 600 if q else 3000, lambda r, n: list_gram(r, "L" + n))
    gs += conflict_free(st, rng, n // 4, 500 if q else 3000, lambda r, n: bigger(r, "M" + n, eps=.3, prec=.3, pred=.2, inj=.1), "a")
    gs = uniq(gs + classic(rng) + repo_grams(rng))
    deep = deep_grams(rng, [0, 2])
    live = need(st, st.parsers(both(gs + [g for g, _ in deep])))
    kind_tally(chk, [g for g, l, n in live])
    short, long_ = runs_of(rng, 10 if q else 26, mut=.9, err=.4, raw=.5, labels=("", "t")), long_runs(rng, 1 if q else 3, 8)
    st.observe(live, False, with_deep(deep, lambda g: short(g) + long_(g)))
    st.validate()
    bg.join()

def c23(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 70 if q else 330
    gs = classic(rng) + uniq([bigger(rng, "n%d" % i, prec=.4, err=rng.choice([0, .15]), pred=rng.choice([0, 0, .3]), eps=rng.choice([.1, .3])) for i in range(n)] +
                             [ops_gram(rng, "o%d" % i) for i in range(n // 4)] + [rr_gram(rng, "q%d" % i, .5) for i in range(n // 3)])
    gs += [tall_gram(rng, "t%d" % i) for i in range(2 if q else 12)] + repo_grams(rng) + uniq([clash_gram(rng, "c%d" % i, rng.choice([0, .3])) for i in range(n // 4)])
    live = need(st, st.parsers(both(gs), report=True))
    kind_tally(chk, [g for g, l, n in live])
    st.observe(live, True, tables="rep")
    st.validate()

def c26(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    n = 90 if q else 500
    gs = classic(rng) + repo_grams(rng) + uniq(
        [bigger(rng, "p%d" % i, prec=rng.choice([0, .5]), err=rng.choice([0, .15]), pred=rng.choice([0, 0, .25]), eps=rng.choice([.1, .3])) for i in range(2 * n)] +
        [ops_gram(rng, "o%d" % i) for i in range(n // 2)] + [rr_gram(rng, "q%d" % i, .4) for i in range(n)] + [clash_gram(rng, "c%d" % i, rng.choice([0, .3])) for i in range(n)] + err_grams(rng, n // 3) +
        [tall_gram(rng, "t%d" % i) for i in range(3 if q else 20)] + dense_grams(rng))
    kind_tally(chk, gs)
    its = []
    for g, l in both(gs):
        its.append((g, l, {"sr": rng.choice([None, None, None, 1, 2])}))
        its.append((g, l, {"isr": True, "rr": rng.choice([None, None, None, 1])}))
    res, jobs = st.outcomes(its)
    refused = [(g, l, o, r, j) for (g, l, o), r, j in zip(its, res, jobs) if r["r"] in ("sr", "rr")]
    for g, l, o, r, j in refused: st.conflict_case(g, l, r["r"], r.get("d", ""), "refused with %d %s conflicts" % (r["n"], r["r"]))
    # and what the programs show
    bins = build_generators()
    d = os.path.join(chk.work, "shown")
    os.makedirs(d, exist_ok=True)
    some = rng.sample(refused, min(len(refused), 60 if q else 400))
    def shown(k):
        g, l, o, r, j = some[k]
        p = os.path.join(d, "s%d.%s" % (k, "laps" if l == "l" else "alaps"))
        with open(p, "w", encoding="utf-8") as f: f.write(j["text"])
        x = subprocess.run([os.path.join(bins, {"l": "lalr1_gen", "a": "alalr1_gen"}[l])] + (["--ignore-sr-conflicts"] if o.get("isr") else []) + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return x.stderr.decode("utf-8", "replace")
    with ThreadPoolExecutor(8) as ex:
        for (g, l, o, r, j), t in zip(some, ex.map(shown, range(len(some)))):
            a = re.search(r"^State<", t, re.M)
            b = re.search(r"^Unexpected ", t, re.M)
            t = t[a.start():b.start() if b else len(t)] if a else ""
            st.conflict_case(g, l, r["r"], t, "shown by the program when refused with %d %s conflicts" % (r["n"], r["r"]))
    chk.count("refusals_for_conflicts", len(refused)); chk.count("refusals_by_the_programs", len(some))
    st.validate()

# --------------------------------------------------------------------------------------------------
ODD_CHARS = ["\"", "\\", "{", "}", "#", "%", "$", "&", "'", "(", ")", "[", "]", "<", ">", "=", "|", "!", "?", ".", ":", "/", "*", ";",
             ",", "~", "^", "@", "`", "-", "+", "_", "a", "r", "b", "n", "0", " ", "\u00e9", "\u20ac", "\U0001F600", "\u00df", "{}", "\"#", "##", "%{",
             "%}", "!{", "?(", "//", "\"###", "\"####", "\"#####", "/*", "{0}", "{f}", "\\n", "\\\"", "r#\"", "\\u{41}", "%%", "$1", "$$", "\\x"]
ODD_NAMES = ["token", "state", "lhs", "set", "x", "f", "Ok", "Err", "Some", "None", "Vec", "String", "Action", "Parser", "Token", "Shift",
             "Reduce", "Accept", "End", "Error", "Error_", "Copy", "Clone", "Debug", "Ord", "Display", "Default", "attributes", "tag", "rhs", "inject",
             "production_id", "current_state", "new", "u32", "str", "std", "core", "lazy_static", "a", "Z9_", "fmt", "Result", "write", "panic", "P",
             "Attr", "Lexan", "Box", "bool", "AbAa", "Start", "i", "ordered_set", "FnMut"]
ODD_ACT = [("", ""), ("", "// done \n"), ("\n", "\n"), (" let _s = \"}{ } # \\\" \"; ", ""), (" /* { */ ", ""), ("", "if true { let _v = vec![1, 2]; } "),
           (" let _c = '{'; ", ""), (" let _r = r#\"x\"y\"#; ", "\n\n"), (" // {}\n", ""), (" let _t = \"\u00e9\u20ac %{ %% ?)\"; ", "")]

# what a preamble may hold besides what every one of ours does: %s stands for that
ODD_PREAMBLES = ["%%{%s%%}", "%%{%s mod aux { }%%}", "%%{\n%s\n%%}", "%%{// %%%% %%token \n%s%%}", "%%{ %s /* } */%%}", "%%{ /* %%{ */ %s const X: &str = \"!} %% }\";%%}",
                 "%%{%s #[allow(dead_code)] fn aux<T>(x: T) -> (T, bool) { { (x, true) }}%%}", "%%{\r\n%s\r\n\r\n%%}", "%%{ %s // {\n%%}",
                 "%%{ #![allow(unused)] %s%%}".replace("#![allow(unused)] ", ""), "%%{ %s use std::{fmt as aux_fmt, io as aux_io};%%}"]

def odd_lit(rng):
    while True:
        s = "".join(rng.choice(ODD_CHARS) for _ in range(rng.randint(1, 4)))
        if rng.random() < .3: s = "".join(chr(rng.randint(32, 126)) for _ in range(rng.randint(1, 5)))
        if s.strip() and not s.endswith("\\"): return s

def odd_gram(rng, name):
    alpha = rng.choice(["ab\"", "a{}", "a#\"", "ab ", "a\u00e9\"", "ab\\", "a\n\"", "%a{", "ab"])
    seen, toks = set(), []
    names = rng.sample(ODD_NAMES, 14)
    def fresh(s):
        if s in seen: return False
        seen.add(s); return True
    for _ in range(rng.randint(2, 6)):
        if rng.random() < .65:
            s = odd_lit(rng)
            if fresh(s): toks.append(Tok(names.pop(), s))
        else:
            r = rand_re(rng, alpha, rng.choice([1, 2, 3]))
            src = "(%s)" % render(r)
            if not uses_eot(r) and "\n" not in src and fresh(src) and fresh(render(r)): toks.append(Tok(names.pop(), None, r, [""]))
    if not toks: toks = [Tok(names.pop(), "\"")]
    if rng.random() < .3: toks[rng.randrange(len(toks))].name = "END_"
    skips = []
    for _ in range(rng.randint(0, 2)):
        r = rng.choice([blanks(), line_comment(), block_comment(), rand_re(rng, alpha, 2)])
        if not uses_eot(r) and fresh("(%s)" % render(r)) and fresh(render(r)): skips.append(r)
    nts = [names.pop(), names.pop(), names.pop()]
    P = [Prod(0, []), Prod(0, [('n', 0), ('n', 1)])]
    for i in range(len(toks)): P.append(Prod(1, [('t', i)]))
    if rng.random() < .4 and len(toks) > 1:
        P[-1] = Prod(1, [('n', 2)])
        P.append(Prod(2, [('t', len(toks) - 1)], None, rand_pred(rng, [('t', 0)], len(toks)) if rng.random() < .6 else None))
    if rng.random() < .3: P.append(Prod(1, ['e']))
    for p in P:
        p.odd = rng.choice(ODD_ACT) if rng.random() < .7 else (odd_code(rng), "")
        if rng.random() < .15: p.act = None
    return Gram(name, toks, nts, P, [(rng.choice("LRN"), [('t', rng.randrange(len(toks)))])] if rng.random() < .3 else [], skips=skips)

def odd_text(rng, g):
    lits = [t.lit for t in g.toks if t.lit]
    out = ""
    for _ in range(rng.randint(0, 9)):
        k = rng.random()
        if lits and k < .45: out += rng.choice(lits)
        elif lits and k < .55:
            l = rng.choice(lits); out += l[:rng.randint(0, len(l))]
        elif k < .8: out += rng.choice("ab\"{}#\\ \u00e9%")
        else: out += rng.choice([" ", "\n", "//x\n", "/*a*/", "\u00e9", "\\\"", "\"", "ab", "ba"])
    return out

def c22(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    gs = [odd_gram(rng, "x%d" % i) for i in range(130 if q else 560)]
    gs += uniq([bigger(rng, "n%d" % i, prec=.4, err=rng.choice([0, .15]), pred=rng.choice([0, .3]), inj=.1) for i in range(40 if q else 240)])
    for g in gs:
        if rng.random() < .5: g.pre = rng.choice(ODD_PREAMBLES)
    live = need(st, st.parsers([(g, l) for g in gs for l in "la"]))
    kind_tally(chk, [g for g, l, n in live])
    bad = 0
    for g, lib, r, text in st.refused:
        chk.violation("refused", {"grammar": g.show(), "lib": lib, "outcome": r, "specification": text}); bad += 1
    for n, msg in st.failed.items():
        chk.violation("does not compile", {"parser": n, "message": msg, "specification": st.text[n]})
    chk.count("generated_modules_compiled", len(live)); chk.count("generated_modules_not_compiling", len(st.failed))
    m = 8 if q else 22
    st.observe(live, False, None, None, show=lambda g: [odd_text(rng, g) if g.name[0] == "x" else g.render_tokens(rng, rand_sentence(rng, g) or [0])
                                                       for _ in range(m)])
    st.validate()

# --------------------------------------------------------------------------------------------------
def varied(rng, n, name, **kw):
    gs = []
    for i in range(n):
        k = rng.random()
        if k < .2: gs.append(ops_gram(rng, "%so%d" % (name, i)))
        elif k < .4: gs.append(rr_gram(rng, "%sq%d" % (name, i), rng.choice([0, .5])))
        elif k < .5: gs.append(list_gram(rng, "%sl%d" % (name, i)))
        elif k < .6: gs.append(odd_gram(rng, "%sx%d" % (name, i)))
        else: gs.append(bigger(rng, "%sn%d" % (name, i), prec=.4, err=rng.choice([0, .15]), pred=rng.choice([0, 0, .3]), inj=.1))
    return uniq(gs)

def spoil(rng, text):
    """some fault or other in a specification (for histories with failures)"""
    k = rng.random()
    if k < .3:
        i = rng.randrange(len(text)); return text[:i] + rng.choice(["%", " . ", "|", "@", "%%", ""]) + text[i + rng.randint(0, 3):]
    if k < .5: return text.replace("%%\n", "%token Dup \"dup\"\n%token Dup \"dup2\"\n", 1) if "%%\n" in text else text[:20]
    if k < .7: return text.rstrip().rstrip(".") + "| Undefined1 Undefined2 .\n"
    if k < .85: return text[:rng.randrange(len(text))]
    return text + "Xx: \"nolit\" | %prec Nono .\n"

def c17(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    p = st.p
    gs = classic(rng)[::2] + varied(rng, 60 if q else 300, "h")
    texts = []      # (lib, text, grammar or None)
    for g in gs:
        l = "a" if g.has_pred() or rng.random() < .5 else "l"
        t = g.text(l, random.Random(rng.random()), sr=rng.choice([None, None, 0, 1]))
        texts.append((l, t, g))
        if rng.random() < .3: texts.append((l, spoil(rng, t), None))
    for l, f in (("l", "lalr1_lib/src/parser.laps"), ("a", "alalr1_lib/src/parser.alaps")):
        texts.append((l, open(os.path.join(REPO, f)).read(), None))
    nproc = 14 if q else 60
    plans = []
    # every text once by itself at the beginning of a process
    for k in range(min(len(texts), 24 if q else 120)):
        plans.append([[(k, 3)]])
    for k in range(nproc):
        seq = []
        for _ in range(rng.randint(12, 40)):
            if rng.random() < .25:
                seq.append([(rng.randrange(len(texts)), 3 if rng.random() < .8 else rng.randrange(4)) for _ in range(rng.choice([2, 4, 8]))])
            else:
                seq.append([(rng.randrange(len(texts)), 3 if rng.random() < .8 else rng.randrange(4))])
            if rng.random() < .2: seq.append(list(seq[-1]))
        plans.append(seq)
    full = list(range(len(texts)))
    plans.append([[(k, 3)] for k in full])
    plans.append([[(k, 3)] for k in reversed(full)])
    rng.shuffle(full); plans.append([[(k, 3)] for k in full for _ in range(2)])
    p.exe = build_gendrv()
    def jobof(pk, n, k, o):
        l, t, _ = texts[k]
        base = os.path.join(p.dir, "h%d_%d" % (pk, n))
        return {"lib": l, "text": t, "label": rng.choice(["spec", "spec", "some dir/x.laps"]), "sr": bool(o & 1), "rr": bool(o & 2),
                "out": base + ".rs", "report": base + ".states"}
    ev = []
    late = {}
    prepared = []
    for pk, plan in enumerate(plans):
        jobs, n, flat = [], 0, []
        for grp in plan:
            js = []
            for k, o in grp:
                js.append(jobof(pk, n, k, o)); flat.append((k, o, js[-1], len(grp) > 1)); n += 1
            jobs.append(js[0] if len(js) == 1 else {"par": js})
        prepared.append((pk, jobs, flat))
    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(lambda x: p.gen_process(x[1]), prepared))
    for (pk, jobs, flat), res in zip(prepared, results):
        rs = []
        for j, r in zip(jobs, res): rs += r.get("par", [r] * len(j["par"])) if "par" in j else [r]
        for (k, o, j, c), r in zip(flat, rs):
            ev.append({"p": pk, "c": c, "t": k, "o": o, "r": outcome(r), "out": filehash(j["out"]), "rep": filehash(j["report"])})
            if r["r"] == "ok" and texts[k][2] is not None and pk >= len(plans) - 3: late[k] = j["out"]
    chk.count("processes", len(plans)); chk.count("generations", len(ev)); chk.count("specification_texts", len(texts))
    path = os.path.join(p.dir, "hist.json")
    write_json(path, [{"id": 1, "ev": ev}])
    t = tlc("ProcTrace", work=p.dir, extra_env={"CASES": path})
    if not any(y[0] == "CASES" and y[1] == 1 for y in t.tuples): raise ToolError("histories not carried through\n" + t.out[-2000:])
    chk.add(t, len(ev))
    for b in t.tuples:
        if b[0] == "BLAME": chk.violation(b[4], {"event": b[5], "text": texts[ev[b[3] - 1]["t"]][1], "history": [(e["t"], e["o"]) for e in ev if e["p"] == ev[b[3] - 1]["p"]][:40]})
    chk.sample("process %d: %s" % (ev[-1]["p"], [(e["t"], e["r"]) for e in ev[-12:]]))
    # what was generated last in a long-lived process works: it compiles, and nothing it does panics
    pick = sorted(late)[:70 if q else 300]
    mods = [("late%d" % k, late[k], texts[k][2].names()) for k in pick]
    failed = p.compile(mods)
    for n, m in failed.items(): chk.violation("late output does not compile", {"parser": n, "message": m})
    f = runs_of(rng, 3, mut=.4)
    tx = {"late%d" % k: f(texts[k][2]) for k in pick if texts[k][2].name[1] != "x"}
    obs = st.raw([(texts[k][2], "late%d" % k) for k in pick if "late%d" % k not in failed], tx)
    for k in pick:
        n = "late%d" % k
        if n in failed: continue
        g, lib = texts[k][2], texts[k][0]
        d = obs[n]
        gi = st.gid(g, lib, n)
        if "st" in (d["dump"] or {}): st.add_case({"k": "work", "g": gi, "dump": d["dump"], "runs": d["runs"]}, "late output")
    st.validate()

def outcome(r): return r["r"] + (":%s:%s" % (r.get("n"), r.get("e")) if r["r"] in ("sr", "rr") else "")

def c19(chk):
    st = Study(chk); rng = st.rng
    q = chk.quick
    p = st.p
    gs = [g for g in classic(rng) if not any(t.lit and '"' in t.lit for t in g.toks)][::1 if not q else 3]
    gs += varied(rng, 50 if q else 260, "v")
    nv = 9 if q else 16
    jobs, what = [], []
    for gk, g in enumerate(gs):
        sr, rr = rng.choice([None, 0, 1, 2]), rng.choice([None, 0, 1])
        for l in "la":
            if l == "l" and g.has_pred(): continue
            # the same specification in the two dialects and in several presentations: options that let it through, and not
            for v in range(nv):
                o = dict(order=rng.randrange(4), alias=rng.choice([0, .5, 1]), split=rng.random() < .5) if v else {}
                t = g.text(l, random.Random(rng.random()), sr=sr, rr=rr, **o)
                toks = tokenize(t)
                kind = "as is" if v == 0 else rng.choice(["layout", "inject", "inject+layout", "order/alias"])
                files = []
                if "inject" in kind:
                    toks, files = injected(rng, toks, p.dir, "i%d%s%d" % (gk, l, v))
                if "layout" in kind: t = relayout(rng, toks)
                elif "inject" in kind: t = relayout(rng, toks, "lines")
                for path, body in files:
                    with open(path, "w", encoding="utf-8", newline="") as f: f.write(body)
                for ign in (False, True):
                    out = os.path.join(p.dir, "v%d%s%d%d.rs" % (gk, l, v, ign))
                    jobs.append({"lib": l, "text": t, "label": "spec", "sr": ign, "rr": ign, "out": out if ign else None, "report": None})
                    what.append((gk, l, v, ign, kind, out, files))
    res = p.gen(jobs)
    groups = {}
    for w, j, r in zip(what, jobs, res):
        gk, l, v, ign, kind, out, files = w
        groups.setdefault((gk, ign), []).append((outcome(r) if r["r"] not in ("panic", "died", "hang") else r["r"], l, v, kind, out, j, r, files))
        chk.count("presentations", 1)
    mods, cls = [], {}
    for (gk, ign), xs in groups.items():
        g = gs[gk]
        gi = st.gid(g, xs[0][1], None)
        c = st.add_case({"k": "pres", "g": gi, "prop": "C19", "rs": [x[0] for x in xs]}, "presentations %s" % [(x[1], x[3], x[0]) for x in xs])
        if len({x[0] for x in xs}) > 1:
            base = xs[0][0]
            odd = next(x for x in xs if x[0] != base)
            st.meta[c["id"]] = "base %s, %s presentation in dialect %s gives %s\n%s\n%s\n%s" % (base, odd[3], odd[1], odd[0], odd[6]["diag"], odd[5]["text"], odd[7])
        if not ign: continue
        for r, l, v, kind, out, j, rr_, files in xs:
            if rr_["r"] != "ok": continue
            h = (gk, l, norm_hash(out))
            if h not in cls:
                cls[h] = "m%d%s%d" % (gk, l, v)
                mods.append((cls[h], out, g.names(), gk, l, j["text"], kind))
    chk.count("distinct_outputs", len(mods))
    first = {}
    keep = []
    for m in mods:
        n = sum(1 for x in keep if x[3] == m[3] and x[4] == m[4])
        if n < 3: keep.append(m)
    keep = keep[:400 if q else 1500]
    failed = p.compile([(m[0], m[1], m[2]) for m in keep])
    for m in keep:
        if m[0] in failed and not all(x[0] in failed for x in keep if x[3] == m[3]):
            chk.violation("one presentation compiles, another does not", {"text": m[5], "message": failed[m[0]]})
    f = runs_of(rng, 4, mut=.5)
    tx = {}
    per = {}
    for m in keep:
        if m[0] in failed: continue
        g = gs[m[3]]
        if m[3] not in per: per[m[3]] = (f(g) if g.name[:2] != "vx" else [(odd_text(rng, g), "", []) for _ in range(4)], [])
        per[m[3]][1].append(m)
        tx[m[0]] = per[m[3]][0]
    obs = st.raw([(gs[m[3]], m[0]) for m in keep if m[0] not in failed], tx)
    for gk, (_, ms) in per.items():
        for m in ms[1:]:
            st.pair("C19", st.gid(gs[gk], groups[(gk, True)][0][1]), obs[ms[0][0]], obs[m[0]], "%s (%s) and %s (%s)\n%s" % (
                ms[0][4], ms[0][6], m[4], m[6], m[5]))
    chk.count("parsers_compared", len(keep))
    st.validate()

def norm_hash(path):
    return filehash(path)
