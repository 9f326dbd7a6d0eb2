"""Checks C10-C16: lexical analysis."""
import json, os, random, itertools
from core import *
from lexgen import *

PROBE = ((987654321, 987654322), "\ue000\ue001", "\ue002lab\ue003")     # kinds, text and label found nowhere else

def frames(chk, d):
    """How items of each sort show their kinds, text and place, as read off items whose own are unmistakable (see LexTrace)"""
    k1, k2 = PROBE[0]
    L = {"lits": [], "regs": [dict(tag=k, re=c(ch), ok=True, src=cps(pat)) for k, ch, pat in
                              ((k1, "\ue000", PROBE[1]), (k2, "\ue000", "\ue000[\ue001]"), (k1 + 5, "\ue004", "\ue004"))], "skips": [], "end": 3}
    sep = None; out = []
    for kind, t, tx in (("amb", PROBE[1], PROBE[1]), ("tok", "\ue004", "\ue004"), ("unx", "\ue005", "\ue005"), ("awe", "", "")):
        ops = [{"o": "new", "s": 1, "t": cps(t), "l": PROBE[2]}, {"o": "front", "s": 1}]
        inp = os.path.join(chk.work, "probe_in.json"); o = os.path.join(chk.work, "probe_out.json")
        write_json(inp, [{"lex": L, "ops": ops, "streams": 1, "id": 1}])
        run([os.path.join(d, "lexdrv"), inp, o], timeout=60)
        ob = json.load(open(o))[0]["obs"]
        if len(ob) < 2 or ob[1].get("k") != kind: continue      # (others say what is wrong with that)
        msg = s(ob[1]["msg"]); place = s(ob[1]["place"])
        tags = ["T%d" % x for x in ob[1]["tags"]]
        if len(tags) == 2 and tags[0] in msg and tags[1] in msg:
            i = msg.index(tags[0]) + len(tags[0]); j = msg.index(tags[1]); sep = msg[i:j] if j >= i else ""
            tags = [msg[i - len(tags[0]):j + len(tags[1])]]
        marks = [("place", place)] + ([("kinds", tags[0])] if len(tags) == 1 else []) + ([("text", tx)] if tx else [])
        parts = []; rest = msg
        while rest:
            at = min(((rest.find(m), n, m) for n, m in marks if m and m in rest), default=None)
            if at is None: parts.append({"p": "s", "s": cps(rest)}); break
            if at[0]: parts.append({"p": "s", "s": cps(rest[:at[0]])})
            parts.append({"p": at[1], "s": []}); rest = rest[at[0] + len(at[2]):]
        out.append({"k": kind, "parts": parts, "sep": cps(sep or "")})
    return out

def run_lex(chk, cases, label=""):
    """Runs the cases on the real code and validates what it showed against the specification."""
    bg = [Background(chk, "LexModel", "LexModel.cfg" if chk.quick else "LexModel_thorough.cfg")]
    if chk.prop in ("C11", "C14"):
        bg.append(Background(chk, "MCRegex", workers=2))
    d = build_harness(("lexdrv",))
    inp = os.path.join(chk.work, "lex_in.json"); out = os.path.join(chk.work, "lex_out.json")
    full = []
    hangs = 0
    while len(full) < len(cases) and hangs < 3:      # the driver stops at a case that does not end
        rest = cases[len(full):]
        write_json(inp, rest)
        run([os.path.join(d, "lexdrv"), inp, out], timeout=600)
        obs = json.load(open(out))
        for cs, o in zip(rest, obs):
            x = dict(cs); x.update(o); full.append(x)
        hangs += len(obs) < len(rest)
    if hangs: chk.log("%d cases do not end" % hangs)
    chk.log("%s%d cases recorded" % (label, len(full)))
    if chk.prop == "C27":
        fr = frames(chk, d)
        chk.cov["frames"] = {f["k"]: "".join(s(p["s"]) if p["p"] == "s" else "<%s>" % p["p"] for p in f["parts"]) for f in fr}
        for x in full: x["frames"] = fr
    t = trace_validate("LexTrace", full, chk.work)
    chk.add(t, t.done)
    byid = {x["id"]: x for x in full}
    others = {}
    for b in t.tuples:
        if b[0] != "BLAME": continue
        if b[1] == chk.prop:
            cs = byid[b[2]]
            chk.violation(b[4], {"case": b[2], "op": b[3], "shown": b[5],
                                 "lexicon": show_lex(cs["lex"]), "texts": texts(cs), "ops": len(cs["ops"])})
        else:
            others[b[1]] = others.get(b[1], 0) + 1
    if others:
        chk.cov.setdefault("other_properties_contradicted", {}).update(others)
        chk.log("differences that concern other properties: %s" % others)
    for x in full[len(full) // 2:][:3]:
        chk.sample("lexicon %s texts %s ops %s shown %s" % (
            json.dumps(show_lex(x["lex"])), json.dumps(texts(x)), " ".join(o["o"] for o in x["ops"][:20]),
            " ".join("%s%s%r" % (o.get("k"), o.get("tags", ""), s(o.get("lex", []))) for o in x["obs"][:12])))
    chk.log("%s validated: %d states" % (label, t.states))
    for b in bg:
        b.join()
    return full

def s(cp): return "".join(chr(x) for x in cp)
def show_lex(L):
    return {"lits": [[x["tag"], s(x["s"])] for x in L["lits"]], "regs": [[x["tag"], s(x["src"])] for x in L["regs"]],
            "skips": [s(x["src"]) for x in L["skips"]], "end": L["end"]}
def texts(cs): return [[o["o"], o["s"], s(o["t"]), o["l"]] for o in cs["ops"] if "t" in o][:8]

STD = lambda: lexicon(["if", "when", "in", "=", "==", "+"], [ident(), number()], [block_comment(), line_comment(), blanks()])

def exhaustive(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield [ord(x) for x in t]

def plain_cases(rng, n, alphas=ALPHAS, textlen=10, texts_per=4, extra="", styles=None, labels=("t",)):
    cs = []
    while len(cs) < n:
        alpha = list(rng.choice(alphas))
        L = rand_lexicon(rng, alpha) if rng.random() < 0.85 else STD()
        if L["end"] == 99 and not (L["lits"] or L["regs"]): continue
        lits = [x["s"] for x in L["lits"]]
        for _ in range(texts_per):
            t = rand_text(rng, alpha, textlen, extra, lits)
            cs.append(case(len(cs) + 1, L, read_ops(rng, t, rng.choice(labels), style=styles and rng.choice(styles))))
    return cs

def exhaustive_cases(rng, nlex, alphas, n, cs):
    for _ in range(nlex):
        alpha = list(rng.choice(alphas))[:3]
        L = rand_lexicon(rng, alpha)
        for t in exhaustive(alpha, n):
            cs.append(case(len(cs) + 1, L, read_ops(rng, t, style="advf")))
    return cs

def big_cases(rng, n, labels=("t",)):
    cs = []
    while len(cs) < n:
        L, ts = (long_lexicon if rng.random() < .75 else many_lexicon)(rng)
        for t in ts: cs.append(case(0, L, read_ops(rng, t, rng.choice(labels))))
    return cs

def scale_cases(rng, labels=("t",)):
    """more of everything than fits a byte: lines, bytes in a line, characters in a token, a skip, an error, tokens, kinds, injections"""
    cs = []
    W = lexicon(["a", "=", "\u00e9"], [rep(cls([("b", "z")]), 1)], [rep(cls([(" ", " "), ("\n", "\n"), ("\r", "\r")]), 1), line_comment()])
    n = lambda: rng.randint(257, 330)
    texts = [("\n" * n() + "a $ b", 6), ("a" + " " * n() + "b$\n=", 7), ("b" * n() + " a$" + "c" * n(), 8), ("a" + "$" * n() + "b", 6), ("a" * n(), 340),
             ("//" + "\u20ac" * n() + "\na$", 5), ("\r\n" * n() + "$$ a", 6), ("$ a" + "\u00e9" * n() + " $", 300), ("a\nb\n" * (n() // 2), 300)]
    for t, k in texts:
        ops = read_ops(rng, cps(t), rng.choice(labels))
        cs.append(case(0, W, ops[:k + 3]))
    many = lexicon(["k%dx" % i for i in range(n())] + ["k"], [cat(c("k"), rep(cls([("0", "9")]), 1))], [blanks()])
    many["end"] = 9999
    rng.shuffle(many["lits"])
    cs.append(case(0, many, read_ops(rng, cps(" ".join(rng.choice(["k%dx", "k%d", "k%dy"]) % rng.randint(0, 340) for _ in range(12))), rng.choice(labels), style="advf")[:34]))
    L = lexicon(["a", "b", "c"], [], [c(" ")])
    for close in (0, 2, 4):
        ops = [{"o": "new", "s": 1, "t": cps("a b"), "l": "m"}]
        k = rng.randint(260, 280) if close == 0 else rng.randint(20, 40)
        for i in range(k):
            ops.append({"o": "inj", "s": 1, "t": cps(rng.choice(["c b", "c", "b a b", "$ a"])), "l": "i%d" % (i % 7)})
            if close and i % close == 0: ops.append({"o": rng.choice(["adv", "fadv", "front"]), "s": 1})
        cs.append(case(0, L, ops + [{"o": "advf", "s": 1}] * (2 * k)))
    return cs

def fixed_cases(cs):
    """Lexicons chosen by hand for shapes random choice reaches rarely."""
    X = []
    a, b, nl = c("a"), c("b"), c("\n")
    X.append((lexicon(["a", "ab", "abc", "abcd"], [rep(cls(["ac"]), 1)], []), ["abcd", "abca", "abcdabc", "ab", "dabcd"]))
    X.append((lexicon(["a"], [alt(a, cat(a, b)), alt(cat(a, b), a)], []), ["ab", "a", "aab", "ba"]))
    X.append((lexicon([], [alt(a, b), rep(b, 1)], [c(" ")]), ["ab b", "b", "xbx", " xa b"]))
    X.append((lexicon(["x"], [rep(a, 0), cat(rep(a, 0, 1), rep(b, 0))], [rep(c(" "), 0)]), ["", " ", "c", "aac", "  x", "b\u00e9", "\u00e9a", "\u00e9\u20acx"]))
    X.append((lexicon(["\u00e9", "\u20ac\u20ac"], [rep(ANY, 2, 2)], [nl]), ["\u00e9", "\u20ac", "\u20ac\u20ac", "\u20ac\u00e9", "\u00e9\u20ac\u00e9\n\u20ac"]))
    X.append((STD(), ["if iffy 9 /* x\ny */ z", "// c\n==\r\n=+", "/**/ when\r\n\r\n in\n9", "$ $if", "\u00e9if \U0001F600 9", " ", "/* unfinished", "if/*\r\n*/if", "a\rb\r\nc\n\rd"]))
    X.append((lexicon(["{"], [cat(c("{"), rep(alt(ANY, nl), 0, -1, True), c("}"))], [blanks()]), ["{\n\r\n}{a}\n{\r\n{", "{\r\n\n\r\n}  {}", "}\n}{"]))
    X.append((lexicon([], [cat(a, EOT), a], [b]), ["a", "aa", "ab", "aba"]))
    X.append((lexicon(["aa"], [cat(a, a), cat(a, rep(a, 1))], []), ["aa", "aaa", "a", "aaaa"]))
    X.append((lexicon(["\n", "\r\n"], [rep(cls(["az"]), 1)], [c(" ")]), ["a\nb\r\nc", "\r\n\r\n x", "x\r\ny\n$\nz"]))
    for L, ts in X:
        for t in ts:
            for st in ("advf", "fadv"):
                cs.append(case(len(cs) + 1, L, read_ops(random.Random(1), cps(t), style=st)))
    return cs

def c11(chk):
    rng = random.Random(chk.seed * 101 + 11)
    cs = fixed_cases([])
    exhaustive_cases(rng, 10 if chk.quick else 60, ["ab", "abc", "ab ", "a\u00e9b"], 4 if chk.quick else 5, cs)
    more = plain_cases(rng, 3000 if chk.quick else 20000) + plain_cases(rng, 300 if chk.quick else 3000, QUIRKY) + big_cases(rng, 500 if chk.quick else 5000)
    cs = cs + more
    cs = cs + scale_cases(rng)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)

def c12(chk):
    rng = random.Random(chk.seed * 101 + 12)
    cs = fixed_cases([])
    exhaustive_cases(rng, 8 if chk.quick else 40, ["ab", "a\u20acb", "ab ", "ab\n"], 4 if chk.quick else 5, cs)
    more = plain_cases(rng, 3000 if chk.quick else 20000, extra="$#\u00e9\u20ac")
    more += plain_cases(rng, 400 if chk.quick else 4000, QUIRKY, extra=QUIRKS) + big_cases(rng, 300 if chk.quick else 3000)
    cs = cs + more
    cs = cs + scale_cases(rng)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)

def c13(chk):
    rng = random.Random(chk.seed * 101 + 13)
    labels = ("t", "", "a b", "x\ty", "some/file.laps", "\u00e9 \u20ac", " ", "a:b")
    al = ["ab\n", "a\n\r", "ab\n\r ", "a\n\u00e9\r", "a\n\u20ac ", "ab/*\n", "a\n"]
    cs = fixed_cases([])
    for x in cs: x["ops"][0]["l"] = rng.choice(labels)
    more = plain_cases(rng, 2500 if chk.quick else 20000, alphas=al, extra="\n\r$\u00e9\U0001F600", textlen=12, labels=labels)
    # lexicons whose tokens, skips and errors all span lines
    nl = c("\n"); cr = c("\r")
    M = [lexicon(["b\na"], [cat(c("a"), rep(alt(nl, cr, c(" ")), 0), c("b"))], [rep(cls([("\n", "\n"), (" ", " ")]), 1)]),
         lexicon(["\n"], [rep(cls([("a", "b")]), 1)], [cr]), lexicon(["a"], [], [c("b")]),
         lexicon([], [rep(alt(c("a"), nl), 1)], [rep(alt(c("b"), cr), 1)])]
    for L in M:
        for _ in range(60 if chk.quick else 600):
            more.append(case(0, L, read_ops(rng, rand_text(rng, "ab\n\r ", 12, "\u00e9$"), rng.choice(labels))))
    more += plain_cases(rng, 800 if chk.quick else 6000, alphas=QUIRKY, extra="\n\r" + QUIRKS, textlen=12, labels=labels)
    more += big_cases(rng, 200 if chk.quick else 2000, labels)
    inj = inject_cases(rng, 500 if chk.quick else 5000, labels)
    cs = cs + more + inj
    cs = cs + scale_cases(rng, labels)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)

def c14(chk):
    rng = random.Random(chk.seed * 101 + 14)
    al = ["a\u00e9", "\u20ac\U0001F600a", "ab", "a\u00e9\n", "a\U0001F600 "]
    cs = fixed_cases([])
    n = 2500 if chk.quick else 20000
    more = []
    while len(more) < n:
        alpha = list(rng.choice(al))
        L = rand_lexicon(rng, alpha)
        # patterns that can match nothing
        extra = [rep(rand_re(rng, alpha, 0), 0), rep(c(rng.choice(alpha)), 0, 1), cat(rep(c(alpha[0]), 0), rep(c(alpha[-1]), 0, 1)),
                 alt(rep(c(alpha[0]), 0, 1, True), c(alpha[-1])), cat(rep(c(alpha[0]), 0), EOT)]
        for e in rng.sample(extra, rng.randint(0, 2)):
            L["regs"].append({"tag": 50 + len(L["regs"]), "re": e, "ok": True, "src": cps(render(e))})
        for e in rng.sample(extra, rng.randint(0, 1)):
            L["skips"].append({"re": e, "ok": True, "src": cps(render(e))})
        distinct(L)
        for _ in range(4):
            t = rand_text(rng, alpha, 9, "$\u00e8\u00ea\u20ad\U0001F601\u0000\u007f\u0301")
            more.append(case(0, L, read_ops(rng, t)))
    allu = []
    for L in (STD(), lexicon([], [rep(ANY, 1)], []), lexicon(["\u00e9"], [rep(c("\u20ac"), 0)], [rep(c("\U0001F600"), 0)])):
        for _ in range(100 if chk.quick else 800):
            t = []
            for _ in range(rng.randint(0, 10)):
                k = rng.choice([0x7f, 0x7ff, 0xffff, 0x10ffff])
                x = rng.randint(0, k)
                t.append(x if not 0xd800 <= x <= 0xdfff else 0xe000)
            allu.append(case(0, L, read_ops(rng, t)))
    allu += plain_cases(rng, 300 if chk.quick else 3000, QUIRKY, extra=QUIRKS) + big_cases(rng, 300 if chk.quick else 3000)
    cs = cs + more + allu
    cs = cs + scale_cases(rng)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)

def c15(chk):
    rng = random.Random(chk.seed * 101 + 15)
    cs = []
    def mk(lits, regs, skips, end):
        return {"lits": [{"tag": t, "s": cps(x)} for t, x in lits],
                "regs": [dict(tag=t, **r) for t, r in regs], "skips": skips, "end": end}
    def R(ast): return {"re": ast, "ok": True, "src": cps(render(ast))}
    def B(src): return {"re": EOT, "ok": False, "src": cps(src)}
    def E(): return {"re": EOT, "ok": True, "src": []}
    def ops(t): return read_ops(rng, cps(t), style="advf")
    # exhaustive over small shapes: 2 literals, 2 patterns, 2 skips from small pools
    litpool = ["a", "b", "", "ab", "a*"]
    repool = [R(c("a")), R(rep(c("a"), 0)), R(c("b")), E(), B("("), B("a)|(b")]
    tags = [1, 2, 9]
    for l1, l2 in itertools.product(litpool, repeat=2):
        cs.append(case(0, mk([(1, l1), (2, l2)], [], [], 9), ops("ab")))
        for r in repool:
            cs.append(case(0, mk([(1, l1)], [(2, r)], [], 9), ops("ab")))
            cs.append(case(0, mk([(1, l1), (3, l2)], [(2, r)], [], 9), ops("ab")))
            cs.append(case(0, mk([(1, l1), (3, l2)], [], [r], 9), ops("ab")))
    for r1, r2 in itertools.product(repool, repeat=2):
        cs.append(case(0, mk([], [(1, r1), (2, r2)], [], 9), ops("ab")))
        cs.append(case(0, mk([], [(1, r1)], [r2], 9), ops("ab")))
        cs.append(case(0, mk([(1, "x")], [], [r1, r2], 9), ops("ab")))
        for r3 in repool:
            cs.append(case(0, mk([], [(1, r1)], [r2, r3], 9), ops("ab")))
    for t in itertools.product(tags, repeat=4):
        cs.append(case(0, mk([(t[0], "a"), (t[1], "b")], [(t[2], R(c("c")))], [], t[3]), ops("abc")))
        cs.append(case(0, mk([(t[0], "a")], [(t[1], R(c("b"))), (t[2], R(c("c")))], [], t[3]), ops("abc")))
    for src in BADRE:
        cs.append(case(0, mk([(1, "k")], [(2, B(src))], [], 9), ops("k")))
        cs.append(case(0, mk([(1, "k")], [], [B(src)], 9), ops("k")))
    # random larger lexicons with planted faults
    n = 1500 if chk.quick else 15000
    for _ in range(n):
        alpha = list(rng.choice(ALPHAS))
        L = rand_lexicon(rng, alpha, 6, 6, 4)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.random()
            allp = [x["s"] for x in L["lits"]] + [x["src"] for x in L["regs"]] + [x["src"] for x in L["skips"]]
            if k < 0.2 and L["lits"] + L["regs"]:
                rng.choice(L["lits"] + L["regs"])["tag"] = rng.choice([x["tag"] for x in L["lits"] + L["regs"]] + [L["end"]])
            elif k < 0.3 and L["lits"] + L["regs"]:
                L["end"] = rng.choice([x["tag"] for x in L["lits"] + L["regs"]])
            elif k < 0.45 and allp and L["lits"]:
                rng.choice(L["lits"])["s"] = list(rng.choice(allp))
            elif k < 0.65 and L["regs"] + L["skips"]:
                src = rng.choice(L["regs"] + L["skips"]); dst = rng.choice(L["regs"] + L["skips"])
                dst.update({f: src[f] for f in ("re", "ok", "src")})
            elif k < 0.8 and L["regs"] + L["skips"]:
                rng.choice(L["regs"] + L["skips"]).update(B(rng.choice(BADRE)))
            elif k < 0.9 and L["lits"]: rng.choice(L["lits"])["s"] = []
            elif L["regs"] + L["skips"]:
                rng.choice(L["regs"] + L["skips"]).update(E())
        # a literal whose text is a (valid) pattern's source
        if rng.random() < 0.1 and L["regs"]:
            L["lits"].append({"tag": 70, "s": list(rng.choice(L["regs"])["src"])})
        rng.shuffle(L["lits"]); rng.shuffle(L["regs"]); rng.shuffle(L["skips"])
        cs.append(case(0, L, ops("".join(rng.choice(alpha) for _ in range(4)))))
    for i, x in enumerate(cs): x["id"] = i + 1
    full = run_lex(chk, cs)
    chk.cov["accepted"] = sum(1 for x in full if x["made"] == "ok")
    chk.cov["refused"] = sum(1 for x in full if x["made"] != "ok")

def c16(chk):
    rng = random.Random(chk.seed * 101 + 16)
    cs = []
    L0 = lexicon(["a"], [rep(c("b"), 1)], [cls([(" ", " "), ("\n", "\n")])])
    # every sequence of operations up to a length, on a short text
    n = 5 if chk.quick else 6
    for t in ("", " ", "a b", "a", "a\n\n\n") if chk.quick else ("", " ", "a b", "a", "a\n\nb\n", "ab$a", "\n\n\n"):
        for k in range(1, n + 1):
            if k < n and k > 2: continue
            for o in itertools.product(["front", "adv", "fadv", "advf", "empty"], repeat=k):
                cs.append(case(0, L0, [{"o": "new", "s": 1, "t": cps(t), "l": "t"}] + [{"o": x, "s": 1} for x in o]))
    if chk.quick:
        keep = [x for x in cs if len(x["ops"]) < 6]
        rest = [x for x in cs if len(x["ops"]) >= 6]
        cs = keep + rng.sample(rest, 5000)
    # several streams from one analyser, interleaved at random, with injections
    for _ in range(1200 if chk.quick else 12000):
        alpha = list(rng.choice(ALPHAS))
        L = rand_lexicon(rng, alpha) if rng.random() < 0.7 else L0
        ns = rng.randint(1, 4)
        lits = [x["s"] for x in L["lits"]]
        ops = [{"o": "new", "s": k, "t": rand_text(rng, alpha, 7, rng.choice(["$", "$\n", "\n\n\u00e9"]), lits), "l": "l%d" % k} for k in range(1, ns + 1)]
        for _ in range(rng.randint(4, 22)):
            k = rng.randint(1, ns)
            o = rng.choice(["front", "adv", "fadv", "advf", "empty", "front", "advf"])
            ops.append({"o": o, "s": k})
            if rng.random() < 0.05:
                ops.append({"o": "inj", "s": k, "t": rand_text(rng, alpha, 4, "", lits), "l": "i%d" % k})
            if rng.random() < 0.03:
                ops.append({"o": "new", "s": k, "t": rand_text(rng, alpha, 5, "", lits), "l": "n%d" % k})
        cs.append(case(0, L, ops, ns))
    cs = cs + scale_cases(rng)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)

def inject_cases(rng, n, labels=("t", "u v", "w"), maxdepth=4):
    cs = []
    words = lexicon(["a", "bb"], [rep(cls(["cd"]), 1)], [rep(cls([(" ", " "), ("\n", "\n")]), 1)])
    for _ in range(n):
        L = words
        ops = [{"o": "new", "s": 1, "t": rand_text(rng, "abcd \n", 8, "$"), "l": rng.choice(labels)}]
        for _ in range(rng.randint(3, 24)):
            k = rng.random()
            if k < 0.22:
                t = rng.choice([rand_text(rng, "abcd \n", 5, "$"), cps("  \n"), [], rand_text(rng, "abcd ", 3)])
                ops.append({"o": "inj", "s": 1, "t": t, "l": rng.choice(labels)})
            else:
                ops.append({"o": rng.choice(["front", "adv", "fadv", "advf", "advf", "empty"]), "s": 1})
        ops += [{"o": "advf", "s": 1}] * 6
        cs.append(case(len(cs) + 1, L, ops))
    return cs

def inject_exhaustive(quick):
    """all histories of a few operations with injections of a few texts, then read to the end"""
    cs = []
    L = lexicon(["a", "b", "c"], [], [c(" ")])
    pieces = [("inj", "b c"), ("inj", " "), ("inj", ""), ("adv", None), ("inj", "$c")]
    for t in ("a a", "", " ", "a"):
        for k in range(1, 5 if quick else 6):
            for o in itertools.product(pieces, repeat=k):
                ops = [{"o": "new", "s": 1, "t": cps(t), "l": "main"}]
                for j, (kind, tx) in enumerate(o):
                    ops.append({"o": "adv", "s": 1} if kind == "adv" else {"o": "inj", "s": 1, "t": cps(tx), "l": "i%d" % j})
                    if kind == "inj": ops.append({"o": "front", "s": 1})
                ops += [{"o": "fadv", "s": 1}] * (4 + 3 * sum(1 for x in o if x[0] == "inj"))
                cs.append(case(0, L, ops))
    return cs

def c10(chk):
    rng = random.Random(chk.seed * 101 + 10)
    cs = inject_exhaustive(chk.quick) + inject_cases(rng, 1500 if chk.quick else 15000)
    cs = cs + scale_cases(rng)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)
    from gramchecks import c10_parsers
    c10_parsers(chk)

def c27(chk):
    rng = random.Random(chk.seed * 101 + 27)
    labels = ("t", "", "a b", "x\ty", "some/file.laps", "\u00e9 \u20ac", " ", "a:b", "at 1:1")
    cs = fixed_cases([])
    for x in cs: x["ops"][0]["l"] = rng.choice(labels)
    q = chk.quick
    # lexicons in which several patterns match the same text: two, three, many kinds
    amb = []
    for _ in range(250 if q else 2500):
        n = rng.randint(2, 6)
        pats = rng.sample([rep(c("a"), 1), cat(c("a"), rep(c("a"), 0)), rep(cls(["ab"]), 1), rep(alt(c("a"), c("b")), 1), rep(ANY, 1), rep(cls(["ac"]), 1),
                           cat(rep(c("a"), 0), rep(c("a"), 1)), rep(cls([("a", "z")]), 1), alt(rep(c("a"), 1), c("$"))], n)
        L = lexicon(rng.sample(["a", "b", "ab", "bb"], rng.randint(0, 2)), pats, [c(" ")])
        tags = rng.sample(range(1, 3000), len(L["lits"]) + len(L["regs"]) + 1)
        for x, t in zip(L["lits"] + L["regs"], tags): x["tag"] = t
        L["end"] = tags[-1]
        distinct(L)
        for _ in range(3):
            amb.append(case(0, L, read_ops(rng, rand_text(rng, "ab", 6, " $c\n"), rng.choice(labels))))
    more = plain_cases(rng, 1200 if q else 10000, extra="$#\u00e9\u20ac\n{}()[]\"\\%", labels=labels)
    more += big_cases(rng, 200 if q else 2000, labels) + inject_cases(rng, 200 if q else 2000, labels)
    cs = cs + amb + more
    cs = cs + scale_cases(rng, labels)
    for i, x in enumerate(cs): x["id"] = i + 1
    run_lex(chk, cs)
