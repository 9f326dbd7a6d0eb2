"""Checks about the specification language and its front ends (C18, C20, C24)."""
import os, random, re
from core import *
from frontend import *
from docgen import *
from study import *
from gramchecks import varied, classic, spoil
from concurrent.futures import ThreadPoolExecutor

DIAG = re.compile(r"^(.*?):(\d+):(\d+): (Error|Warning): ", re.S)

def diags(lines, kind):
    out = []
    for l in lines:
        m = DIAG.match(l)
        if m and m.group(4) == kind:
            f = m.group(1)
            if len(f) > 1 and f[0] == '"' == f[-1]: f = f[1:-1]
            out.append({"f": f, "l": int(m.group(2)), "o": int(m.group(3))})
    return out

def mentions(lines, kind, ds):
    """the diagnostics with the names, sources and places of the document (ds) that each mentions"""
    words, places = set(), []
    def place(a): places.append(a)
    for d in ds:
        words |= {d[k] for k in ("n", "s", "p") if d.get(k)}
        for k in ("at", "pat"):
            if k in d: place(d[k])
        for x in d.get("xs", []): words.add(x["s"]); place(x["at"])
    out = []
    for l in lines:
        m = DIAG.match(l)
        if not m or m.group(4) != kind: continue
        text = l[m.end(4):]
        e = {"at": diags([l], kind)[0]}
        e["w"] = sorted(w for w in words if re.search((r"(?<!\w)" if w[0].isalnum() else "") + re.escape(w) + (r"(?!\w)" if w[-1].isalnum() else ""), text))
        e["p"] = []
        for a in places:
            shown = "%s:%d:%d" % ('"%s"' % a["f"] if re.search(r"\s", a["f"]) else a["f"], a["l"], a["o"])
            if a not in e["p"] and re.search(r"(?<!\w)" + re.escape(shown) + r"(?!\d)", text): e["p"].append(a)
        out.append(e)
    return out

def syn_seen(r, g):
    """where the syntax error was reported and what was expected there"""
    if r["r"] != "syntax": return []
    ms = list(re.finditer(r" at +(\S+?):(\d+):(\d+) expected ", r["msg"]))
    if not ms: return []
    m = ms[-1]
    names = {"AAEnd": 0}
    for i, t in enumerate(g.toks): names[g.shown(t)] = i + 1
    exp = [names.get(x, -1) for x in split_expected(r["msg"][m.end():].rstrip("."))]
    return [{"at": {"f": m.group(1), "l": int(m.group(2)), "o": int(m.group(3))}, "exp": exp}]

def split_expected(s):
    out = []
    for m in re.finditer(r'"(?:[^"\\]|\\.)*"|[^\s,"]+', s):
        x = m.group(0)
        if x != "or" or out == []: out.append(x)
    return out

class Lang:
    """documents put to the real front ends and checked against SpecLang"""
    def __init__(self, chk):
        self.chk = chk
        self.p = Pipe(chk)
        self.rng = random.Random(chk.seed * 104729 + int(chk.prop[1:]))
        self.gs = {d: read_spec(spec_text(d), "fe" + d) for d in LIBS}
        self.cases, self.meta = [], {}
    def add(self, c, note):
        c["id"] = len(self.cases) + 1
        self.cases.append(c); self.meta[c["id"]] = note
    def validate(self, procs=8):
        n = max(1, min(procs, len(self.cases) // 30 + 1))
        def tla(d):
            x = self.gs[d].tla()
            if d == "l":
                for p in x["prods"]: p["pk"] = "none"
            return x
        gs = [tla("l"), tla("a")]
        def one(k):
            cs = self.cases[k::n]
            path = os.path.join(self.p.dir, "lang_%d.json" % k)
            write_json(path, {"gs": gs if any(c["k"] == "syn" for c in cs) else [], "cases": cs})
            return tlc("SpecLang", work=self.p.dir, extra_env={"CASES": path}), len(cs)
        with ThreadPoolExecutor(n) as ex: res = list(ex.map(one, range(n)))
        byid = {c["id"]: c for c in self.cases}
        st = 0
        for t, m in res:
            c = [y for y in t.tuples if y and y[0] == "CASES"]
            if not c or c[-1][1] != m: raise ToolError("not every case carried through\n" + t.out[-3000:])
            self.chk.add(t, m); st += t.states
            for b in t.tuples:
                if b[0] == "UNPARSED": raise ToolError("unreadable TLC output")
                if b[0] != "BLAME": continue
                if b[1] == self.chk.prop:
                    self.chk.violation("%s: %s" % (byid[b[2]]["k"], b[4]), {"at": b[3], "observed": b[5], "case": self.meta[b[2]]})
                else: self.chk.cov.setdefault("other_properties_contradicted", {}).setdefault(b[1], []).append(b[4]) \
                    if len(self.chk.cov.get("other_properties_contradicted", {}).get(b[1], [])) < 5 else None
        self.chk.log("%d documents validated: %d states" % (len(self.cases), st))

    # ---- documents with and without faults
    def documents(self, n, fault, clash=False, wild_layout=True):
        rng, p = self.rng, self.p
        jobs, docs = [], []
        for k in range(n):
            d = rng.choice("la")
            D = rand_doc(rng, d, fault(k), clash)
            rec = {}
            toks, files = D.toks, []
            if rng.random() < .25: toks, files = injected(rng, toks, p.dir, "n%d" % k, rec)
            D.toks = toks
            if not files and rng.random() < fault(k) * .3: with_bad_injections(rng, D, p.dir, "n%d" % k)
            # (marks of what was moved out were placed when its file was written; bad injections renumber declarations,
            # so they are only made where nothing was moved)
            text = relayout(rng, D.toks, None if wild_layout else "lines", rec, "spec")
            for path, body in files:
                with open(path, "w", encoding="utf-8", newline="") as f: f.write(body)
            out = os.path.join(p.dir, "d%d.rs" % k)
            if os.path.exists(out): os.remove(out)
            jobs.append({"lib": d, "text": text, "label": "spec", "sr": True, "rr": True, "out": out, "report": None})
            docs.append((d, D, rec, files, out, text))
        res = p.gen(jobs)
        for (d, D, rec, files, out, text), r in zip(docs, res):
            yield d, D, rec, files, out, text, r

    def doc_case(self, d, D, rec, files, out, text, r):
        note = {"lib": d, "text": text, "files": [(a, b) for a, b in files], "outcome": {k: v for k, v in r.items()}}
        if r["r"] in ("panic", "died", "hang"):
            self.chk.violation("generator " + r["r"], note) if self.chk.prop == "C18" else None
            return
        ds = located(D, rec)
        res = lambda s: s[:2] in ("aa", "AA")
        for x in ds:
            if x["d"] == "tok": x["res"] = res(x["n"])
            if x["d"] == "prec":
                for y in x["xs"]: y["res"] = not y["lit"] and res(y["s"])
        self.add({"k": "doc", "ds": ds, "r": r["r"], "errs": mentions(r["diag"], "Error", ds), "warns": mentions(r["diag"], "Warning", ds),
                  "wrote": os.path.exists(out)}, note)

    # ---- token sequences right and wrong
    def sequences(self, n, props, pool):
        rng, p = self.rng, self.p
        items, jobs = [], []
        for k in range(n):
            d = rng.choice("la")
            toks = list(pool(d))
            toks = mutate(rng, toks, self.gs[d])
            toks = [(a, b, ("t", i)) for i, (a, b, _) in enumerate(toks)]
            rec = {}
            text = relayout(rng, toks, None, rec, "spec")
            # what the text reads as is what counts (layout may have made other tokens of these)
            toks, rec = reread(text)
            out = os.path.join(p.dir, "s%d.rs" % k)
            if os.path.exists(out): os.remove(out)
            jobs.append({"lib": d, "text": text, "label": "spec", "sr": True, "rr": True, "out": out, "report": None})
            items.append((d, toks, rec, out, text))
        for (d, toks, rec, out, text), r in zip(items, p.gen(jobs)): yield d, toks, rec, out, text, r
    def syn_case(self, d, toks, rec, out, text, r, props):
        g = self.gs[d]
        note = {"lib": d, "text": text, "outcome": r}
        if r["r"] in ("panic", "died", "hang"):
            self.chk.violation("generator " + r["r"], note) if self.chk.prop in props else None
            return
        num = {"end": 0}
        for i, t in enumerate(g.toks): num[t.lit if t.lit is not None else t.name] = i + 1
        seq = [{"t": num.get(k, -1), "at": a} for (k, s), a in zip(toks, rec)]
        self.add({"k": "syn", "g": 1 if d == "l" else 2, "toks": seq, "r": r["r"], "seen": syn_seen(r, g), "wrote": os.path.exists(out),
                  "props": props}, note)

def reread(text):
    """the tokens of a text as the language's lexicon gives them, up to and including the first that cannot be read"""
    out, at = [], []
    i = 0
    def loc(n):
        l, o = place(text, n)
        return {"f": "spec", "l": l, "o": o}
    for k, s, n in tokenize_some(text):
        out.append((k, s)); at.append(loc(n))
    if not out or out[-1][0] != "unreadable":
        out.append(("end", "")); at.append(loc(len(text)))
        return [(k, s) for k, s in out], at
    return out, at

INS = [("%attr", "%attr"), ("%target", "%target"), ("%token", "%token"), ("%skip", "%skip"), ("%left", "%left"), ("%right", "%right"),
       ("%nonassoc", "%nonassoc"), ("%prec", "%prec"), ("%error", "%error"), ("%%", "%%"), (":", ":"), ("|", "|"), (".", "."),
       ("%reduce_reduce", "%reduce_reduce"), ("%shift_reduce", "%shift_reduce"), ("Ident", "Zz"), ("Literal", '"lit"'), ("RegEx", "(re)"),
       ("NumberExpr", "3"), ("ActionCode", "!{ !}"), ("PredicateExpr", "?( ?)"), ("RustCode", "%{ %}"), ("@", "@"), ("@", "#\u00e9"),
       ("@", "%unknown"), ("@", '"open'), ("@", "(x"), ("@", "!{ x"), ("@", "?( x"), ("%inject", "%inject")]

def mutate(rng, toks, g):
    toks = list(toks)
    r = rng.random()
    if r < .12: return toks
    for _ in range(1 if r < .8 else 2):
        if not toks: break
        i = rng.randrange(len(toks))
        k = rng.random()
        if k < .25: del toks[i]
        elif k < .5: toks.insert(i, rng.choice(INS) + (0,))
        elif k < .7: toks[i] = rng.choice(INS) + (0,)
        elif k < .78: del toks[i:]
        elif k < .88:
            j = rng.randrange(len(toks)); toks[i], toks[j] = toks[j], toks[i]
        else:
            j = min(len(toks), i + rng.randint(1, 6)); toks[i:i] = toks[i:j]
    return toks

def sound_pool(L):
    """token sequences of sound documents of each dialect"""
    rng = L.rng
    gs = varied(rng, 25, "y") + classic(rng)[::4]
    own = {d: [t[:2] + (0,) for t in tokenize(spec_text(d))] for d in LIBS}
    def pool(d):
        r = rng.random()
        if r < .015: return own[d]
        if r < .4:
            g = rng.choice([x for x in gs if d == "a" or not x.has_pred()])
            return [t[:2] + (0,) for t in tokenize(g.text(d, random.Random(rng.random())))]
        return [(a, b, 0) for a, b, _ in rand_doc(rng, d, 0).toks]
    return pool

def c18(chk):
    L = Lang(chk)
    q = chk.quick
    n = 4000 if q else 40000
    for x in L.documents(n, lambda k: [0, .5, 1, .15][k % 4]): L.doc_case(*x)
    chk.count("documents", n)
    n = 2500 if q else 20000
    for x in L.sequences(n, ["C18"], sound_pool(L)): L.syn_case(*x, ["C18"])
    chk.count("token_sequences", n)
    for c in L.cases[::max(1, len(L.cases) // 5)][:5]:
        chk.sample("%s %s: %s" % (c["k"], c["r"], L.meta[c["id"]]["text"][:300]))
    out = {}
    for c in L.cases: out[c["k"] + ":" + c["r"]] = out.get(c["k"] + ":" + c["r"], 0) + 1
    chk.cov["outcomes"] = out
    L.validate()

def c24(chk):
    L = Lang(chk)
    q = chk.quick
    n = 4000 if q else 40000
    for x in L.documents(n, lambda k: 0, clash=True): L.doc_case(*x)
    chk.count("documents", n)
    for c in L.cases[::max(1, len(L.cases) // 5)][:5]: chk.sample("%d warnings: %s" % (len(c["warns"]), L.meta[c["id"]]["text"][:300]))
    L.validate()

def filehash(path):
    import hashlib
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:20] if os.path.exists(path) else ""

def c20(chk):
    st = Study(chk)
    p, rng, q = st.p, st.rng, chk.quick
    # each generator takes its own specification
    own = [{"lib": d, "text": spec_text(d), "label": "spec", "sr": False, "rr": False, "out": os.path.join(p.dir, "own_%s.rs" % d),
            "report": os.path.join(p.dir, "own_%s.states" % d)} for d in LIBS]
    for d, j, r in zip(LIBS, own, p.gen(own)):
        chk.sample("%s: own specification: %s" % (d, r["r"]))
        if r["r"] != "ok":
            chk.violation("own specification refused", {"lib": d, "outcome": r})
            return
    b = build(chk, {d: j["out"] for d, j in zip(LIBS, own)})
    if isinstance(b, str):
        chk.violation("the parser generated from its own specification does not fit the generator", {"message": b[:2000]})
        return
    drv_r, dumper = b
    for d in LIBS:
        g = read_spec(spec_text(d), "fe_" + d)
        shipped, regen = dumps(chk, dumper, d, g)
        gi = st.gid(g, d, None)
        st.pair("C20", gi, {"dump": shipped, "runs": []}, {"dump": regen, "runs": []}, "%s: shipped and regenerated parser" % d)
        if "st" not in shipped or "st" not in regen: chk.violation("tables unreadable", {"lib": d, "shipped": str(shipped)[:200], "regenerated": str(regen)[:200]}); continue
        chk.cov["states_" + d] = [len(shipped["st"]), len(regen["st"])]
        # the shipped tables against the automaton the specification builds; the productions numbered as declared
        st.add_case({"k": "tab", "g": gi, "dump": numbered(shipped, g), "prop": "C20"}, "%s: shipped parser" % d)
    st.validate()
    # every token of the documentation reads the same in both; whatever is put to them has the same outcome
    L = Lang(chk)
    texts = []
    for x in L.documents(500 if q else 8000, lambda k: [0, .5, 1][k % 3]): texts.append((x[0], x[5], x[3]))
    pool = sound_pool(L)
    for x in L.sequences(900 if q else 8000, ["C20"], pool):
        L.syn_case(*x, ["C20"]); texts.append((x[0], x[4], []))
    for d, t, f in [(d, t, []) for d in LIBS for t in odd_texts(rng, d, 150 if q else 1500)]: texts.append((d, t, f))
    jobs = [[], []]
    for k, (d, t, f) in enumerate(texts):
        for v in (0, 1):
            o = os.path.join(p.dir, "x%d_%d" % (v, k))
            jobs[v].append({"lib": d, "text": t, "label": "spec", "sr": True, "rr": True, "out": o + ".rs", "report": o + ".states"})
    a = p.gen(jobs[0])
    exe, p.exe = p.exe, drv_r
    c = p.gen(jobs[1])
    p.exe = exe
    for k, (d, t, f) in enumerate(texts):
        rs = []
        for v, r in ((0, a[k]), (1, c[k])):
            o = os.path.join(p.dir, "x%d_%d" % (v, k))
            rs.append("|".join([r["r"], str(r.get("n")), str(r.get("msg")), "\n".join(r["diag"]), filehash(o + ".rs"), filehash(o + ".states")]))
        L.add({"k": "same", "rs": rs}, {"lib": d, "text": t, "files": f, "outcomes": rs})
    chk.count("texts_put_to_both", len(texts))
    L.validate()

def numbered(dump, g):
    """production n of the shipped parser as if its action said so (the productions are numbered as declared)"""
    import copy
    d = copy.deepcopy(dump)
    for s in d["st"]:
        for c in s["a"]:
            for e in [c] + c["ch"]:
                if e["k"] == "r": e["act"] = e["id"]
                if "p" in e: e["p"] = e["id"]
    return d

def odd_texts(rng, d, n):
    """texts made of the language's own pieces at character level"""
    PIECES = ['"', '\\"', "\\", "%", "%%", "%{", "%}", "!{", "!}", "?(", "?)", "(", ")", "/*", "*/", "//", "\n", "\r\n", "\t", " ", "a", "Aa_1", "_x", "9",
              "12ab", "\u00e9", "%token", "%tokenX", "%attr", "%attr A", "%target T", ":", "|", ".", "%error", "%prec", "@", "\x0b", "\u2028", "\ufeff", "("]
    base = spec_text(d)
    pre = "%attr A\n%target T\n%%\n%token X \"x\"\n%%\nS: X .\n"
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .3: out.append("".join(rng.choice(PIECES) for _ in range(rng.randint(1, 14))))
        else:
            t = pre if r < .9 else base[:rng.randrange(len(base))]
            for _ in range(rng.randint(1, 4)):
                i = rng.randint(0, len(t))
                t = t[:i] + rng.choice(PIECES) + t[i + rng.choice([0, 0, 1, 2]):]
            out.append(t)
    return out
