"""Reading the automaton report (the .states file) back into numbers."""
import re

class BadReport(Exception): pass

PROD = re.compile(r"^(\w+): (.*) #\((NonAssoc|Left|Right), (\d+)\)( \?\(.*\?\))?$")
ITEM = re.compile(r"^(\w+):(.*) #\((NonAssoc|Left|Right), (\d+)\)( \?\(.*\?\))?: TokenSet\{(.*)\}$")
A = {"NonAssoc": "N", "Left": "L", "Right": "R"}

def Start(g): return (100, (101,))

def parse_report(text, g, partial=False):
    """partial: the states described with a refusal, without symbols and productions"""
    tok = {"AAEnd": 0}
    for i, t in enumerate(g.toks):
        tok[t.name] = i + 1
        if t.lit is not None: tok['"%s"' % t.lit.replace('"', '\\"')] = i + 1
    nt = {"AAStart": 100, "AAError": 200}
    for i, n in enumerate(g.nts): nt[n] = 101 + i
    tag = {n: 301 + i for i, n in enumerate(g.tags)}
    sym = dict(nt); sym.update(tok)
    def need(d, k, what):
        if k not in d: raise BadReport("%s: %r" % (what, k))
        return d[k]
    def prod(s):
        m = PROD.match(s)
        if not m: raise BadReport("production %r" % s)
        r = [] if m.group(2) == "<empty>" else [need(sym, x, "symbol") for x in m.group(2).split(" ")]
        return {"l": need(nt, m.group(1), "non terminal"), "r": r, "a": A[m.group(3)], "p": int(m.group(4)), "g": bool(m.group(5))}
    def key(t):
        if not partial: return t
        p = prod(t)
        return (p["l"], tuple(p["r"]))
    def toks(m): return [need(tok, x, "token") for x in m.split(", ")] if m else []
    def item(s, st):
        m = ITEM.match(s)
        if not m: raise BadReport("item %r" % s)
        b = m.group(2).split()
        if b.count(".") != 1: raise BadReport("dots %r" % s)
        d = b.index("."); del b[d]
        t = key("%s: %s #(%s, %s)%s" % (m.group(1), " ".join(b), m.group(3), m.group(4), m.group(5) or ""))
        # of productions that look alike the first stands for the first item shown, and so on
        ks = texts.get(t) or need({}, t, "production of an item")
        n = sum(1 for k, e, la in st["it"] if k in ks and e == d)
        if n >= len(ks): raise BadReport("item twice %r" % s)
        st["it"].append([ks[n], d, toks(m.group(6))])
    def done():
        if not out["st"]: return
        st = out["st"][-1]
        if st.pop("noact") != (not st["sh"] and not st["red"]): raise BadReport("empty action table of %d" % st["id"])
        if st.pop("nogo") != (not st["go"]): raise BadReport("empty go to table of %d" % st["id"])
    lines = text.split("\n")
    out = {"toks": [], "tags": [], "nts": [], "prods": [], "st": []}
    sec = sub = None
    texts = {}
    if partial:
        same = []
        for k, q in enumerate([Start(g)] + [(101 + q.l, tuple(g.sym(x) for x in q.r)) for q in g.prods] + ([(200, ())] if g.uses_err() else [])):
            texts.setdefault(q, []).append(k + 1); same.append(texts[q][0])
    for ln in lines:
        if not ln.strip(): continue
        m = re.match(r"^(Symbols|Productions):$|^State<(\d+)>:$", ln)
        if m:
            sec = m.group(1) or "State"; sub = None
            if sec == "State":
                done()
                out["st"].append({"id": int(m.group(2)), "it": [], "cs": [], "cr": [], "sh": [], "red": [], "go": [], "rec": -1, "rla": [], "noact": False, "nogo": False})
            continue
        b = ln.strip()
        if sec == "Symbols":
            if re.match(r"^  [A-Z][\w ]*:$", ln): sub = b[:-1]; continue
            if sub == "Tokens":
                m = re.match(r"^(\w+)\((.*)\): #\((\w+), (\d+)\)$", b)
                out["toks"].append([need(tok, m.group(1), "token"), A[m.group(3)], int(m.group(4))])
            elif sub == "Tags":
                m = re.match(r"^(\w+): #\((\w+), (\d+)\)$", b)
                out["tags"].append([need(tag, m.group(1), "tag"), A[m.group(2)], int(m.group(3))])
            else:
                m = re.match(r"^(\w+): TokenSet\{(.*)\}:\((true|false)\)$", b)
                if not m: raise BadReport("symbol line %r" % ln)
                out["nts"].append([need(nt, m.group(1), "non terminal"),
                                   [need(tok, x, "token") for x in m.group(2).split(", ")] if m.group(2) else [], m.group(3) == "true"])
        elif sec == "Productions":
            p = prod(b)
            texts.setdefault(b, []).append(len(out["prods"]) + 1)
            out["prods"].append(p)
        else:
            st = out["st"][-1]
            if re.match(r"^  \S.*:$", ln): sub, ctok = b[:-1], None; continue
            if re.match(r"^    (Shifts|Reductions):$", ln): sub = b[:-1]; continue
            if ln.startswith("  Error Recovery State: "):
                m = re.match(r"^State<(\d+)>$", b.split(": ", 1)[1]); st["rec"] = int(m.group(1)) if m else -1
                if not m and b != "Error Recovery State: <none>": raise BadReport(ln)
                sub = "rec"; continue
            if sub == "rec":
                m = re.match(r"^Look Ahead: TokenSet\{(.*)\}$", b)
                if not m or st["rec"] < 0: raise BadReport(ln)
                st["rla"] = toks(m.group(1)); continue
            if b == "<empty>":
                if sub not in ("Parser Action Table", "Go To Table"): raise BadReport("<empty> in %s" % sub)
                st["noact" if sub[0] == "P" else "nogo"] = True; continue
            if sub == "Grammar Items": item(b, st); continue
            if sub == "Shift/Reduce Conflicts":
                m = re.match(r"^      reduce (.*): TokenSet\{(.*)\}$", ln)
                if m:
                    if ctok is None: raise BadReport("conflict %r" % ln)
                    st["cs"].append([ctok, cto, need(texts, key(m.group(1)), "production")[0], toks(m.group(2))])
                elif b.startswith("shift -> State<"): cto = int(b[15:-1])
                elif re.match(r"^    \S+:$", ln): ctok = need(tok, b[:-1], "token")
                else: raise BadReport("conflict %r" % ln)
                continue
            if sub == "Reduce/Reduce Conflicts":
                m = re.match(r"^    TokenSet\{(.*)\}$", ln)
                if m: st["cr"].append([toks(m.group(1)), [], []]); continue
                m = re.match(r"^      reduce (.*) : TokenSet\{(.*)\}$", ln)
                if not m: raise BadReport("conflict %r" % ln)
                t = " ".join(x for x in m.group(1).split() if x != ".")
                st["cr"][-1][1].append(need(texts, key(t), "production")[0])
                st["cr"][-1][2].append(toks(m.group(2)))
                continue
            if sub == "Shifts":
                m = re.match(r"^(.*) -> State<(\d+)>$", b); st["sh"].append([need(tok, m.group(1), "token"), int(m.group(2))])
            elif sub == "Reductions":
                m = re.match(r"^(.*?): (reduce|accept) (.*)$", b)
                k = need(texts, key(m.group(3)), "production")
                if (m.group(2) == "accept") != (k == [1]): raise BadReport("accept or reduce: %r" % ln)
                for x in m.group(1).split(" | "): st["red"].append([need(tok, x, "token"), k[0]])
            elif sub == "Go To Table":
                m = re.match(r"^(.*) -> State<(\d+)>$", b); st["go"].append([need(nt, m.group(1), "non terminal"), int(m.group(2))])
    done()
    if partial: return {"st": out["st"], "same": same}
    # the first production that is shown as each is
    out["same"] = [min(v) for k in range(1, len(out["prods"]) + 1) for v in texts.values() if k in v]
    return out
