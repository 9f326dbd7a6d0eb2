"""A study: grammars put through the real generators, the generated parsers compiled and run, and
everything they did validated against the specification (GramTrace)."""
import json, os, random
from core import *
from gram import *
from pipe import *
from report import *

def keyfields(d, ks): return {k: d[k] for k in ks}

class Study:
    def __init__(self, chk, sub="p", module="GramTrace"):
        self.chk, self.module = chk, module
        self.p = Pipe(chk, sub)
        self.gs = []          # (grammar, lib, module name or None)
        self.cases = []
        self.meta = {}
        self.failed = {}
        self.rng = random.Random(chk.seed * 7919 + int(chk.prop[1:]))

    # ---- what the generators say: outcome of each (grammar, lib, options)
    def outcomes(self, items):
        """items: [(gram, lib, dict(sr, rr, isr, irr, out, report, order, alias))] -> outcomes; adds cnt cases when
        counted is wanted by the caller"""
        jobs = []
        for g, lib, o in items:
            jobs.append({"lib": lib, "text": o.get("text") or g.text(lib, random.Random(o.get("tseed", 1)), sr=o.get("sr"), rr=o.get("rr")),
                         "label": "spec", "sr": o.get("isr", False), "rr": o.get("irr", False),
                         "out": o.get("out"), "report": o.get("report")})
        return self.p.gen(jobs), jobs

    def gid(self, g, lib, name=None):
        key = (id(g), lib)
        for k, e in enumerate(self.gs):
            if e[0] is g and e[1] == lib: return k + 1
        self.gs.append((g, lib, name))
        return len(self.gs)

    def count_case(self, g, lib, o, r):
        t = [r["r"], r.get("n", 0) if r["r"] in ("sr", "rr") else 0, r.get("e", 0) if r["r"] in ("sr", "rr") else 0]
        self.add_case({"k": "cnt", "g": self.gid(g, lib), "sr": o.get("sr") or 0, "rr": o.get("rr") or 0,
                       "isr": o.get("isr", False), "irr": o.get("irr", False), "r": t}, "generation with %s" % o)

    def add_case(self, c, note=""):
        c["id"] = len(self.cases) + 1
        self.cases.append(c)
        self.meta[c["id"]] = note
        return c

    # ---- parsers
    def parsers(self, items, report=False):
        """items: [(gram, lib)]: generated with conflicts ignored, compiled. Returns the live ones."""
        its = []
        for k, (g, lib) in enumerate(items):
            n = "%s_%s" % (g.name, lib)
            o = {"isr": True, "irr": True, "out": os.path.join(self.p.dir, n + ".rs"), "tseed": k}
            if report: o["report"] = os.path.join(self.p.dir, n + ".states")
            its.append((g, lib, o))
        res, jobs = self.outcomes(its)
        mods = []
        self.refused = []
        self.text = getattr(self, "text", {})
        for (g, lib, o), r, j in zip(its, res, jobs):
            n = "%s_%s" % (g.name, lib)
            self.text[n] = j["text"]
            if r["r"] == "ok": mods.append((n, o["out"], g.names()))
            else: self.refused.append((g, lib, r, j["text"]))
        self.failed = self.p.compile(mods)
        if self.chk.prop in ("C02", "C06", "C10"):
            # an action or predicate whose references are not what they are said to be may not even compile
            for (g, lib, o), r in zip(its, res):
                n = "%s_%s" % (g.name, lib)
                if n in self.failed and (self.chk.prop != "C06" or g.has_pred()):
                    self.chk.violation("the generated actions do not compile", {"grammar": self.text[n], "lib": lib, "message": self.failed[n]})
        live = []
        for (g, lib, o), r in zip(its, res):
            n = "%s_%s" % (g.name, lib)
            if r["r"] == "ok" and n not in self.failed:
                self.gid(g, lib, n); live.append((g, lib, n))
        self.chk.log("%d parsers generated and compiled (%d refused, %d do not compile)" % (
            len(live), len(self.refused), len(self.failed)))
        return live

    def lexemes(self, g): return [cps(t.lexemes[0]) for t in g.toks]

    def observe(self, live, dump=True, texts=None, lang=None, tables="tab", show=None):
        """texts: f(gram) -> [(text, label, inj)]; lang: f(gram) -> (n, extra) or None"""
        jobs, what = [], []
        for g, lib, n in live:
            if dump:
                jobs.append({"g": n, "op": "dump", "lexemes": self.lexemes(g), "nprods": len(g.prods) + 2,
                             "maxstates": 1200})
                what.append((g, lib, "tab", None))
            for t in (texts(g) if texts else []):
                t = t if isinstance(t, tuple) else (t, "", [])
                j = {"g": n, "op": "run", "t": cps(t[0]), "l": t[1], "inj": [{"t": cps(a), "l": b} for a, b in t[2]]}
                jobs.append(j); what.append((g, lib, "run", j))
            for t in (show(g) if show else []):
                jobs.append({"g": n, "op": "show", "t": cps(t)}); what.append((g, lib, "show", jobs[-1]))
            x = lang(g) if lang else None
            if x:
                jobs.append({"g": n, "op": "lang", "lexemes": self.lexemes(g), "n": x[0], "extra": [[k + 1 for k in w] for w in x[1]]})
                what.append((g, lib, "lang", jobs[-1]))
        res = self.p.run_jobs(jobs)
        for (g, lib, k, j), r in zip(what, res):
            if r.get("skipped"): continue
            gi = self.gid(g, lib)
            if "err" in r:
                # the tables could not even be read out: the lexer does not deliver the declared tokens
                self.chk.violation("tables unreadable", {"grammar": g.show(), "lib": lib, "why": r["err"]}) \
                    if self.chk.prop in ("C03", "C22") else None
                continue
            if k == "tab" and tables == "rep": self.report_case(g, lib, gi, r)
            elif k == "tab": self.add_case({"k": "tab", "g": gi, "dump": r}, "tables")
            elif k == "run": self.add_case({"k": "run", "g": gi, "t": j["t"], "l": j["l"], "inj": j["inj"], "ev": r["ev"], "err": cps(r.get("err2", ""))},
                                           "text %r" % "".join(map(chr, j["t"])))
            elif k == "show":
                if "items" in r: self.add_case({"k": "show", "g": gi, "t": j["t"], "items": r["items"]}, "items of %r" % "".join(map(chr, j["t"])))
                else: self.chk.violation("lexer does not end", {"grammar": g.show(), "lib": lib, "text": "".join(map(chr, j["t"]))})
            elif "acc" in r:
                self.add_case({"k": "lang", "g": gi, "n": j["n"], "acc": r["acc"], "odd": r["odd"],
                               "extra": j["extra"], "got": r["extra"]}, "language up to %d" % j["n"])
                self.chk.count("token_sequences_parsed", r["total"] + len(j["extra"]))
            else:
                self.add_case({"k": "run", "g": gi, "t": [], "l": "", "inj": [], "ev": [{"e": "l"}], "err": []}, "language (does not end)")

    def report_case(self, g, lib, gi, dump):
        path = os.path.join(self.p.dir, "%s_%s.states" % (g.name, lib))
        try:
            rep = parse_report(open(path, encoding="utf-8").read(), g)
        except (BadReport, OSError, AttributeError, KeyError) as e:
            self.chk.violation("report cannot be read", {"grammar": g.show(), "lib": lib, "why": str(e)})
            return
        self.add_case({"k": "rep", "g": gi, "dump": dump, "rep": rep}, "report")

    def conflict_case(self, g, lib, kind, text, note):
        """what was said of the conflicts a specification was refused for"""
        try: rep = parse_report(text, g, True)
        except (BadReport, AttributeError, KeyError) as e:
            self.chk.violation("description of the conflicts cannot be read", {"grammar": g.show(), "lib": lib, "case": note, "why": str(e), "text": text[:2000]})
            return
        self.add_case({"k": "conf", "g": self.gid(g, lib), "c": kind, "rep": rep}, note)

    # ---- pairs of parsers that are to behave identically
    def raw(self, mods, texts):
        """dumps and runs of compiled modules: mods [(grammar, module)], texts {module: [(t, l, inj)]}"""
        jobs, what = [], []
        for g, n in mods:
            jobs.append({"g": n, "op": "dump", "lexemes": self.lexemes(g), "nprods": len(g.prods) + 2, "maxstates": 400})
            what.append((n, "dump"))
            for t in texts.get(n, []):
                jobs.append({"g": n, "op": "run", "t": cps(t[0]), "l": t[1], "inj": [{"t": cps(a), "l": b} for a, b in t[2]]})
                what.append((n, "run"))
        out = {}
        for (n, k), r in zip(what, self.p.run_jobs(jobs)):
            d = out.setdefault(n, {"dump": None, "runs": []})
            if k == "dump": d["dump"] = r
            else: d["runs"].append(r.get("ev", []))
        return out
    def pair(self, prop, gi, a, b, note):
        if "st" not in (a["dump"] or {}) or "st" not in (b["dump"] or {}):
            # (a lexicon the probing text cannot be written in: only the runs are compared)
            probe = "no probe" in (str((a["dump"] or {}).get("err")), str((b["dump"] or {}).get("err")))
            if not probe and ("st" in (a["dump"] or {})) != ("st" in (b["dump"] or {})):
                self.chk.violation("tables unreadable", {"pair": note, "a": str(a["dump"])[:300], "b": str(b["dump"])[:300]})
        else:
            self.add_case({"k": "iso", "g": gi, "prop": prop, "a": a["dump"], "b": b["dump"]}, note)
        for x, y in zip(a["runs"], b["runs"]):
            self.add_case({"k": "same", "g": gi, "prop": prop, "a": x, "b": y}, note)

    # ---- validation
    def validate(self, procs=8, timeout=800, report=True):
        per = {}
        for c in self.cases: per.setdefault(c["g"], []).append(c)
        order = sorted(per, key=lambda k: -(sum(len(c.get("ev", ())) + 20 for c in per[k]) + 15 * len(self.gs[k - 1][0].prods)))
        procs = max(1, min(procs, len(order)))
        bins = [[] for _ in range(procs)]
        load = [0] * procs
        for g in order:
            k = load.index(min(load)); bins[k].append(g)
            load[k] += sum(len(c.get("ev", ())) + 20 for c in per[g]) + 60
        def one(k):
            path = os.path.join(self.p.dir, "cases_%d.json" % k)
            gs, cs = [], []
            for g in bins[k]:
                gr = self.gs[g - 1][0]
                d = gr.tla(); d["lex"] = gr.lexicon(); d["lib"] = self.gs[g - 1][1]
                d["show"] = [cps(gr.shown(t)) for t in gr.toks]
                if self.gs[g - 1][1] == "l":
                    for p in d["prods"]: p["pk"] = "none"
                gs.append(d)
                for c in per[g]:
                    c = dict(c); c["g"] = len(gs); cs.append(c)
            write_json(path, {"gs": gs, "cases": cs})
            return tlc(self.module, work=self.p.dir, extra_env={"CASES": path}, timeout=timeout), len(cs)
        tot = TlcResult(); tot.done = 0
        with ThreadPoolExecutor(procs) as ex:
            for t, n in ex.map(one, range(procs)):
                tot.states += t.states; tot.transitions += t.transitions
                c = [y for y in t.tuples if y and y[0] == "CASES"]
                if not c or c[-1][1] != n: raise ToolError("not every case carried through: %s\n%s" % (c, t.out[-3000:]))
                tot.done += n
                tot.tuples += [y for y in t.tuples if y and y[0] == "BLAME"]
                if any(y and y[0] == "UNPARSED" for y in t.tuples): raise ToolError("unreadable TLC output")
        self.chk.add(tot, tot.done)
        self.chk.log("%d cases of %d grammars validated: %d states" % (tot.done, len(per), tot.states))
        self.blames = tot.tuples
        byid = {c["id"]: c for c in self.cases}
        others = {}
        for b in tot.tuples:
            c = byid[b[2]]
            g, lib, n = self.gs[c["g"] - 1]
            if b[1] != self.chk.prop: others[b[1]] = others.get(b[1], 0) + 1
            if b[1] == self.chk.prop and report:
                self.chk.violation("%s: %s" % (c["k"], b[4]), {"grammar": g.show(), "lib": lib, "case": self.meta[b[2]], "at": b[3],
                                   "specified": b[4], "observed": b[5], "specification": getattr(self, "text", {}).get(n)})
        if others:
            self.chk.cov.setdefault("other_properties_contradicted", {}).update(others)
            self.chk.log("differences that concern other properties: %s" % others)
        for c in self.cases[len(self.cases) // 2:][:400:130]:
            g = self.gs[c["g"] - 1]
            self.chk.sample("%s [%s] %s: %s" % (g[0].show()[:300], g[1], self.meta[c["id"]][:200], brief(c)))
        return tot


def brief(c):
    if c["k"] == "run":
        return " ".join(e["e"] + (str(e.get("l", "")) if e["e"] == "r" else "".join(map(str, e["w"]["t"])) if "w" in e else "") for e in c["ev"][:40])
    if c["k"] == "tab": return "%d states" % len(c["dump"]["st"])
    if c["k"] == "iso": return "%d and %d states" % (len(c["a"]["st"]), len(c["b"]["st"]))
    if c["k"] == "same": return "%d steps each" % len(c["a"])
    if c["k"] == "show": return " ".join(e["k"] + repr("".join(map(chr, e["lex"]))) for e in c["items"][:20])
    if c["k"] == "lang": return "%d sequences accepted" % len(c["acc"])
    if c["k"] == "rep": return "%d states, %d productions" % (len(c["rep"]["st"]), len(c["rep"]["prods"]))
    return str(c.get("r", c["k"]))
