"""The generators as programs and as a library (C21, C25)."""
import os, random, re, shutil, subprocess
from core import *
from pipe import Unending
from study import *
from gramchecks import varied, classic
from concurrent.futures import ThreadPoolExecutor

DIRS = ["", "sub", "no"]           # "no" does not exist

def real(p):
    """a path <<dir, stem, extension>> as a file name"""
    return os.path.join(p[0], p[1] + ("." + p[2] if p[2] else ""))

class Programs:
    def __init__(self, chk):
        self.chk = chk
        self.st = Study(chk)
        self.p, self.rng = self.st.p, self.st.rng
        self.bin = build_generators()
        self.ids, self.K, self.bytes = {}, [], []
        self.pool = {}
        self.cases, self.meta = [], {}
        self.root = os.path.join(chk.work, "cli")
        os.makedirs(self.root, exist_ok=True)

    # ---- contents
    def content(self, b, l=None, a=None):
        if b not in self.ids:
            self.ids[b] = len(self.K) + 1
            self.bytes.append(b)
            self.K.append({"l": {"cls": "syntax"}, "a": {"cls": "syntax"}})
        i = self.ids[b]
        if l: self.K[i - 1]["l"] = l
        if a: self.K[i - 1]["a"] = a
        return i
    def contents(self, n):
        """specifications of every kind; what is made of the sound ones comes from the library with all conflicts
        ignored (its tables are the business of C03 to C06)"""
        rng = self.rng
        gs = [g for g in varied(rng, n, "c") + classic(rng) if not g.has_pred()]
        jobs, info = [], []
        for k, g in enumerate(gs):
            sr, rr = rng.choice([(None, None), (0, 0), (1, None), (None, 1), (2, 1), (rng.randint(0, 6), rng.randint(0, 4))])
            text = g.text("l", random.Random(rng.random()), sr=sr, rr=rr)
            for d in "la":
                o = os.path.join(self.p.dir, "k%d%s" % (k, d))
                jobs.append({"lib": d, "text": text, "label": "spec", "sr": True, "rr": True, "out": o + ".rs", "report": o + ".states"})
                info.append((g, sr or 0, rr or 0, text, o))
        res = self.p.gen(jobs)
        sound = {}
        for i in range(0, len(jobs), 2):
            if any(r["r"] != "ok" for r in res[i:i + 2]): continue
            e = {}
            for d, j in (("l", i), ("a", i + 1)):
                g, sr, rr, text, o = info[j]
                e[d] = {"cls": "sound", "g": self.st.gid(g, "l", None), "dsr": sr, "drr": rr,
                        "code": self.content(open(o + ".rs", "rb").read()), "rep": self.content(open(o + ".states", "rb").read())}
            sound[self.content(text.encode(), e["l"], e["a"])] = (text, g, sr, rr)
        # the same with the numbers declared that there are
        more = []
        for c, (text, g, sr, rr) in list(sound.items()):
            r = self.p.gen_process([{"lib": "a", "text": g.text("a", random.Random(1), sr=0, rr=0), "label": "spec", "sr": s, "rr": not s} for s in (False, True)])
            ns, nr = [x.get("n", 0) if x["r"] in ("sr", "rr") else 0 for x in r]
            if (ns or nr) and (ns, nr) != (sr, rr):
                t = re.sub(r"%(shift_reduce|reduce_reduce)\s+\d+\s*", "", text)
                k = t.index("%%")
                if k >= 0 and "%target" in t[:k]:
                    t = t[:k] + "%%shift_reduce %d %%reduce_reduce %d\n" % (ns, nr) + t[k:]
                    l, a = [dict(self.K[c - 1][d], dsr=ns, drr=nr) for d in "la"]
                    more.append(self.content(t.encode(), l, a))
                    # off by one of one kind
                    for q, (x, y) in enumerate([(ns + 1, nr), (ns, nr + 1)]):
                        u = t.replace("%%shift_reduce %d %%reduce_reduce %d\n" % (ns, nr), "%%shift_reduce %d %%reduce_reduce %d\n" % (x, y))
                        l, a = [dict(self.K[c - 1][d], dsr=x, drr=y) for d in "la"]
                        more.append(self.content(u.encode(), l, a))
        self.pool["sound"] = list(sound) + more * 2
        bad = {"syntax": [], "errors": [], "undefined": [], "junk": []}
        texts = [v[0] for v in sound.values()]
        for t in texts:
            i = t.index("%%") + 2
            dup = t[:i] + '\n%token Qq1 "zq"\n%token Qq1 "zr"\n' + t[i:]
            und = t.rstrip()[:-1] + "| Undefined1 .\n"
            both = dup.rstrip()[:-1] + "| Undefined1 .\n"
            for cls, u in (("syntax", t[:i]), ("syntax", t.rstrip()[:-1]), ("syntax", t + "@"), ("syntax", ""), ("errors", dup),
                           ("undefined", und), ("undefined", both)):
                bad[cls].append(self.content(u.encode(), {"cls": cls}, {"cls": cls}))
            b = t.encode()
            j = rng.randint(0, len(b))
            bad["junk"].append(self.content(b[:j] + b"\xff" + b[j:], {"cls": "junk"}, {"cls": "junk"}))
        # a missing file is pulled in
        for t in texts[:3]:
            u = t.replace("%%", '%%\n%inject "nowhere.txt" .\n', 1)
            bad["errors"].append(self.content(u.encode(), {"cls": "errors"}, {"cls": "errors"}))
        for k, v in bad.items(): self.pool[k] = sorted(set(v))
    def pick(self):
        r = self.rng.random()
        k = "sound" if r < .65 else self.rng.choice(["syntax", "errors", "undefined", "junk"])
        return self.rng.choice(self.pool[k])

    # ---- the files of a case
    def snapshot(self, d):
        out = []
        for sub in ("", "sub"):
            for f in sorted(os.listdir(os.path.join(d, sub))):
                if sub == "" and f == "sub": continue
                p = os.path.join(d, sub, f)
                s, e = (f.rsplit(".", 1) + [""])[:2] if "." in f[1:] else (f, "")
                if os.path.islink(p): c = -2
                elif os.path.isdir(p): c = -1
                else:
                    with open(p, "rb") as h: c = self.content(h.read())
                out.append([[sub, s, e], c])
        return out
    def put(self, d, p, c):
        f = os.path.join(d, real(p))
        self.drop(d, p)
        if c == -1: os.mkdir(f)
        elif c == -2: os.symlink("/dev/full", f)
        else:
            with open(f, "wb") as h: h.write(self.bytes[c - 1])
    def drop(self, d, p):
        f = os.path.join(d, real(p))
        if not f.startswith(self.root): raise ToolError("outside the scratch directory: " + f)
        if os.path.islink(f) or os.path.isfile(f): os.remove(f)
        elif os.path.isdir(f): os.rmdir(f)

    # ---- one run
    def args(self, op, d):
        rng = random.Random(op["seed"])
        sp = lambda p: rng.choice(["", "", "./", d + "/"]) + real(p)
        parts = []
        if op["force"]: parts.append([rng.choice(["-f", "--force"])])
        if op["isr"]: parts.append(["--ignore-sr-conflicts"])
        if op["irr"]: parts.append(["--ignore-rr-conflicts"])
        if op["out"]:
            o = sp(op["out"])
            parts.append(rng.choice([["-o", o], ["-o" + o], ["--output", o], ["--output=" + o]]))
        u = op["use"]
        parts.append([sp(op["spec"])])
        if u == "usage":
            k = rng.randrange(4)
            if k == 0: parts.pop()
            elif k == 1: parts.append(["--nonsense"])
            elif k == 2: parts.append(["another.laps"])
            else: parts += [["-o", "x1.rs"], ["-o", "x2.rs"]]
        if u == "help": parts.append([rng.choice(["--help", "-h", "--version", "-V"])])
        rng.shuffle(parts)
        if op["force"] and op["out"] and rng.random() < .1 and u == "":
            parts = [x for x in parts if x[0] not in ("-f", "--force") and not x[0].startswith(("-o", "--output"))]
            parts.insert(0, ["-fo", sp(op["out"])])
        return [a for x in parts for a in x]
    def run(self, op, d):
        exe = os.path.join(self.bin, "lalr1_gen" if op["l"] == "l" else "alalr1_gen")
        a = self.args(op, d)
        try: r = subprocess.run([exe] + a, cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            self.hangs = getattr(self, "hangs", 0) + 1
            if self.hangs >= 3: raise Unending("%s %s" % (exe, a))
            return {"code": 124, "why": [], "said": False, "names": []}, (a, "does not end")
        err = r.stderr.decode("utf-8", "replace")
        m = re.search(r"Unexpected (shift|reduce)/reduce conflicts: (\d+) expected: (\d+)", err)
        why = [{"shift": "sr", "reduce": "rr"}[m.group(1)], int(m.group(2)), int(m.group(3))] if m else []
        # of the files to be written, those it says something of
        o = op["out"] or ext(op["spec"], "rs")
        names = [p for p in (o, ext(o, "states")) if re.search("(^|[/ '\"])" + re.escape(real(p)) + "['\"]?:", err, re.M)]
        return {"code": r.returncode, "why": why, "said": bool(err.strip()), "names": names}, (a, err[-300:])
    def lib(self, op, d):
        j = {"lib": op["l"], "api": op["how"], "out": os.path.join(d, real(op["out"])), "path": os.path.join(d, real(op["spec"])),
             "text": self.bytes[op["c"] - 1].decode() if op["how"] == "text" else ""}
        r = self.p.gen_process([j])[0]
        return {"r": [r["r"], r.get("n", 0) if r["r"] in ("sr", "rr") else 0, r.get("e", 0)]}, r

    def case(self, fs, ops):
        k = len(self.cases)
        d = os.path.join(self.root, "d%d" % k)
        c = {"id": k + 1, "fs": fs, "ops": ops, "obs": []}
        self.cases.append(c); self.meta[k + 1] = []
        return c, d
    def execute(self, c, d):
        os.makedirs(os.path.join(d, "sub"))
        for p, i in c["fs"]: self.put(d, p, i)
        for op in c["ops"]:
            note = ""
            if op["o"] == "set":
                if op["c"] == 0: self.drop(d, op["p"])
                else: self.put(d, op["p"], op["c"])
                ob = {}
            elif op["o"] == "run": ob, note = self.run(op, d)
            else: ob, note = self.lib(op, d)
            c["obs"].append(dict(ob, fs=self.snapshot(d)))
            self.meta[c["id"]].append(note)
        shutil.rmtree(d)
    def execute_all(self):
        cs = [c for c in self.cases if not c["obs"]]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: self.execute(c, os.path.join(self.root, "d%d" % (c["id"] - 1))), cs))

    def validate(self, procs=8):
        n = max(1, min(procs, len(self.cases) // 30 + 1))
        gs = [g.tla() for g, l, nm in self.st.gs]
        def one(k):
            cs = self.cases[k::n]
            path = os.path.join(self.p.dir, "cli_%d.json" % k)
            write_json(path, {"gs": gs, "cases": cs, "K": self.K, "dirs": ["", "sub"]})
            return tlc("CliTrace", work=self.p.dir, extra_env={"CASES": path}), len(cs)
        with ThreadPoolExecutor(n) as ex: res = list(ex.map(one, range(n)))
        st = 0
        for t, m in res:
            c = [y for y in t.tuples if y and y[0] == "CASES"]
            if not c or c[-1][1] != m: raise ToolError("not every case carried through\n" + t.out[-3000:])
            self.chk.add(t, m); st += t.states
            for b in t.tuples:
                if b[0] == "UNPARSED": raise ToolError("unreadable TLC output")
                if b[0] != "BLAME": continue
                cs = self.cases[b[2] - 1]
                if b[1] == self.chk.prop:
                    self.chk.violation("%s" % b[4], {"at": b[3], "observed": b[5], "op": cs["ops"][b[3] - 1], "before": (cs["obs"][b[3] - 2]["fs"] if b[3] > 1 else cs["fs"]),
                                                     "after": cs["obs"][b[3] - 1], "note": str(self.meta[b[2]][b[3] - 1])[:600],
                                                     "text": self.text_of(cs, b[3] - 1)})
        self.chk.log("%d histories validated: %d states" % (len(self.cases), st))
    def text_of(self, c, k):
        op = c["ops"][k]
        fs = c["obs"][k - 1]["fs"] if k else c["fs"]
        for p, i in fs:
            if p == op.get("spec") and i > 0: return self.bytes[i - 1].decode("utf-8", "replace")[:1500]
        return ""

SPECS = [["", "a", "laps"], ["", "a", "alaps"], ["sub", "b.c", "laps"], ["", "spec", ""], ["", ".laps", ""], ["", "a", "states"], ["", "x\u00e9 y", "txt"]]
def ext(p, e): return p[:2] + [e]
def outs(sp): return [[], ["", "o", "rs"], ["sub", "o", "rs"], ["no", "o", "rs"], ["", "o", "states"], ["", "o", ""], ["sub", "o.p", "rs"], sp, ext(sp, "rs")]

def c21(chk):
    P = Programs(chk)
    rng, q = P.rng, chk.quick
    bg = Background(chk, "CliMC", "CliMC.cfg" if q else "CliMC_thorough.cfg", workers=3 if q else 6)
    P.contents(14 if q else 40)
    chk.cov["contents"] = {k: len(v) for k, v in P.pool.items()}
    # every combination of options and of what is there before, each with one specification of every kind
    combos = []
    for kind in ("sound", "sound", "sound", "errors", "undefined", "syntax", "junk", "absent", "dir"):
        for fl in range(8):
            for oi in range(9):
                for ob in (0, 0, 1, -1, -2):
                    for rb in (0, 0, 1, -1, -2): combos.append((kind, fl, oi, ob, rb))
    rng.shuffle(combos)
    for kind, fl, oi, ob, rb in combos[:2500 if q else len(combos)]:
        sp = rng.choice(SPECS)
        fs = {}
        if kind == "dir": fs[tuple(sp)] = -1
        elif kind != "absent": fs[tuple(sp)] = rng.choice(P.pool[kind])
        out = outs(sp)[oi]
        o = out or ext(sp, "rs")
        for p, s in ((o, ob), (ext(o, "states"), rb)):
            if s == -2 and p == sp: s = -1          # (reading it would never end)
            if s and tuple(p) not in fs and p[0] != "no": fs[tuple(p)] = s if s < 0 else P.pick()
        op = {"o": "run", "l": rng.choice("la"), "force": bool(fl & 1), "isr": bool(fl & 2), "irr": bool(fl & 4), "out": out, "spec": sp,
              "use": rng.choices(["", "usage", "help"], [30, 1, 1])[0], "seed": rng.random()}
        P.case([[list(p), c] for p, c in fs.items()], [op])
    chk.count("single_runs", len(P.cases))
    histories(P, 150 if q else 2500, False)
    finish(P, bg)

def histories(P, n, lib):
    rng = P.rng
    for _ in range(n):
        sps = rng.sample(SPECS, 2)
        fs = [[sp, P.pick()] for sp in sps]
        ops = []
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            sp = rng.choice(sps)
            if r < .25:
                p = rng.choice([sp, ext(sp, "rs"), ext(sp, "states"), ["", "o", "rs"]])
                ops.append({"o": "set", "p": p, "c": rng.choice([0, P.pick(), P.pick(), P.pick(), -1 if p is not sp else 0])})
            elif lib and r < .75:
                ops.append({"o": "lib", "l": rng.choice("la"), "how": rng.choice(["path", "text"]), "spec": sp, "c": rng.choice(P.pool["sound"] if rng.random() < .6 else [i for k in P.pool if k != "junk" for i in P.pool[k]]),
                            "out": rng.choice([ext(sp, "rs"), ["", "o", "rs"], ["sub", "o", "states"], ["no", "o", "rs"], ["", "o", ""]])})
            else:
                ops.append({"o": "run", "l": rng.choice("la"), "force": rng.random() < .5, "isr": rng.random() < .4, "irr": rng.random() < .4,
                            "out": rng.choice([[], [], ["", "o", "rs"], ["sub", "o", ""], ext(sp, "rs"), ["", "a", "laps"]]), "spec": sp, "use": "", "seed": rng.random()})
        P.case(fs, ops)
    P.chk.count("histories", n)

def finish(P, bg=None):
    chk = P.chk
    P.execute_all()
    out = {}
    for c in P.cases:
        for op, ob in zip(c["ops"], c["obs"]):
            if op["o"] != "set": k = "%s:%s" % (op["o"], ob.get("code", ob.get("r", [0])[0])); out[k] = out.get(k, 0) + 1
    chk.cov["outcomes"] = out
    for c in P.cases[::max(1, len(P.cases) // 5)][:5]: chk.sample(str({"before": c["fs"], "ops": c["ops"], "codes": [o.get("code") for o in c["obs"]]})[:500])
    P.validate()
    if bg: bg.join()

def c25(chk):
    P = Programs(chk)
    rng, q = P.rng, chk.quick
    P.contents(20 if q else 60)
    every = [i for k in P.pool if k != "junk" for i in P.pool[k]]
    for c in sorted(set(every + P.pool["junk"])):
        for l in "la":
            sp = rng.choice(SPECS)
            ops = [{"o": "lib", "l": l, "how": how, "spec": sp, "c": c if c in every else every[0], "out": rng.choice([["", "q", "rs"], ext(sp, "rs"), ["sub", "q", ""], ["", "dir", ""]])}
                   for how in ("path", "text")]
            rng.shuffle(ops)
            P.case([[sp, c], [["", "dir", ""], -1]], ops)
    histories(P, 80 if q else 1500, True)
    finish(P)
