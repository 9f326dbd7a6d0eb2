"""Generating parsers with the real generators, compiling them and running what was generated."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *

NB = 8

def build_gendrv():
    run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "gen", "Cargo.toml")])
    return os.path.join(BUILD, "debug", "gendrv")

class Unending(Exception):
    """the generator does not end, for one specification after the other"""

class Pipe:
    def __init__(self, chk, sub="p"):
        self.chk = chk
        self.dir = os.path.join(chk.work, sub)
        os.makedirs(self.dir, exist_ok=True)
        self.exe = None
        self.names = {}
        self.where = {}
        self.n = 0

    # ---- generation
    def gen_process(self, jobs, exe=None):
        """One process; returns outcomes (with .diag: [(line text)]) for every job; a job that does not end
        is {'r': 'hang'} and the rest is run in further processes."""
        exe = exe or self.exe or build_gendrv()
        self.exe = self.exe or exe
        out = []
        hangs = 0
        while len(out) < len(jobs):
            self.n += 1
            a = os.path.join(self.dir, "jobs_%d_%d.json" % (self.n, id(jobs) % 100000)); b = a + ".out"
            rest = jobs[len(out):]
            write_json(a, rest)
            r = run([exe, a, b], timeout=800, check=False, cwd=self.dir)
            if not os.path.exists(b):     # the process itself died (e.g. stack exhausted): blame the job it was at
                k = len(re.findall(r"^@@JOB", r.err, re.M)) - 1
                res = [{"r": "died"}] if k <= 0 else None
                if res is None:
                    write_json(a, rest[:k]); run([exe, a, b], timeout=800, cwd=self.dir)
                    res = json.load(open(b)) + [{"r": "died"}]
            else:
                res = json.load(open(b))
            segs = re.split(r"^@@JOB \d+\n", r.err, flags=re.M)[1:]
            for i, x in enumerate(res):
                x["diag"] = re.sub(r"\n@@END \d+\n.*", "", segs[i], flags=re.S).strip("\n").split("\n") if i < len(segs) else []
            out += res
            if res and res[-1]["r"] == "hang" and len(jobs) > 1:     # by itself again, lest it was only slow
                again = self.gen_process([jobs[len(out) - 1]], exe)[0]
                if again["r"] != "hang": out[-1] = again
                else: hangs += 1
                if hangs >= 2: raise Unending("the generator does not end, as for:\n%s" % jobs[len(out) - 1].get("text", "")[:1500])
        return out
    def gen(self, jobs, procs=6):
        self.exe = self.exe or build_gendrv()
        parts = chunks(list(enumerate(jobs)), procs) if jobs else []
        out = [None] * len(jobs)
        with ThreadPoolExecutor(max(1, len(parts))) as ex:
            for part, res in zip(parts, ex.map(lambda p: self.gen_process([j for _, j in p]), parts)):
                for (i, _), r in zip(part, res): out[i] = r
        return out

    # ---- compiling
    def compile(self, mods):
        """mods: [(name, path of generated code, names)]. Returns {name: compiler message} of what does not compile."""
        live = {m[0]: m for m in mods}
        failed = {}
        for m in mods: self.names[m[0]] = m[2]
        cost = {m[0]: os.path.getsize(m[1]) for m in mods}
        while True:
            bins = [[] for _ in range(NB)]
            load = [0] * NB
            for n in sorted(live, key=lambda n: -cost[n]):
                k = load.index(min(load)); bins[k].append(n); load[k] += cost[n] + 6000
            self.where = {n: k for k, b in enumerate(bins) for n in b}
            for k, b in enumerate(bins):
                with open(os.path.join(self.dir, "c%d.rs" % k), "w") as f:
                    for n in b:
                        f.write("#[allow(warnings)]\npub mod %s { include!(%s); }\n" % (n, json.dumps(live[n][1])))
                    f.write("fn table() -> Vec<(&'static str, rt::Entry)> { vec![\n%s] }\n" %
                            ",\n".join("(\"%s\", %s::entry())" % (n, n) for n in b))
            r = run(["cargo", "build", "--offline", "--quiet", "--bins", "--keep-going", "--manifest-path",
                     os.path.join(VERIF, "gparse", "Cargo.toml")], extra={"VH_GEN": self.dir, "RUSTFLAGS": "-Awarnings"},
                    check=False, timeout=800)
            if r.returncode == 0: break
            bad = {}
            byfile = {live[n][1]: n for n in live}
            for blk in re.split(r"\n(?=error)", "\n" + r.err):
                if not blk.lstrip().startswith("error"): continue
                for p in re.findall(r"--> (\S+?\.rs):\d+:\d+", blk):
                    if p in byfile: bad.setdefault(byfile[p], blk.strip()[:600])
            if not bad:      # what a module lacks is missed where it is used: its line in the harness
                for k in sorted(set(self.where.values())):
                    src = open(os.path.join(self.dir, "c%d.rs" % k)).read().split("\n")
                    for ln in re.findall(r"/c%d\.rs:(\d+):" % k, r.err):
                        m = re.match(r"(?:pub mod |\(\")(\w+)", src[int(ln) - 1])
                        if m and m.group(1) in live: bad.setdefault(m.group(1), "lacks what a parser has: " + r.err.strip()[:600])
            if not bad: raise ToolError("cannot compile the parser harness\n" + r.err[-5000:])
            for n, msg in bad.items():
                failed[n] = msg; del live[n]
        self.live = live
        self.bin = os.path.join(BUILD, "debug")
        # keep this build's binaries: a later compile() of the same check replaces them
        return failed

    # ---- running
    def run_jobs(self, jobs):
        """jobs: [{g, op, ...}] -> results in order"""
        out = [None] * len(jobs)
        per = {}
        for i, j in enumerate(jobs): per.setdefault(self.where[j["g"]], []).append(i)
        def one(k):
            idx = per[k]
            done = 0
            hangs = 0
            while done < len(idx):
                a = os.path.join(self.dir, "run_%d.json" % k); b = os.path.join(self.dir, "run_%d.out" % k)
                if os.path.exists(b): os.remove(b)
                gs = {jobs[i]["g"] for i in idx[done:]}
                write_json(a, {"jobs": [jobs[i] for i in idx[done:]], "names": {g: self.names[g] for g in gs}})
                r = run([os.path.join(self.bin, "c%d" % k), a, b], timeout=800, check=False)
                if not os.path.exists(b): raise ToolError("parser process died: %s" % r.err[-1000:])
                res = json.load(open(b))
                segs = re.split(r"\n@@RUN \d+\n", r.err)[1:]
                for i, x in enumerate(res):
                    x["err2"] = segs[i] if i < len(segs) else ""
                    if x.get("ev") and x["ev"][-1]["e"] == "l": x["err2"] = ""        # (what it wrote has no end)
                    if "hang" in x: x.update({"ev": [{"e": "l"}]}); hangs += 1
                    out[idx[done]] = x; done += 1
                if hangs >= 2:
                    while done < len(idx): out[idx[done]] = {"skipped": True}; done += 1
        with ThreadPoolExecutor(max(1, len(per))) as ex:
            list(ex.map(one, per))
        return out
