"""Common machinery: building the harness, running TLC, reporting, evidence."""
import json, os, re, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, ".build"))

def env(extra=None):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=BUILD, HOME=os.environ.get("HOME", "/root"))
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(extra or {})
    return e

class ToolError(Exception):
    pass

def run(cmd, timeout=600, cwd=None, extra=None, check=True, **kw):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env(extra), timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % " ".join(map(str, cmd)))
    r.out = r.stdout.decode("utf-8", "replace") if isinstance(r.stdout, bytes) else r.stdout
    r.err = r.stderr.decode("utf-8", "replace") if isinstance(r.stderr, bytes) else r.stderr
    if check and r.returncode != 0:
        raise ToolError("%s failed (%d)\n%s\n%s" % (" ".join(map(str, cmd)), r.returncode, r.out[-3000:], r.err[-6000:]))
    return r

def build_harness(bins=("lexdrv",)):
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    run(cmd)
    return os.path.join(BUILD, "debug")

def build_generators():
    """The two command line generators, from /repo's working tree."""
    run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
         "-p", "lalr1_gen", "-p", "alalr1_gen"])
    return os.path.join(BUILD, "debug")

TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")

class TlcResult:
    def __init__(self):
        self.states = 0; self.transitions = 0; self.tuples = []; self.out = ""; self.violated = None

def parse_tuples(out):
    """TLC's PrintT of tuples: yields python lists for lines << ... >> (may span lines)."""
    res = []
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith("<<"):
                buf = line
            else:
                continue
        else:
            buf += " " + line.strip()
        if balanced(buf):
            res.append(buf)
            buf = None
        elif len(buf) > 200000:
            buf = None
    return [tla_value(b) for b in res]

def balanced(s):
    d = 0; i = 0; n = len(s); instr = False
    while i < n:
        c = s[i]
        if instr:
            if c == "\\": i += 1
            elif c == '"': instr = False
        elif c == '"': instr = True
        elif s.startswith("<<", i): d += 1; i += 1
        elif s.startswith(">>", i): d -= 1; i += 1
        i += 1
    return d == 0 and not instr

class _P:
    def __init__(self, s): self.s = s; self.i = 0
    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \n\t": self.i += 1
    def val(self):
        self.ws(); s = self.s
        if s.startswith("<<", self.i):
            self.i += 2; return self.items(">>")
        c = s[self.i]
        if c == "{": self.i += 1; return self.items("}")
        if c == "[":
            self.i += 1; d = {}
            while True:
                self.ws()
                if s[self.i] == "]": self.i += 1; return d
                if s[self.i] == ",": self.i += 1; continue
                m = re.compile(r"[A-Za-z_0-9]+").match(s, self.i); k = m.group(0); self.i = m.end()
                self.ws(); assert s.startswith("|->", self.i), s[self.i:self.i+20]; self.i += 3
                d[k] = self.val()
        if c == '"':
            j = self.i + 1; out = ""
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1; out += {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[j], s[j])
                else: out += s[j]
                j += 1
            self.i = j + 1; return out
        if c == "(":   # function (a :> b @@ c :> d)
            self.i += 1; d = {}
            while True:
                self.ws()
                if s[self.i] == ")": self.i += 1; return d
                if s.startswith("@@", self.i): self.i += 2; continue
                k = self.val(); self.ws(); assert s.startswith(":>", self.i); self.i += 2
                d[str(k)] = self.val()
        m = re.compile(r"-?\d+|TRUE|FALSE|[A-Za-z_]\w*").match(s, self.i)
        self.i = m.end(); t = m.group(0)
        return {"TRUE": True, "FALSE": False}.get(t, t if not re.match(r"-?\d", t) else int(t))
    def items(self, close):
        r = []
        while True:
            self.ws()
            if self.s.startswith(close, self.i): self.i += len(close); return r
            if self.s[self.i] == ",": self.i += 1; continue
            r.append(self.val())

def tla_value(s):
    try:
        return _P(s).val()
    except Exception:
        return ["UNPARSED", s]

def tlc(module, cfg=None, work=None, extra_env=None, timeout=800, workers=1, heap="3g", args=(), ok=(0,)):
    """Runs TLC on spec/<module>.tla; returns TlcResult. Invariant violations are exit 12/13."""
    work = work or os.path.join(VERIF, ".work")
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "meta_%s_%d_%d" % (module, os.getpid(), time.monotonic_ns()))
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(extra_env or {})
    r = run(cmd, timeout=timeout, cwd=work, extra=e, check=False)
    shutil.rmtree(meta, ignore_errors=True)
    t = TlcResult()
    t.out = r.out
    t.rc = r.returncode
    m = TLC_STATS.findall(r.out)
    if m:
        t.transitions, t.states = int(m[-1][0]), int(m[-1][1])
    t.tuples = parse_tuples(r.out)
    if r.returncode not in ok:
        raise ToolError("TLC %s rc=%d\n%s\n%s" % (module, r.returncode, r.out[-6000:], r.err[-2000:]))
    return t

def write_json(path, v):
    with open(path, "w") as f:
        json.dump(v, f, separators=(",", ":"))

def chunks(seq, n):
    n = max(1, min(n, len(seq)))
    out = [[] for _ in range(n)]
    for i, x in enumerate(seq):
        out[i % n].append(x)
    return out

def trace_validate(module, cases, work, procs=8, timeout=800, heap="3g", var="CASES", cfg=None):
    """Splits cases over several TLC processes. Returns merged TlcResult; checks that every case
    was carried through (the specification prints <<"CASES", done, total>>)."""
    os.makedirs(work, exist_ok=True)
    parts = chunks(cases, procs)
    def one(i):
        p = os.path.join(work, "%s_%d.json" % (module, i))
        write_json(p, parts[i])
        return tlc(module, cfg=cfg, work=work, extra_env={var: p}, timeout=timeout, heap=heap)
    tot = TlcResult()
    tot.done = 0
    with ThreadPoolExecutor(len(parts)) as ex:
        for i, t in enumerate(ex.map(one, range(len(parts)))):
            tot.states += t.states; tot.transitions += t.transitions
            tot.tuples += [x for x in t.tuples if x and x[0] not in ("CASES",)]
            c = [x for x in t.tuples if x and x[0] == "CASES"]
            if not c or c[-1][1] != c[-1][2] or c[-1][2] != len(parts[i]):
                raise ToolError("TLC did not carry every case through: %s\n%s" % (c, t.out[-3000:]))
            tot.done += c[-1][1]
    return tot

# --------------------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known = load_known()

    @property
    def quick(self):
        return self.tier == "quick"

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def left(self, total=840):
        return total - (time.time() - self.t0)

    def add(self, t, traces=0):
        self.cov["states"] += t.states
        self.cov["transitions"] += t.transitions
        self.cov["traces_validated_against_impl"] += traces

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(x)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, data):
        """Record a violation (unless a known finding); data must make it reproducible."""
        self.violations.append((what, data))

    def finish(self):
        # known findings
        new = []
        shown = set()
        for what, data in self.violations:
            k = match_known(self.known, self.prop, what, data)
            if k:
                if k not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
                    shown.add(k)
            else:
                new.append((what, data))
        rc = 0
        if new:
            rc = 1
            rdir = os.path.join(VERIF, ".work", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"what": w, "data": d} for w, d in new[:20]], f, indent=1, default=str)
            for w, d in new[:5]:
                print("  %s: %s" % (w, json.dumps(d, default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("done: %d states, %d transitions, %d traces, %d violations" % (
            self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], len(new)))
        sys.stdout.flush()
        return rc

def load_known():
    """known_findings.txt: `open: property=<id> key=<substring of the violation record> <what fails>`;
    lines starting with `fixed:` record repaired defects and suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res

def match_known(known, prop, what, data):
    blob = what + " " + json.dumps(data, default=str)
    for p, key, desc in known:
        if p == prop and key in blob:
            return desc
    return None

class Background:
    """A model-checking run of the specification itself, in the background."""
    def __init__(self, chk, module, cfg=None, workers=4, heap="4g", timeout=800):
        self.chk = chk; self.name = cfg or module
        self.ex = ThreadPoolExecutor(1)
        self.f = self.ex.submit(tlc, module, cfg, chk.work, None, timeout, workers, heap)
    def join(self):
        t = self.f.result()      # ToolError if the specification contradicts itself
        self.chk.add(t)
        self.chk.cov.setdefault("models", {})[self.name] = {"states": t.states, "transitions": t.transitions}
        self.chk.log("model %s: %d states, no property of the specification violated" % (self.name, t.states))
        return t
