"""The generators' own parsers: the ones they ship with and the ones they generate from their own
specifications, both compiled into copies (by symbolic links) of the generators' crates."""
import json, os, shutil
from core import *
from specfile import *

LIBS = {"l": ("lalr1_lib", "parser.laps", "lalr1"), "a": ("alalr1_lib", "parser.alaps", "alalr1")}
VDUMP = '''
pub mod vdump {
    pub fn vdump(j: &serde_json::Value) -> serde_json::Value {
        rt::dump_own_%s::<_, _, _, crate::grammar::Specification>(j)
    }
}
'''

def spec_path(d): return os.path.join(REPO, LIBS[d][0], "src", LIBS[d][1])
def spec_text(d): return open(spec_path(d), encoding="utf-8").read()

def crate(root, d, variant, parser):
    name, _, _ = LIBS[d]
    dst = os.path.join(root, "fe_%s_%s" % (d, variant))
    src = os.path.join(REPO, name, "src")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.join(dst, "src"))
    for f in os.listdir(src):
        if f in ("lib.rs", "parser.rs"): continue
        os.symlink(os.path.join(src, f), os.path.join(dst, "src", f))
    os.symlink(parser or os.path.join(src, "parser.rs"), os.path.join(dst, "src", "parser.rs"))
    with open(os.path.join(dst, "src", "lib.rs"), "w") as f:
        f.write(open(os.path.join(src, "lib.rs"), encoding="utf-8").read() + VDUMP % d)
    t = open(os.path.join(REPO, name, "Cargo.toml")).read()
    t = t.replace('name = "%s"' % name, 'name = "fe_%s_%s"' % (d, variant), 1)
    t = t.replace('path = "../', 'path = "%s/' % REPO)
    t = t.replace("[dependencies]", '[dependencies]\nrt = { package = "gparse", path = "%s" }\nserde_json = { version = "1", default-features = false, features = ["std"] }' %
                  os.path.join(VERIF, "gparse"), 1)
    with open(os.path.join(dst, "Cargo.toml"), "w") as f: f.write(t + "\n[workspace]\n")
    return dst

def build(chk, regenerated):
    """regenerated: {dialect: path of generated code}; builds a generation driver with the regenerated front ends
    and a program that reads out the tables of both. Returns (driver, dumper) or the compiler's message."""
    root = os.path.join(chk.work, "fe")
    os.makedirs(root, exist_ok=True)
    for d in LIBS:
        crate(root, d, "s", None); crate(root, d, "r", regenerated[d])
    dst = os.path.join(root, "drv")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.join(dst, "src"))
    shutil.copy(os.path.join(VERIF, "gen", "src", "main.rs"), os.path.join(dst, "src", "gendrv_r.rs"))
    with open(os.path.join(dst, "src", "fedump.rs"), "w") as f:
        f.write('''fn main() {
    let a: Vec<String> = std::env::args().collect();
    let js: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    let out: Vec<serde_json::Value> = js.as_array().unwrap().iter().map(|j| match j["w"].as_str().unwrap() {
        "ls" => fe_l_s::vdump::vdump(j),
        "lr" => lalr1_lib::vdump::vdump(j),
        "as" => fe_a_s::vdump::vdump(j),
        _ => alalr1_lib::vdump::vdump(j),
    }).collect();
    std::fs::write(&a[2], serde_json::to_string(&out).unwrap()).unwrap();
}
''')
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write('''[package]
name = "fedrv"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "gendrv_r"
path = "src/gendrv_r.rs"
[[bin]]
name = "fedump"
path = "src/fedump.rs"
[dependencies]
lalr1_lib = { package = "fe_l_r", path = "../fe_l_r" }
alalr1_lib = { package = "fe_a_r", path = "../fe_a_r" }
fe_l_s = { path = "../fe_l_s" }
fe_a_s = { path = "../fe_a_s" }
serde_json = { version = "1", default-features = false, features = ["std"] }
[profile.dev]
debug = 0
incremental = false
''')
    r = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(dst, "Cargo.toml")],
            extra={"RUSTFLAGS": "-Awarnings"}, check=False, timeout=800)
    if r.returncode: return r.err
    return os.path.join(BUILD, "debug", "gendrv_r"), os.path.join(BUILD, "debug", "fedump")

def dumps(chk, exe, d, g):
    """tables of the shipped and the regenerated parser; guarded reductions probed with a name that is and one that
    is not allowable"""
    j = {"names": g.names(), "lexemes": [cps(t.lexemes[0]) for t in g.toks], "nprods": len(g.prods) + 2, "maxstates": 600}
    jobs = []
    for w in "sr":
        for pr in ("foo " * 6, "aab " * 6): jobs.append(dict(j, w=d + w, probe=pr))
    a, b = os.path.join(chk.work, "fe", "j%s.json" % d), os.path.join(chk.work, "fe", "o%s.json" % d)
    write_json(a, jobs)
    run([exe, a, b], timeout=300)
    o = json.load(open(b))
    return [merge(o[0], o[1]), merge(o[2], o[3])]

def merge(x, y):
    """where the outcome of a guard makes a difference, both outcomes: the cell is what the allowable name gives, its
    chain what the other one gives"""
    if "st" not in x or "st" not in y: return x if "st" not in x else y
    num = {s["id"]: k for k, s in enumerate(x["st"])}
    ids = [s["id"] for s in y["st"]]
    for k, s in enumerate(y["st"]):
        if s["id"] not in num: return {"err": "states depend on attributes"}
        t = x["st"][num[s["id"]]]
        for c, e in zip(t["a"], s["a"]):
            same = all(c[f] == e[f] for f in ("k", "l", "n", "id")) and (c["k"] != "s" or x["st"][c["to"] - 1]["id"] == ids[e["to"] - 1])
            if not same: c["ch"] = c["ch"] + [dict({f: e[f] for f in ("k", "l", "n", "id", "act", "to")}, p=0)]
    return x
