//! Runs operation sequences on real token streams and records what they show.
//! lexdrv CASES.json OBS.json
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default)]
struct T(u32);
impl fmt::Display for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}", self.0)
    }
}

fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn loc(k: &str, tags: Vec<u32>, lex: &str, l: &lexan::Location) -> Value {
    json!({"k": k, "tags": tags, "lex": cps(lex), "label": l.label(), "line": l.line_number(),
           "off": l.offset(), "shown": l.to_string(), "place": cps(&l.to_string())})
}
fn item(r: Result<lexan::Token<T>, lexan::Error<T>>) -> Value {
    let msg = match &r {
        Ok(t) => t.to_string(),
        Err(e) => e.to_string(),
    };
    let mut v = match r {
        Ok(t) => loc("tok", vec![t.tag().0], t.lexeme(), t.location()),
        Err(lexan::Error::UnexpectedText(s, l)) => loc("unx", vec![], &s, &l),
        Err(lexan::Error::AmbiguousMatches(ts, s, l)) => {
            loc("amb", ts.0.iter().map(|t| t.0).collect(), &s, &l)
        }
        Err(lexan::Error::AdvancedWhenEmpty(l)) => loc("awe", vec![], "", &l),
    };
    v["msg"] = cps(&msg);
    v
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

fn make(lex: &Value) -> Result<lexan::LexicalAnalyzer<T>, String> {
    let pairs = |key: &str, field: &str| -> Vec<(T, String)> {
        lex[key].as_array().unwrap().iter()
            .map(|x| (T(x["tag"].as_u64().unwrap_or(0) as u32), text(&x[field]))).collect()
    };
    let lits = pairs("lits", "s");
    let regs = pairs("regs", "src");
    let skips = pairs("skips", "src");
    let l: Vec<(T, &str)> = lits.iter().map(|(t, s)| (*t, s.as_str())).collect();
    let r: Vec<(T, &str)> = regs.iter().map(|(t, s)| (*t, s.as_str())).collect();
    let k: Vec<&str> = skips.iter().map(|(_, s)| s.as_str()).collect();
    let end = T(lex["end"].as_u64().unwrap() as u32);
    catch_unwind(AssertUnwindSafe(|| lexan::LexicalAnalyzer::new(&l, &r, &k, end))).map_err(|e| {
        let m = payload(e);
        for kind in ["DuplicateHandle", "DuplicatePattern", "EmptyPattern", "RegexError"] {
            if m.contains(kind) {
                return kind.to_string();
            }
        }
        format!("other: {m}")
    })
}

fn run_ops(an: &lexan::LexicalAnalyzer<T>, ops: &[Value], only: Option<u64>) -> Vec<Value> {
    let mut streams: HashMap<u64, lexan::TokenStream<T>> = HashMap::new();
    let mut out = vec![];
    for op in ops {
        let s = op["s"].as_u64().unwrap();
        if let Some(o) = only {
            if o != s {
                continue;
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| match op["o"].as_str().unwrap() {
            "new" => {
                streams.insert(s, an.token_stream(&text(&op["t"]), op["l"].as_str().unwrap()));
                json!({"k": "unit"})
            }
            "front" => item(streams[&s].front()),
            "adv" => {
                streams.get_mut(&s).unwrap().advance();
                json!({"k": "unit"})
            }
            "fadv" => item(streams.get_mut(&s).unwrap().front_advance()),
            "advf" => item(streams.get_mut(&s).unwrap().advance_front()),
            "empty" => json!({"k": "bool", "b": streams[&s].is_empty()}),
            "inj" => {
                streams.get_mut(&s).unwrap().inject(&text(&op["t"]), op["l"].as_str().unwrap());
                json!({"k": "unit"})
            }
            o => unreachable!("{o}"),
        }));
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                out.push(json!({"k": "panic", "m": payload(e)}));
                if only.is_none() {
                    break;
                }
                break;
            }
        }
    }
    out
}

type Last = Option<(Value, Result<lexan::LexicalAnalyzer<T>, String>)>;

fn run_case(case: &Value, last: &mut Last) -> Value {
    // consecutive cases with the same lexicon share one analyser
    if last.as_ref().map(|(l, _)| l != &case["lex"]).unwrap_or(true) {
        *last = Some((case["lex"].clone(), make(&case["lex"])));
    }
    let an = match &last.as_ref().unwrap().1 {
        Ok(a) => a,
        Err(k) => return json!({"made": k, "obs": [], "solo": [], "thr": []}),
    };
    let ops = case["ops"].as_array().unwrap();
    let obs = run_ops(an, ops, None);
    let n = case["streams"].as_u64().unwrap_or(1);
    let mut solo = vec![];
    let mut thr = vec![];
    if n > 1 {
        for s in 1..=n {
            // alone: an analyser of its own
            let own = make(&case["lex"]).unwrap();
            solo.push(Value::Array(run_ops(&own, ops, Some(s))));
        }
        // all at once, each stream in a thread of its own
        std::thread::scope(|sc| {
            let hs: Vec<_> = (1..=n).map(|s| { sc.spawn(move || run_ops(an, ops, Some(s))) }).collect();
            for h in hs {
                thr.push(Value::Array(h.join().unwrap_or_default()));
            }
        });
    }
    json!({"made": "ok", "obs": obs, "solo": solo, "thr": thr})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let cases: Vec<Value> = input.as_array().unwrap().clone();
    let n = cases.len();
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut last = None;
        for c in &cases {
            if tx.send(run_case(c, &mut last)).is_err() {
                return;
            }
        }
    }).unwrap();
    let mut out = vec![];
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(8)) {
            Ok(v) => out.push(v),
            Err(_) => {
                out.push(json!({"made": "hang", "obs": [], "solo": [], "thr": []}));
                break;
            }
        }
    }
    std::fs::write(&args[2], serde_json::to_string(&out).unwrap()).unwrap();
    std::process::exit(0);
}
