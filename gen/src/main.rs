//! Runs generation jobs in one process: gendrv JOBS.json OUT.json  (diagnostics on stderr after
//! a line "@@JOB k").  A job: {lib, text, label, sr, rr, out, report} or {par: [jobs]} (concurrently).
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::mpsc;
use std::time::Duration;

macro_rules! drive {
    ($name:ident, $lib:ident) => {
        fn $name(j: &Value) -> Value {
            use $lib::grammar::{Error, Grammar, Specification};
            fn refused(e: Error) -> Value {
                match e {
                    Error::TooManyErrors(n) => json!({"r": "errors", "n": n}),
                    Error::UndefinedSymbols(n) => json!({"r": "undefined", "n": n}),
                    Error::UnexpectedSRConflicts(n, e, d) => json!({"r": "sr", "n": n, "e": e, "d": d}),
                    Error::UnexpectedRRConflicts(n, e, d) => json!({"r": "rr", "n": n, "e": e, "d": d}),
                }
            }
            if let Some(how) = j["api"].as_str() {
                // the library's own entry points
                use $lib::{Error as E, ParserGenerator};
                let made = if how == "path" {
                    ParserGenerator::new(j["path"].as_str().unwrap())
                } else {
                    ParserGenerator::try_from(j["text"].as_str().unwrap())
                };
                return match made {
                    Ok(g) => match g.write_parser_code_to_file(j["out"].as_str().unwrap()) {
                        Ok(_) => json!({"r": "ok"}),
                        Err(e) => json!({"r": "io", "msg": e.to_string()}),
                    },
                    Err(E::SpecificationError(e)) => json!({"r": "syntax", "msg": e.to_string()}),
                    Err(E::IoError(e)) => json!({"r": "unreadable", "msg": e.to_string()}),
                    Err(E::GrammarError(e)) => refused(e),
                };
            }
            let text = j["text"].as_str().unwrap();
            let spec = match Specification::new(text, j["label"].as_str().unwrap_or("text")) {
                Ok(s) => s,
                Err(e) => return json!({"r": "syntax", "msg": e.to_string()}),
            };
            let errors = spec.error_count;
            let b = |k: &str| j[k].as_bool().unwrap_or(false);
            let g = match Grammar::try_from((spec, b("sr"), b("rr"))) {
                Ok(g) => g,
                Err(e) => return refused(e),
            };
            if let Some(o) = j["out"].as_str() {
                if let Err(e) = g.write_parser_code_to_file(Path::new(o)) {
                    return json!({"r": "io", "msg": e.to_string()});
                }
            }
            if let Some(o) = j["report"].as_str() {
                if let Err(e) = g.write_description(Path::new(o)) {
                    return json!({"r": "io", "msg": e.to_string()});
                }
            }
            json!({"r": "ok", "n": errors})
        }
    };
}
drive!(drive_l, lalr1_lib);
drive!(drive_a, alalr1_lib);

fn one(j: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if j["lib"].as_str() == Some("a") {
            drive_a(j)
        } else {
            drive_l(j)
        }
    }));
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".into()
            };
            json!({"r": "panic", "msg": m})
        }
    }
}

fn job(j: &Value) -> Value {
    if let Some(p) = j["par"].as_array() {
        std::thread::scope(|sc| {
            let hs: Vec<_> = p
                .iter()
                .map(|x| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || one(x)).unwrap()
                })
                .collect();
            json!({"r": "par", "par": hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()})
        })
    } else {
        one(j)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let jobs = input.as_array().unwrap().clone();
    let n = jobs.len();
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for (k, j) in jobs.iter().enumerate() {
                eprintln!("\n@@JOB {k}");
                let v = job(j);
                eprintln!("\n@@END {k}");
                if tx.send(v).is_err() {
                    return;
                }
            }
        })
        .unwrap();
    let mut out = vec![];
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(v) => out.push(v),
            Err(_) => {
                out.push(json!({"r": "hang"}));
                break;
            }
        }
    }
    std::fs::write(&args[2], serde_json::to_string(&out).unwrap()).unwrap();
    std::process::exit(0);
}
