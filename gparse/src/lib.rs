//! What generated parsers are run with: attributes that record how they came about, a wrapper
//! around a generated parser that records every step the real driver takes, and dumping of the
//! tables in a generated parser.
pub use serde_json::{self, json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Debug, Clone, Default)]
pub struct Attr {
    pub id: u32,
    pub v: u32,
}

#[derive(Default)]
pub struct Log {
    pub ev: Vec<Value>,
    pub last_id: u32,
    pub steps: usize,
    pub toks: HashMap<String, u32>,
    pub nts: HashMap<String, u32>,
    pub inj: Vec<(String, String)>,
    pub act: Option<(u32, u32, Vec<u32>)>,
    /// dumping: answer of each predicate, and those asked
    pub script: Option<u32>,
    pub asked: Vec<u32>,
    pub dumping: bool,
    /// errors are also reported in the default way
    pub std: bool,
}
thread_local! { pub static LOG: RefCell<Log> = RefCell::new(Log::default()); }

pub fn log<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
fn new_id() -> u32 {
    log(|l| {
        l.last_id += 1;
        l.last_id
    })
}
fn push(v: Value) {
    log(|l| l.ev.push(v))
}
pub struct Loop;
fn step() {
    let n = log(|l| {
        l.steps += 1;
        l.steps
    });
    if n > 20000 {
        std::panic::panic_any(Loop);
    }
}
pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn text_of(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn tok_no<T: Debug>(t: &T) -> i64 {
    let k = format!("{t:?}");
    log(|l| l.toks.get(&k).map(|x| *x as i64).unwrap_or(-1))
}
pub fn nt_no<N: Debug>(t: &N) -> i64 {
    let k = format!("{t:?}");
    log(|l| l.nts.get(&k).map(|x| *x as i64).unwrap_or(-1))
}

fn tok_json<T: Copy + Ord + Debug + Display>(t: &lexan::Token<T>) -> Value {
    json!({"k": "tok", "t": [tok_no(t.tag())], "lex": cps(t.lexeme()), "label": t.location().label(),
           "line": t.location().line_number(), "off": t.location().offset()})
}
fn lexerr_json<T: Copy + Ord + Debug + Display>(e: &lexan::Error<T>) -> Value {
    let (k, t, s, l) = match e {
        lexan::Error::UnexpectedText(s, l) => ("unx", vec![], s.as_str(), l),
        lexan::Error::AmbiguousMatches(ts, s, l) => ("amb", ts.0.iter().map(tok_no).collect(), s.as_str(), l),
        lexan::Error::AdvancedWhenEmpty(l) => ("awe", vec![], "", l),
    };
    json!({"k": k, "t": t, "lex": cps(s), "label": l.label(), "line": l.line_number(), "off": l.offset()})
}
fn set_json<T: Copy + Ord + Debug + Display>(s: &lalr1::OrderedSet<T>) -> Value {
    let mut v: Vec<i64> = s.iter().map(tok_no).collect();
    v.sort();
    json!(v)
}
fn with(mut v: Value, k: &str, x: Value) -> Value {
    v[k] = x;
    v
}

impl<T: Copy + Ord + Debug + Display> From<lexan::Token<T>> for Attr {
    fn from(t: lexan::Token<T>) -> Self {
        let id = new_id();
        push(json!({"e": "s", "w": tok_json(&t), "id": id}));
        Attr { id, v: tok_no(t.tag()).max(0) as u32 }
    }
}

/// called by semantic actions: production p, `$$` so far, `$1`...
pub fn act(p: u32, lhs: &Attr, rhs: &[&Attr]) -> Attr {
    let v = (p + rhs.iter().enumerate().map(|(k, a)| (k as u32 + 1) * a.v).sum::<u32>()) % 8;
    let init = lhs.id;
    let args = rhs.iter().map(|a| a.id).collect();
    log(|l| l.act = Some((p, init, args)));
    Attr { id: new_id(), v }
}
/// an action that looks but leaves `$$` alone
/// a piece of text in an action has to arrive in the generated code as it was written
pub fn text(t: &str, cps: &[u32]) {
    assert!(t.chars().map(|c| c as u32).eq(cps.iter().copied()), "the text of an action was changed: {t:?}");
}
pub fn see(p: u32, lhs: &Attr, rhs: &[&Attr]) {
    let init = lhs.id;
    let args = rhs.iter().map(|a| a.id).collect();
    log(|l| l.act = Some((p, init, args)));
}
/// the next text to be injected and its label
pub fn inj() -> (String, String) {
    log(|l| if l.inj.is_empty() { (String::new(), String::new()) } else { l.inj.remove(0) })
}
/// a predicate of production p
pub fn pred<T: Debug>(p: u32, kind: &str, arg: &[u32], rhs: &[&Attr], la: &T) -> bool {
    if log(|l| l.dumping) {
        return log(|l| {
            l.asked.push(p);
            l.script == Some(p)
        });
    }
    match kind {
        "la" => arg.contains(&(tok_no(la).max(0) as u32)),
        "par" => (rhs.iter().map(|a| a.v).sum::<u32>() + arg[0]) % 2 == 0,
        "first" => !rhs.is_empty() && rhs[0].v % 4 == arg[0],
        "last" => !rhs.is_empty() && rhs[rhs.len() - 1].v % 4 == arg[0],
        "true" => true,
        _ => false,
    }
}

pub struct Entry {
    pub run: fn(&Value) -> Value,
    pub lang: fn(&Value) -> Value,
    pub dump: fn(&Value) -> Value,
    pub show: fn(&Value) -> Value,
}

pub fn payload(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

fn names(g: &Value) {
    log(|l| {
        *l = Log::default();
        for (k, n) in g["toks"].as_array().unwrap().iter().enumerate() {
            l.toks.insert(n.as_str().unwrap().to_string(), k as u32);
        }
        for x in g["nts"].as_array().unwrap() {
            l.nts.insert(x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap() as u32);
        }
    })
}

pub struct W<P>(pub P);
/// drives the real driver only to get hold of a parse stack to evaluate actions with
pub struct Probe<P, F>(pub P, pub F);

macro_rules! dialect {
    ($m:ident, $lib:ident, [$($at:ident)?]) => {
        pub mod $m {
            use super::*;
            use $lib::{Error, Parser, ReportError, Action};

            fn err_json<T: Copy + Ord + Debug + Display>(e: &Error<T>) -> Value {
                match e {
                    Error::LexicalError(x, s) => with(lexerr_json(x), "exp", set_json(s)),
                    Error::SyntaxError(t, s) => with(tok_json(t), "exp", set_json(s)),
                }
            }
            impl<T: Copy + Ord + Debug + Display> From<Error<T>> for Attr {
                fn from(e: Error<T>) -> Self {
                    let id = new_id();
                    push(json!({"e": "e", "w": err_json(&e), "id": id}));
                    Attr { id, v: 0 }
                }
            }
            impl<T: Copy + Ord + Debug + Display, P> ReportError<T> for W<P> {
                fn report_error(&mut self, e: &Error<T>) {
                    step();
                    let mut w = with(err_json(e), "msg", cps(&e.to_string()));
                    // what is done about it by default (which is to die of an ambiguity)
                    let amb = w["k"] == "amb";
                    if log(|l| l.std) {
                        struct Default_;
                        impl<T: Copy + Ord + Debug + Display> ReportError<T> for Default_ {}
                        let r = catch_unwind(AssertUnwindSafe(|| ReportError::<T>::report_error(&mut Default_, e)));
                        w["died"] = json!(r.is_err() != amb);
                    }
                    push(json!({"e": "rep", "w": w}));
                }
            }
            impl<T, N, P> Parser<T, N, Attr> for W<P>
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                P: Parser<T, N, Attr>,
            {
                fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<T> {
                    self.0.lexical_analyzer()
                }
                fn next_action(&self, state: u32, $($at: &alalr1::ParseStack<T, N, Attr>,)? t: &lexan::Token<T>) -> Action {
                    step();
                    self.0.next_action(state, $($at,)? t)
                }
                fn production_data(p: u32) -> (N, usize) {
                    P::production_data(p)
                }
                fn goto_state(lhs: &N, s: u32) -> u32 {
                    P::goto_state(lhs, s)
                }
                fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, a: Vec<Attr>, f: F) -> Attr {
                    let (lhs, len) = P::production_data(p);
                    let ids: Vec<u32> = a.iter().map(|x| x.id).collect();
                    log(|l| l.act = None);
                    let r = self.0.do_semantic_action(p, a, f);
                    let (act, init, args) = log(|l| l.act.take()).unwrap_or((0, 0, vec![]));
                    push(json!({"e": "r", "l": nt_no(&lhs), "n": len, "rhs": ids, "act": act, "init": init,
                                "args": args, "id": r.id}));
                    r
                }
                fn viable_error_recovery_states(t: &T) -> lalr1::OrderedSet<u32> {
                    P::viable_error_recovery_states(t)
                }
                fn error_goto_state(s: u32) -> u32 {
                    P::error_goto_state(s)
                }
                fn look_ahead_set(s: u32) -> lalr1::OrderedSet<T> {
                    P::look_ahead_set(s)
                }
            }

            pub fn run<T, N, P>(j: &Value) -> Value
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                P: Parser<T, N, Attr> + Default,
            {
                names(&j["names"]);
                log(|l| l.std = true);
                log(|l| l.inj = j["inj"].as_array().map(|v| v.iter()
                    .map(|x| (text_of(&x["t"]), x["l"].as_str().unwrap().to_string())).collect()).unwrap_or_default());
                let text = text_of(&j["t"]);
                let label = j["l"].as_str().unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| W(P::default()).parse_text(&text, label)));
                match r {
                    Ok(Ok(())) => push(json!({"e": "z", "ok": true})),
                    Ok(Err(e)) => push(json!({"e": "z", "ok": false, "w": err_json(&e)})),
                    Err(x) => {
                        if x.is::<Loop>() {
                            log(|l| l.ev.truncate(60));
                            push(json!({"e": "l"}))
                        } else {
                            push(json!({"e": "p", "m": payload(&x)}))
                        }
                    }
                }
                json!({"ev": log(|l| std::mem::take(&mut l.ev))})
            }

            /// which sequences of at most n tokens (given by lexemes) are accepted
            pub fn lang<T, N, P>(j: &Value) -> Value
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                P: Parser<T, N, Attr> + Default,
            {
                let lex: Vec<String> = j["lexemes"].as_array().unwrap().iter().map(text_of).collect();
                let n = j["n"].as_u64().unwrap() as usize;
                let extra: Vec<Vec<usize>> = j["extra"].as_array().map(|v| v.iter().map(|w| w.as_array().unwrap()
                    .iter().map(|x| x.as_u64().unwrap() as usize).collect()).collect()).unwrap_or_default();
                let try_one = |w: &[usize]| -> u32 {
                    names(&j["names"]);
                    let text = w.iter().map(|t| lex[*t - 1].clone()).collect::<Vec<_>>().join(" ");
                    let r = catch_unwind(AssertUnwindSafe(|| W(P::default()).parse_text(&text, "")));
                    let reported = log(|l| l.ev.iter().any(|e| e["e"] == "rep"));
                    match r {
                        Ok(Ok(())) if !reported => 1,
                        Ok(Err(_)) if reported => 0,
                        Ok(_) => 2,
                        Err(_) => 3,
                    }
                };
                let mut acc = vec![];
                let mut odd: Vec<u32> = vec![];
                let mut total = 0;
                let mut level: Vec<Vec<usize>> = vec![vec![]];
                for k in 0..=n {
                    let mut next = vec![];
                    for w in &level {
                        total += 1;
                        match try_one(w) {
                            1 => acc.push(w.clone()),
                            0 => (),
                            c => odd.push(c),
                        }
                        if k < n {
                            for t in 1..=lex.len() {
                                let mut x = w.clone();
                                x.push(t);
                                next.push(x);
                            }
                        }
                    }
                    level = next;
                }
                let ex: Vec<u32> = extra.iter().map(|w| try_one(w)).collect();
                json!({"acc": acc, "odd": odd, "total": total, "extra": ex})
            }

            fn toks_of<T, N, A, P>(p: &P, j: &Value) -> Result<Vec<lexan::Token<T>>, String>
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                A: Default + From<lexan::Token<T>> + From<Error<T>>,
                P: Parser<T, N, A>,
            {
                let lex: Vec<String> = j["lexemes"].as_array().unwrap().iter().map(text_of).collect();
                let mut out = vec![];
                let mut st = p.lexical_analyzer().token_stream(&lex[0], "");
                st.advance();
                out.push(st.front().map_err(|e| e.to_string())?);
                for l in &lex {
                    out.push(p.lexical_analyzer().token_stream(l, "").front().map_err(|e| e.to_string())?);
                }
                for (k, t) in out.iter().enumerate() {
                    if tok_no(t.tag()) != k as i64 {
                        return Err(format!("{:?} read as {:?}", t.lexeme(), t.tag()));
                    }
                }
                Ok(out)
            }

            /// the tables as the generated code gives them; acts: production -> marker of its action
            pub fn dump_with<T, N, A, P>(p: &P, j: &Value, marks: &HashMap<u32, u32>,
                                         act: &dyn Fn(u32, &lexan::Token<T>) -> Action) -> Value
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                A: Default + From<lexan::Token<T>> + From<Error<T>>,
                P: Parser<T, N, A>,
            {
                let toks = match toks_of(p, j) {
                    Ok(t) => t,
                    Err(e) => return json!({"err": e}),
                };
                let nprods = j["nprods"].as_u64().unwrap() as u32;
                let mut pd: HashMap<u32, (i64, usize)> = HashMap::new();
                let mut nts: Vec<(i64, N)> = vec![];
                for id in 0..nprods + 8 {
                    if let Ok((lhs, len)) = catch_unwind(AssertUnwindSafe(|| P::production_data(id))) {
                        let n = nt_no(&lhs);
                        pd.insert(id, (n, len));
                        if !nts.iter().any(|x| x.0 == n) {
                            nts.push((n, lhs));
                        }
                    }
                }
                nts.sort_by_key(|x| x.0);
                let mut index: HashMap<u32, usize> = HashMap::new();
                let mut order: Vec<u32> = vec![0];
                index.insert(0, 1);
                let mut states = vec![];
                let mut at = 0;
                let maxs = j["maxstates"].as_u64().unwrap_or(400) as usize;
                while at < order.len() && at < maxs {
                    let s = order[at];
                    at += 1;
                    let mut target = |t: u32| -> usize {
                        let l = order.len() + 1;
                        *index.entry(t).or_insert_with(|| {
                            order.push(t);
                            l
                        })
                    };
                    let cell = |r: std::thread::Result<Action>, target: &mut dyn FnMut(u32) -> usize| -> Value {
                        match r {
                            Ok(Action::Shift(t)) => json!({"k": "s", "to": target(t), "l": 0, "n": 0, "act": 0, "id": 0}),
                            Ok(Action::Reduce(id)) => {
                                let (l, n) = pd.get(&id).copied().unwrap_or((-1, 0));
                                json!({"k": "r", "to": 0, "l": l, "n": n, "act": marks.get(&id).copied().unwrap_or(0), "id": id})
                            }
                            Ok(Action::Accept) => json!({"k": "acc", "to": 0, "l": 0, "n": 0, "act": 0, "id": 0}),
                            Ok(Action::SyntaxError) => json!({"k": "err", "to": 0, "l": 0, "n": 0, "act": 0, "id": 0}),
                            Err(_) => json!({"k": "pan", "to": 0, "l": 0, "n": 0, "act": 0, "id": 0}),
                        }
                    };
                    let mut row = vec![];
                    for t in &toks {
                        log(|l| { l.dumping = true; l.script = None; l.asked.clear() });
                        let base = cell(catch_unwind(AssertUnwindSafe(|| act(s, t))), &mut target);
                        let asked = log(|l| l.asked.clone());
                        let mut ch = vec![];
                        for q in &asked {
                            log(|l| l.script = Some(*q));
                            let c = cell(catch_unwind(AssertUnwindSafe(|| act(s, t))), &mut target);
                            ch.push(with(c, "p", json!(q)));
                        }
                        log(|l| l.dumping = false);
                        row.push(with(base, "ch", json!(ch)));
                    }
                    let mut gotos = vec![];
                    for (n, x) in &nts {
                        if let Ok(t) = catch_unwind(AssertUnwindSafe(|| P::goto_state(x, s))) {
                            gotos.push(json!([n, target(t)]));
                        }
                    }
                    let eg = catch_unwind(AssertUnwindSafe(|| P::error_goto_state(s))).ok().map(|t| target(t)).unwrap_or(0);
                    let exp = catch_unwind(AssertUnwindSafe(|| set_json(&P::look_ahead_set(s)))).unwrap_or(json!([-1]));
                    states.push(json!({"a": row, "g": gotos, "eg": eg, "exp": exp, "id": s}));
                }
                let via: Vec<Value> = toks.iter().map(|t| {
                    match catch_unwind(AssertUnwindSafe(|| P::viable_error_recovery_states(t.tag()))) {
                        Ok(v) => json!(v.iter().filter_map(|s| index.get(s)).copied().collect::<Vec<usize>>()),
                        Err(_) => json!([0]),
                    }
                }).collect();
                let mut pds: Vec<_> = pd.iter().map(|(k, v)| json!([k, v.0, v.1])).collect();
                pds.sort_by_key(|x| x[0].as_u64());
                json!({"st": states, "via": via, "pd": pds})
            }

            pub fn marks<T, N, P>(j: &Value) -> HashMap<u32, u32>
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                P: Parser<T, N, Attr> + Default,
            {
                let mut m = HashMap::new();
                for id in 0..j["nprods"].as_u64().unwrap() as u32 + 8 {
                    if let Ok((_, len)) = catch_unwind(AssertUnwindSafe(|| P::production_data(id))) {
                        log(|l| l.act = None);
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            P::default().do_semantic_action(id, vec![Attr::default(); len], |_, _| ())
                        }));
                        if let Some((a, _, _)) = log(|l| l.act.take()) {
                            m.insert(id, a);
                        }
                    }
                }
                m
            }

            pub fn show<T, N, P>(j: &Value) -> Value
            where
                T: Copy + Ord + Debug + Display,
                N: Ord + Debug + Display,
                P: Parser<T, N, Attr> + Default,
            {
                names(&j["names"]);
                let p = P::default();
                let mut out = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut st = p.lexical_analyzer().token_stream(&text_of(&j["t"]), "");
                    for _ in 0..200 {
                        match st.front() {
                            Ok(t) => out.push(with(tok_json(&t), "show", cps(&t.tag().to_string()))),
                            Err(e) => {
                                let v = lexerr_json(&e);
                                let over = v["k"] == "awe";
                                out.push(with(v, "show", json!([])));
                                if over {
                                    break;
                                }
                            }
                        }
                        st.advance();
                    }
                }));
                if r.is_err() {
                    out.push(json!({"k": "pan", "t": [], "lex": [], "label": "", "line": 0, "off": 0, "show": []}));
                }
                json!({"items": out})
            }
        }
    };
}
dialect!(l, lalr1, []);
dialect!(a, alalr1, [at]);


pub fn dump_l<T, N, P>(j: &Value) -> Value
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    P: lalr1::Parser<T, N, Attr> + Default,
{
    names(&j["names"]);
    let p = P::default();
    let m = l::marks::<T, N, P>(j);
    l::dump_with(&p, j, &m, &|s, t| p.next_action(s, t))
}

impl<T: Copy + Ord + Debug + Display, P, F> alalr1::ReportError<T> for Probe<P, F> {
    fn report_error(&mut self, _: &alalr1::Error<T>) {}
}
impl<T, N, A, P, F> alalr1::Parser<T, N, A> for Probe<P, F>
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    A: Default + From<lexan::Token<T>> + From<alalr1::Error<T>>,
    P: alalr1::Parser<T, N, A>,
    F: Fn(&P, &alalr1::ParseStack<T, N, A>),
{
    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<T> {
        self.0.lexical_analyzer()
    }
    fn next_action(&self, _state: u32, at: &alalr1::ParseStack<T, N, A>, t: &lexan::Token<T>) -> alalr1::Action {
        if t.lexeme().is_empty() {
            (self.1)(&self.0, at);
            alalr1::Action::Accept
        } else {
            alalr1::Action::Shift(0)
        }
    }
    fn production_data(p: u32) -> (N, usize) {
        P::production_data(p)
    }
    fn goto_state(lhs: &N, s: u32) -> u32 {
        P::goto_state(lhs, s)
    }
    fn viable_error_recovery_states(_: &T) -> lalr1::OrderedSet<u32> {
        lalr1::OrderedSet::new()
    }
    fn look_ahead_set(_: u32) -> lalr1::OrderedSet<T> {
        lalr1::OrderedSet::new()
    }
}

/// evaluates f with a parser and a parse stack on which `text` has been pushed token by token
pub fn probe<T, N, A, P, R>(p: P, text: &str, f: impl Fn(&P, &alalr1::ParseStack<T, N, A>) -> R) -> Option<R>
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    A: Default + From<lexan::Token<T>> + From<alalr1::Error<T>>,
    P: alalr1::Parser<T, N, A>,
{
    let out = RefCell::new(None);
    let mut pr = Probe(p, |p: &P, at: &alalr1::ParseStack<T, N, A>| {
        let r = f(p, at);
        *out.borrow_mut() = Some(r);
    });
    let _ = alalr1::Parser::parse_text(&mut pr, text, "");
    drop(pr);
    out.into_inner()
}

pub fn dump_a<T, N, P>(j: &Value) -> Value
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    P: alalr1::Parser<T, N, Attr> + Default,
{
    names(&j["names"]);
    let m = a::marks::<T, N, P>(j);
    let first = text_of(&j["lexemes"][0]);
    let text = vec![first; 40].join(" ");
    let r = catch_unwind(AssertUnwindSafe(|| {
        probe(P::default(), &text, |p, at| a::dump_with(p, j, &m, &|s, t| p.next_action(s, at, t)))
    }));
    match r {
        Ok(Some(v)) => v,
        Ok(None) => json!({"err": "no probe"}),
        Err(e) => json!({"err": payload(&e)}),
    }
}

#[macro_export]
macro_rules! entry_l {
    () => {
        #[derive(Default)]
        pub struct P;
        impl lalr1::ReportError<AATerminal> for P {}
        pub fn entry() -> rt::Entry {
            rt::Entry {
                run: rt::l::run::<AATerminal, AANonTerminal, P>,
                lang: rt::l::lang::<AATerminal, AANonTerminal, P>,
                show: rt::l::show::<AATerminal, AANonTerminal, P>,
                dump: rt::dump_l::<AATerminal, AANonTerminal, P>,
            }
        }
    };
}
#[macro_export]
macro_rules! entry_a {
    () => {
        #[derive(Default)]
        pub struct P;
        impl alalr1::ReportError<AATerminal> for P {}
        pub fn entry() -> rt::Entry {
            rt::Entry {
                run: rt::a::run::<AATerminal, AANonTerminal, P>,
                lang: rt::a::lang::<AATerminal, AANonTerminal, P>,
                show: rt::a::show::<AATerminal, AANonTerminal, P>,
                dump: rt::dump_a::<AATerminal, AANonTerminal, P>,
            }
        }
    };
}

/// reads JOBS.json [{g, op, ...}], writes OUT.json; stops at a job that does not end
pub fn main_with(table: Vec<(&'static str, Entry)>) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let input: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let jobs = input["jobs"].as_array().unwrap().clone();
    let gnames = input["names"].clone();
    let n = jobs.len();
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let table: HashMap<&str, Entry> = table.into_iter().collect();
            for (n, j) in jobs.iter().enumerate() {
                eprint!("\n@@RUN {n}\n");
                let g = j["g"].as_str().unwrap();
                let e = &table[g];
                let mut j = j.clone();
                j["names"] = gnames[g].clone();
                let f = match j["op"].as_str().unwrap() {
                    "run" => e.run,
                    "lang" => e.lang,
                    "dump" => e.dump,
                    _ => e.show,
                };
                let v = match catch_unwind(AssertUnwindSafe(|| f(&j))) {
                    Ok(v) => v,
                    Err(x) => json!({"err": payload(&x)}),
                };
                if tx.send(v).is_err() {
                    return;
                }
            }
        })
        .unwrap();
    let mut out = vec![];
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(15)) {
            Ok(v) => out.push(v),
            Err(_) => {
                out.push(json!({"hang": true}));
                break;
            }
        }
    }
    std::fs::write(&args[2], serde_json::to_string(&out).unwrap()).unwrap();
    std::process::exit(0);
}

/// the tables of a parser with attributes of its own (the generators' front ends)
pub fn dump_own_l<T, N, A, P>(j: &Value) -> Value
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    A: Default + From<lexan::Token<T>> + From<lalr1::Error<T>>,
    P: lalr1::Parser<T, N, A> + Default,
{
    names(&j["names"]);
    let p = P::default();
    l::dump_with(&p, j, &HashMap::new(), &|s, t| p.next_action(s, t))
}
pub fn dump_own_a<T, N, A, P>(j: &Value) -> Value
where
    T: Copy + Ord + Debug + Display,
    N: Ord + Debug + Display,
    A: Default + From<lexan::Token<T>> + From<alalr1::Error<T>>,
    P: alalr1::Parser<T, N, A> + Default,
{
    names(&j["names"]);
    let r = catch_unwind(AssertUnwindSafe(|| {
        probe(P::default(), j["probe"].as_str().unwrap(), |p, at| {
            a::dump_with(p, j, &HashMap::new(), &|s, t| p.next_action(s, at, t))
        })
    }));
    match r {
        Ok(Some(v)) => v,
        Ok(None) => json!({"err": "no probe"}),
        Err(e) => json!({"err": payload(&e)}),
    }
}
