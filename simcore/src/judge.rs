//! Oracles for generated parsers: what a recorded parse had to look like.
use crate::analysis;
use crate::cfg::Sym;
use crate::earley;
use crate::gen::{Class, Made};
use crate::host::*;
use crate::ll;
use crate::lr::Ev;
use crate::plan::*;

pub struct Unit {
    pub name: String,
    pub made: Made,
    pub class: Class,
    /// "rust" or "cpp"
    pub lang: &'static str,
    pub best: Vec<usize>,
    pub table: Option<Vec<Vec<Option<usize>>>>,
    pub curated: bool,
}

impl Unit {
    pub fn new(name: String, made: Made, class: Class, lang: &'static str) -> Unit {
        let best = earley::shortest(&made.cfg);
        let table = if class == Class::Ll1 { analysis::ll1_table(&made.cfg, &made.an) } else { None };
        Unit { name, made, class, lang, best, table, curated: false }
    }
    pub fn acceptance_prop(&self) -> &'static str {
        match (self.lang, self.class) {
            (_, Class::Glr) => "C10",
            (_, Class::Ll1) => "C13",
            ("rust", _) => "C08",
            _ => "C12",
        }
    }
    pub fn event_prop(&self) -> &'static str {
        match (self.lang, self.class) {
            (_, Class::Glr) => "C11",
            (_, Class::Ll1) => "C13",
            ("rust", _) => "C09",
            _ => "C12",
        }
    }
    pub fn terms(&self) -> usize {
        self.made.cfg.tokens.len()
    }
    pub fn show(&self, t: usize) -> String {
        self.made.cfg.sym_name(Sym::T(t))
    }
    pub fn show_ev(&self, e: &Ev) -> String {
        match e {
            Ev::Shift(t, d) => format!("token {} (data {})", self.show(*t), d),
            Ev::Reduce(r) => {
                if self.lang == "rust" {
                    self.made.cfg.rust_names[*r].clone()
                } else {
                    self.made.cfg.cpp_names[*r].clone()
                }
            }
            Ev::Enter(n) => format!("enter_{}", self.made.cfg.nt_name(*n)),
            Ev::Exit(n) => format!("exit_{}", self.made.cfg.nt_name(*n)),
        }
    }
    pub fn show_outcome(&self, o: &Outcome) -> String {
        match o {
            Outcome::Unexpected { got, data, expected } => format!(
                "unexpected token {}{}, expected [{}]",
                if *got == u32::MAX as usize { "<different tokens>".into() } else { self.show(*got) },
                data.map(|d| format!(" (data {})", d)).unwrap_or_default(),
                expected.iter().map(|t| self.show(*t)).collect::<Vec<_>>().join(" ")
            ),
            o => format!("{:?}", o),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    /// stable name of the kind of violation, kept by minimisation
    pub class: String,
    pub msg: String,
}

pub struct Expect {
    pub accepted: bool,
    pub events: Vec<Ev>,
    pub error_at: Option<usize>,
    /// exact set of expected tokens (canonical LR(1) only)
    pub expected: Option<analysis::TSet>,
    pub pairs: Vec<(usize, usize)>,
    /// more than one derivation: outside the claim
    pub skip: bool,
}

pub fn reference(u: &Unit, w: &[usize]) -> Expect {
    let m = &u.made;
    match u.class {
        Class::Lr0 | Class::Lalr | Class::Lr1 => {
            let r = m.lr.as_ref().unwrap().run(&m.cfg, w);
            Expect {
                accepted: r.accepted,
                events: r.events,
                error_at: r.error_at,
                expected: (u.class == Class::Lr1).then_some(r.expected),
                pairs: r.pairs,
                skip: false,
            }
        }
        Class::Ll1 => {
            let r = ll::run(&m.cfg, u.table.as_ref().unwrap(), w);
            let p = m.lr.as_ref().unwrap().run(&m.cfg, w);
            Expect {
                accepted: r.accepted,
                events: r.events,
                error_at: r.error_at,
                expected: None,
                pairs: p.pairs,
                skip: false,
            }
        }
        Class::Glr => {
            let lr = m.lr.as_ref().unwrap();
            if lr.lr1 {
                let r = lr.run(&m.cfg, w);
                return Expect {
                    accepted: r.accepted,
                    events: r.events,
                    error_at: r.error_at,
                    expected: None,
                    pairs: r.pairs,
                    skip: false,
                };
            }
            let input: Vec<Sym> = w.iter().map(|t| Sym::T(*t)).collect();
            let c = earley::chart(&m.cfg, &m.an, &input);
            if c.accepted {
                let mut k = earley::Counter::new(&m.cfg, w);
                let n = k.total();
                if n != 1 {
                    return Expect { accepted: true, events: vec![], error_at: None, expected: None, pairs: vec![], skip: true };
                }
                return Expect { accepted: true, events: k.events(), error_at: None, expected: None, pairs: vec![], skip: false };
            }
            // shifts up to the error are certain, reductions are not
            let e = c.viable;
            let events = w[..e].iter().enumerate().map(|(i, t)| Ev::Shift(*t, i)).collect();
            Expect { accepted: false, events, error_at: Some(e), expected: None, pairs: vec![], skip: false }
        }
    }
}

fn first_difference(u: &Unit, want: &[Ev], got: &[Ev]) -> String {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let s = |e: Option<&Ev>| e.map(|e| u.show_ev(e)).unwrap_or("nothing".into());
            return format!("visitor event {}: expected {}, got {}", i, s(want.get(i)), s(got.get(i)));
        }
    }
    "no difference".into()
}

/// What is wrong with the text of a C++ parser's exception about a token.
fn cpp_message(u: &Unit, m: &str, want: usize, exact: Option<&analysis::TSet>) -> Option<(&'static str, String)> {
    let rest = m.strip_prefix("Unexpected token ")?;
    let names: Vec<&str> = rest.split('\'').skip(1).step_by(2).collect();
    let name = |t: usize| if t == u.terms() { "<EOF>".to_string() } else { u.show(t) };
    let (got, expected) = names.split_first()?;
    if *got != name(want) {
        return Some(("wrong-error-token", format!("reported {:?} but the first token that cannot continue a sentence is {}", m, name(want))));
    }
    if expected.contains(got) {
        return Some(("wrong-expected", format!("the failing token is among the expected ones: {:?}", m)));
    }
    let mut have: Vec<String> = expected.iter().map(|s| s.to_string()).collect();
    have.sort();
    let mut all: Vec<String> = exact?.iter().map(|t| name(*t)).collect();
    all.sort();
    (have != all).then(|| ("wrong-expected", format!("{:?}; tokens that could continue: {:?}", m, all)))
}

/// Judges a parse without injected failure.
pub fn judge(u: &Unit, ep: &Episode, h: &EpHist, x: &Expect, out: &mut Vec<Viol>) {
    if x.skip {
        return;
    }
    let w = &ep.tokens;
    let acc = u.acceptance_prop();
    let evp = u.event_prop();
    let events = h.events();
    let mut viol = |prop: &'static str, class: &str, msg: String| {
        out.push(Viol { prop, class: class.to_string(), msg });
    };
    // acceptance
    let mut decided = true;
    match (&h.outcome, x.accepted) {
        (Outcome::Accept, true) => {}
        (Outcome::Accept, false) => {
            decided = false;
            viol(acc, "accepts-non-sentence", format!("accepted a stream whose token {} cannot continue a sentence", x.error_at.unwrap()));
        }
        (Outcome::Unexpected { .. }, true) | (Outcome::Error(_), true) => {
            decided = false;
            viol(acc, "rejects-sentence", format!("rejected a sentence: {}", u.show_outcome(&h.outcome)));
        }
        (Outcome::Unexpected { got, data, expected }, false) => {
            let e = x.error_at.unwrap();
            let want = w.get(e).copied().unwrap_or(u.terms());
            if *got != want {
                viol(acc, "wrong-error-token", format!("reported {} but the first token that cannot continue a sentence is {} (position {})", u.show_outcome(&h.outcome), u.show(want), e));
            } else if data.map_or(false, |d| d != e as u64) {
                viol(acc, "wrong-error-data", format!("reported data {} of the failing token instead of {}", data.unwrap(), e));
            } else if expected.contains(got) {
                viol(acc, "wrong-expected", format!("the failing token is among the expected ones: {}", u.show_outcome(&h.outcome)));
            } else if let Some(s) = &x.expected {
                let have: analysis::TSet = expected.iter().copied().collect();
                if have != *s {
                    viol(acc, "wrong-expected", format!("{}; tokens that could continue: [{}]", u.show_outcome(&h.outcome), s.iter().map(|t| u.show(*t)).collect::<Vec<_>>().join(" ")));
                }
            }
        }
        (Outcome::Error(m), false) if u.lang == "cpp" => {
            let e = x.error_at.unwrap();
            let want = w.get(e).copied().unwrap_or(u.terms());
            if let Some((class, msg)) = cpp_message(u, m, want, x.expected.as_ref()) {
                viol(acc, class, msg);
            }
        }
        (o, _) => {
            decided = false;
            viol(acc, "bad-outcome", format!("the parse of a {} ended with {:?}", if x.accepted { "sentence" } else { "non-sentence" }, o));
        }
    }
    // events
    let shifts = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::Shift(..))).count();
    if !decided {
        // the decision is judged above; tokens must still come once, in order, with their data
        if let Err(m) = order(&events, w, u.terms()) {
            viol(evp, "token-events", m);
        }
    } else if x.accepted {
        if events != x.events {
            viol(evp, "events", first_difference(u, &x.events, &events));
        }
    } else if u.class == Class::Glr && !u.made.lr.as_ref().unwrap().lr1 {
        // an error: what was delivered must be the beginning of some derivation
        match earley::replay(&u.made.cfg, w, &events) {
            Err(m) => viol(evp, "events", m),
            Ok(form) => {
                if shifts(&events) > x.error_at.unwrap() || !earley::viable_form(&u.made.cfg, &u.made.an, &form) {
                    viol(evp, "events", "the delivered events are not the beginning of a derivation".to_string());
                }
            }
        }
    } else {
        let last = x.events.iter().rposition(|e| matches!(e, Ev::Shift(..))).map_or(0, |i| i + 1);
        let glr = u.class == Class::Glr;
        if !glr && (events.len() < last || events[..last] != x.events[..last]) {
            viol(evp, "events", first_difference(u, &x.events[..last], &events[..last.min(events.len())]));
        } else if glr && events[..events.len().min(last)] != x.events[..events.len().min(last)] {
            viol(evp, "events", first_difference(u, &x.events[..events.len().min(last)], &events[..events.len().min(last)]));
        } else if events.len() > last {
            let rest = &events[last..];
            match u.class {
                Class::Lr1 => viol(evp, "events", format!("{} follows although the next token was already wrong", u.show_ev(&rest[0]))),
                Class::Ll1 => {
                    let want = &x.events[last..];
                    if rest.len() > want.len() || rest != &want[..rest.len()] {
                        viol(evp, "events", first_difference(u, &x.events, &events));
                    }
                }
                _ => match earley::replay(&u.made.cfg, w, &events) {
                    Err(m) => viol(evp, "events", m),
                    Ok(form) => {
                        if shifts(rest) > 0 || !earley::viable_form(&u.made.cfg, &u.made.an, &form) {
                            viol(evp, "events", "the events before the error are not the beginning of a derivation".to_string());
                        }
                    }
                },
            }
        }
    }
    // reading discipline
    discipline(u, ep, h, x.error_at, &mut viol);
}

/// Each token event is the next token of the stream.
fn order(ev: &[Ev], w: &[usize], end: usize) -> Result<(), String> {
    let mut k = 0;
    for e in ev {
        if let Ev::Shift(t, d) = e {
            let want = w.get(k).copied().unwrap_or(end);
            if *d != k || *t != want {
                return Err(format!("token event {} has data {}", k, d));
            }
            k += 1;
        }
    }
    Ok(())
}

pub fn discipline(u: &Unit, ep: &Episode, h: &EpHist, error_at: Option<usize>, viol: &mut dyn FnMut(&'static str, &str, String)) {
    let len = ep.tokens.len();
    let mut delivered = 0;
    for (_, r) in &h.recs {
        match r {
            Rec::Ev(Ev::Shift(..)) => delivered += 1,
            Rec::Pull(k) => {
                if *k > len {
                    viol("C14", "read-after-end", "a token was requested after the end of the input".to_string());
                    return;
                }
                if error_at.map_or(false, |e| *k > e) {
                    viol("C14", "read-after-error", format!("token {} was requested although token {} cannot continue a sentence", k, error_at.unwrap()));
                    return;
                }
                if u.class != Class::Glr && delivered < *k {
                    viol("C14", "read-ahead", format!("token {} was requested before token {} was delivered", k, delivered));
                    return;
                }
            }
            _ => {}
        }
    }
}

/// Judges a parse that may have been hit by an injected failure, against the parse of the same
/// stream by a fresh parser without failures.
pub fn judge_failure(u: &Unit, ep: &Episode, h: &EpHist, fresh: &EpHist, first: bool, out: &mut Vec<Viol>) {
    let mut viol = |class: &str, msg: String| out.push(Viol { prop: "C15", class: class.to_string(), msg });
    if fresh.outcome == Outcome::Runaway {
        return;
    }
    let at = h.recs.iter().position(|r| matches!(r.1, Rec::Inject(_)));
    match at {
        None => {
            if !h.same(fresh) {
                let d = if h.outcome != fresh.outcome {
                    format!("ended with {}, a fresh parser with {}", u.show_outcome(&h.outcome), u.show_outcome(&fresh.outcome))
                } else {
                    first_difference(u, &fresh.events(), &h.events())
                };
                viol(if first { "differs" } else { "reuse-differs" }, format!("a parser that was used before behaves differently from a fresh one: {}", d));
            }
        }
        Some(i) => {
            let id = if let Rec::Inject(x) = h.recs[i].1 { x } else { 0 };
            let inj = ep.inject.as_ref().unwrap();
            let want = if inj.as_err { Outcome::SourceError(id) } else { Outcome::Unwound(id) };
            if h.outcome != want {
                viol("failure-lost", format!("failure {} was injected but the caller got {}", id, u.show_outcome(&h.outcome)));
            }
            if i + 1 != h.recs.len() {
                viol("activity-after-failure", format!("{:?} after the failure", h.recs[i + 1].1));
            }
            // before the failure nothing differs
            let before: Vec<&Rec> = h.recs[..i].iter().map(|r| &r.1).collect();
            let same = before.len() <= fresh.recs.len() && before.iter().zip(&fresh.recs).all(|(a, b)| **a == b.1);
            if !same {
                viol("differs-before-failure", format!("before the failure: {}", first_difference(u, &fresh.events(), &h.events())));
            }
        }
    }
}
