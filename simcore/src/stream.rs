//! Checks of generated parsers (C08 to C15): draws grammars, builds their parsers from the
//! working tree, then runs many simulated executions and judges each.
use crate::build::*;
use crate::curated::{self, CURATED};
use crate::earley;
use crate::gen::{self, Class};
use crate::host::*;
use crate::json::J;
use crate::judge::*;
use crate::plan::*;
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::time::Instant;

pub type Units = Arc<Vec<(RunFn, usize)>>;

/// (language, class, quick count, thorough count)
type Mix = &'static [(&'static str, Class, usize, usize)];

fn mix_of(prop: &str) -> (Mix, u64) {
    use Class::*;
    match prop {
        "C08" => (&[("rust", Lr0, 40, 300), ("rust", Lalr, 70, 900), ("rust", Lr1, 60, 800)], 400_000),
        "C09" => (&[("rust", Lr0, 40, 300), ("rust", Lalr, 70, 900), ("rust", Lr1, 60, 800)], 400_000),
        "C10" => (&[("rust", Glr, 300, 1800)], 160_000),
        "C11" => (&[("rust", Glr, 300, 1800)], 160_000),
        "C12" => (&[("cpp", Lr0, 20, 140), ("cpp", Lalr, 45, 360), ("cpp", Lr1, 35, 320)], 300_000),
        "C13" => (&[("cpp", Ll1, 170, 900)], 300_000),
        "C14" => (
            &[
                ("rust", Lr0, 10, 60), ("rust", Lalr, 26, 160), ("rust", Lr1, 20, 120), ("rust", Glr, 45, 260),
                ("cpp", Lr0, 8, 40), ("cpp", Lalr, 18, 90), ("cpp", Lr1, 14, 70), ("cpp", Ll1, 32, 180),
            ],
            300_000,
        ),
        _ => (
            &[
                ("rust", Lr0, 10, 60), ("rust", Lalr, 26, 160), ("rust", Lr1, 20, 120), ("rust", Glr, 50, 300),
                ("cpp", Lr0, 8, 40), ("cpp", Lalr, 18, 90), ("cpp", Lr1, 14, 70), ("cpp", Ll1, 32, 180),
            ],
            160_000,
        ),
    }
}

pub fn draw_units(prop: &str, seed: u64, thorough: bool) -> Vec<Unit> {
    let mut v: Vec<Unit> = vec![];
    let (mix, _) = mix_of(prop);
    for (lang, class, quick, thor) in mix {
        let fixed = CURATED.iter().map(|c| (c.name, c.text.to_string(), c.classes.to_vec()));
        let large = if matches!(prop, "C14" | "C15") { vec![] } else { curated::large() };
        for (name, text, classes) in fixed.chain(large) {
            if classes.contains(class) {
                match gen::examine(&text, *class, 5000) {
                    Ok(mut m) => {
                        m.origin = format!("curated-{}", name);
                        let mut u = Unit::new(format!("{}/{}/{}", lang, class.flag(), name), m, *class, lang);
                        u.curated = true;
                        v.push(u);
                    }
                    Err(e) => die(&format!("curated grammar {}: {}", name, e)),
                }
            }
        }
        let n = if thorough { *thor } else { *quick };
        let base = rng::mix(seed, rng::hash_str(&format!("{}/{}/{}", prop, lang, class.flag())));
        for i in 0..n {
            let mut r = Rng::new(rng::mix(base, i as u64));
            // every way to start a grammar gets its turn, from a place the seed decides
            let m = gen::grammar_of(&mut r, *class, Some((base as usize % gen::kinds() + i) % gen::kinds()));
            let name = format!("{}/{}/{}-{}", lang, class.flag(), m.origin, i);
            v.push(Unit::new(name, m, *class, lang));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// plans

/// Bound on the work of a generalized parse, in stacks looked at over the whole input.
pub const GLR_WORK: usize = 4000;

fn stream(u: &Unit, rng: &mut Rng) -> Episode {
    let cfg = &u.made.cfg;
    let terms = u.terms();
    let lr1 = u.made.lr.as_ref().unwrap().lr1;
    let glr = u.class == Class::Glr;
    let budget = if glr && !lr1 {
        if rng.pct(80) { rng.range(1, 12) } else { rng.range(10, 30) }
    } else {
        match rng.below(100) {
            0..=59 => rng.range(1, 14),
            60..=96 => rng.range(10, 50),
            _ => rng.range(60, if glr { 120 } else { 600 }),
        }
    };
    let long = if glr && !lr1 {
        0
    } else if rng.below(700) == 0 {
        // past every small counter
        *rng.pick(&[300, 2000, if glr { 3000 } else { 70_000 }])
    } else if rng.pct(2) {
        rng.range(60, 600)
    } else {
        0
    };
    let cap = if glr && !lr1 { 40 } else if long > 700 { 3 * long } else { 700 };
    let sentence = |rng: &mut Rng| if long > 0 { gen::long_sentence(cfg, &u.best, rng, long) } else { gen::sentence(cfg, &u.best, rng, budget) };
    let mut ep = Episode::default();
    for attempt in 0.. {
        ep = Episode::default();
        if terms == 0 || attempt > 30 {
            break;
        }
        match rng.below(100) {
            0..=34 => ep.tokens = sentence(rng),
            35..=89 => {
                ep.tokens = sentence(rng);
                let n = if rng.pct(70) { 1 } else { rng.range(2, 4) };
                ep.faults = damage(rng, &mut ep.tokens, terms, n);
            }
            90..=93 => {
                let n = rng.below(8);
                ep.tokens = (0..n).map(|_| rng.below(terms)).collect();
                ep.faults = vec!["noise".into()];
            }
            _ => {
                // two inputs glued together
                ep.tokens = sentence(rng);
                let b = sentence(rng);
                ep.tokens.extend(b);
                ep.faults = vec!["replayed-input".into()];
            }
        }
        if ep.tokens.len() > cap {
            continue;
        }
        if glr && !lr1 {
            let w = &ep.tokens;
            // parsing every alternative separately is exponential: keep to a known amount of work
            if u.made.lr.as_ref().unwrap().alternatives(cfg, w, GLR_WORK).is_none() {
                ep = Episode::default();
                continue;
            }
            let mut k = earley::Counter::new(cfg, w);
            if k.total() > 1 {
                ep = Episode::default();
                continue;
            }
        }
        break;
    }
    ep
}

fn inject(u: &Unit, ep: &mut Episode, rng: &mut Rng) {
    let source = rng.pct(55);
    let n = ep.tokens.len();
    // aim inside the part that is actually parsed
    let index = match rng.below(10) {
        0 => 0,
        1 => n,
        _ => rng.below(if source { n + 1 } else { 2 * n + 2 }),
    };
    let as_err = source && u.class == Class::Glr && rng.pct(60);
    ep.inject = Some(Inject { source, index, as_err });
}

pub fn draw_plan(units: &[Unit], live: &[usize], prop: &str, rng: &mut Rng) -> Plan {
    let mut p = Plan::default();
    let c15 = prop == "C15";
    let nsess = match rng.below(100) {
        0..=78 => 1,
        79..=92 => 2,
        _ => 3,
    };
    let first = *rng.pick(live);
    for s in 0..nsess {
        // often two sessions of the same parser type
        let unit = if s == 0 || rng.pct(40) { first } else { *rng.pick(live) };
        let u = &units[unit];
        let n = if c15 {
            rng.range(1, 4)
        } else if rng.pct(70) {
            1
        } else {
            rng.range(2, 3)
        };
        let mut eps = vec![];
        for _ in 0..n {
            let mut e = stream(u, rng);
            if c15 && rng.pct(65) {
                inject(u, &mut e, rng);
            }
            eps.push(e);
        }
        p.sessions.push(SessPlan { unit, episodes: eps });
    }
    if nsess > 1 {
        if rng.pct(40) {
            let at = rng.below(12);
            p.nested.push((0, at, 1));
        }
        p.sched_seed = Some(rng.next());
    }
    p
}

// ---------------------------------------------------------------------------------------------
// one run

pub struct Ran {
    pub viols: Vec<Viol>,
    pub res: RunResult,
    pub expects: Vec<Vec<Expect>>,
}

pub fn run_plan(units: &[Unit], fns: &Units, plan: &Plan, prop: &str) -> Ran {
    let res = execute(plan, fns);
    let mut viols = vec![];
    let mut expects = vec![];
    for (i, s) in plan.sessions.iter().enumerate() {
        let u = &units[s.unit];
        let mut xs = vec![];
        if let Some(hist) = &res.hist[i] {
            for (k, h) in hist.iter().enumerate() {
                let ep = &s.episodes[k];
                if prop == "C15" {
                    let solo = Plan {
                        sessions: vec![SessPlan {
                            unit: s.unit,
                            episodes: vec![Episode { tokens: ep.tokens.clone(), faults: vec![], inject: None }],
                        }],
                        ..Plan::default()
                    };
                    let f = execute(&solo, fns);
                    let fresh = &f.hist[0].as_ref().unwrap()[0];
                    judge_failure(u, ep, h, fresh, k == 0, &mut viols);
                } else {
                    let x = reference(u, &ep.tokens);
                    judge(u, ep, h, &x, &mut viols);
                    xs.push(x);
                }
            }
        }
        expects.push(xs);
    }
    viols.retain(|v| v.prop == prop);
    Ran { viols, res, expects }
}

fn digest(r: &RunResult) -> u64 {
    rng::hash_str(&format!("{:?}{:?}", r.hist, r.script))
}

#[derive(Default)]
struct Stats {
    n: BTreeMap<String, u64>,
    states: HashSet<u64>,
    plans: HashSet<u64>,
}

impl Stats {
    fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
}

fn account(st: &mut Stats, units: &[Unit], plan: &Plan, ran: &Ran) {
    st.add("runs", 1);
    st.add("steps", ran.res.steps);
    st.add("switches", ran.res.switches);
    if plan.sessions.len() > 1 {
        st.add("runs_with_concurrent_sessions", 1);
    }
    let mut h = 7u64;
    let mut nontrivial = plan.sessions.len() > 1;
    for (i, s) in plan.sessions.iter().enumerate() {
        let Some(hist) = &ran.res.hist[i] else { continue };
        if plan.nested.iter().any(|n| n.2 == i) {
            st.add("fault:nested-session", 1);
        }
        st.add("sessions", 1);
        for (k, e) in hist.iter().enumerate() {
            let ep = &s.episodes[k];
            st.add("parses", 1);
            st.add(&format!("parses:{}-{}", units[s.unit].lang, units[s.unit].class.flag()), 1);
            st.add(if e.outcome == Outcome::Accept { "accepted" } else { "not_accepted" }, 1);
            st.add("visitor_events", e.recs.iter().filter(|r| matches!(r.1, Rec::Ev(_))).count() as u64);
            st.add("tokens_pulled", e.pulls() as u64);
            for f in &ep.faults {
                st.add(&format!("fault:{}", f), 1);
                nontrivial = true;
            }
            if let Some(j) = &ep.inject {
                if e.recs.iter().any(|r| matches!(r.1, Rec::Inject(_))) {
                    st.add(&format!("fault:{}", if !j.source { "visitor-failure" } else if j.as_err { "source-error" } else { "source-unwind" }), 1);
                    nontrivial = true;
                } else {
                    st.add("injections_not_reached", 1);
                }
            }
            if k > 0 {
                st.add("reused_parsers", 1);
            }
            if ep.tokens.len() > 1 {
                nontrivial = true;
            }
            h = rng::mix(h, rng::mix(s.unit as u64, rng::hash_str(&format!("{:?}{:?}", ep.tokens, ep.inject))));
            if let Some(x) = ran.expects[i].get(k) {
                if x.skip {
                    st.add("skipped_ambiguous", 1);
                }
                for (a, b) in &x.pairs {
                    if st.states.len() < 3_000_000 {
                        st.states.insert(rng::mix(s.unit as u64, ((*a as u64) << 20) | *b as u64));
                    }
                }
            }
        }
    }
    for x in &ran.res.script {
        h = rng::mix(h, *x as u64 + 1);
    }
    if nontrivial && st.plans.len() < 3_000_000 {
        st.plans.insert(h);
    }
}

/// Runs a plan in a child process; Some((class, message)) when it violates the property.
pub fn probe(units: &[Unit], fns: &Units, plan: &Plan, prop: &str, scratch: &std::path::Path) -> Option<(String, String)> {
    let f = scratch.join("probe.json");
    let _ = std::fs::remove_file(&f);
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        sys::no_core();
        sys::cpu_watchdog(10);
        let r = run_plan(units, fns, plan, prop);
        if let Some(v) = r.viols.first() {
            let j = crate::obj! {"class" => v.class.as_str(), "msg" => v.msg.as_str()};
            let _ = std::fs::write(&f, j.text());
            unsafe { sys::_exit(1) }
        }
        unsafe { sys::_exit(0) }
    }
    match sys::wait(pid) {
        sys::End::Exit(0) => None,
        sys::End::Exit(1) => {
            let j = J::parse(&std::fs::read_to_string(&f).unwrap_or_default()).ok()?;
            Some((j.get("class").str().to_string(), j.get("msg").str().to_string()))
        }
        sys::End::Exit(c) => Some(("crash".into(), format!("the process exited with status {}", c))),
        sys::End::Signal(27) => Some(("hang".into(), "the parse did not end".into())),
        sys::End::Signal(s) => Some(("crash".into(), format!("the process was killed by signal {}", s))),
    }
}

/// Shrinks sessions, parses, streams and the schedule while the same kind of violation remains.
pub fn minimise(units: &[Unit], fns: &Units, plan: &Plan, prop: &str, class: &str, scratch: &std::path::Path) -> Plan {
    let mut best = plan.clone();
    let mut left = if class == "hang" { 25 } else { 600 };
    let t0 = Instant::now();
    let mut try_ = |p: &Plan, best: &mut Plan| -> bool {
        if left == 0 || t0.elapsed().as_secs() > 90 {
            return false;
        }
        left -= 1;
        if p.size() < best.size() && probe(units, fns, p, prop, scratch).map_or(false, |v| v.0 == class) {
            *best = p.clone();
            true
        } else {
            false
        }
    };
    loop {
        let before = best.size();
        // sequential execution
        if !best.script.is_empty() {
            let mut p = best.clone();
            p.script.clear();
            try_(&p, &mut best);
            for keep in [best.script.len() / 2, best.script.len().saturating_sub(1)] {
                let mut p = best.clone();
                p.script.truncate(keep);
                try_(&p, &mut best);
            }
        }
        if !best.nested.is_empty() {
            let mut p = best.clone();
            p.nested.clear();
            try_(&p, &mut best);
        }
        let mut s = 0;
        while best.sessions.len() > 1 && s < best.sessions.len() {
            let mut p = best.clone();
            p.sessions.remove(s);
            p.nested.retain(|n| n.0 != s && n.2 != s);
            for n in &mut p.nested {
                n.0 -= (n.0 > s) as usize;
                n.2 -= (n.2 > s) as usize;
            }
            if !try_(&p, &mut best) {
                s += 1;
            }
        }
        for s in 0..best.sessions.len() {
            let mut e = 0;
            while best.sessions[s].episodes.len() > 1 && e < best.sessions[s].episodes.len() {
                let mut p = best.clone();
                p.sessions[s].episodes.remove(e);
                if !try_(&p, &mut best) {
                    e += 1;
                }
            }
            for e in 0..best.sessions[s].episodes.len() {
                let mut chunk = best.sessions[s].episodes[e].tokens.len().max(1).next_power_of_two();
                while chunk > 0 {
                    let mut at = 0;
                    while at < best.sessions[s].episodes[e].tokens.len() {
                        let mut p = best.clone();
                        let t = &mut p.sessions[s].episodes[e].tokens;
                        let end = (at + chunk).min(t.len());
                        t.drain(at..end);
                        if !try_(&p, &mut best) {
                            at += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
        }
        if best.size() >= before {
            break;
        }
    }
    best
}

fn show_history(units: &[Unit], fns: &Units, plan: &Plan) -> Vec<J> {
    let res = execute(plan, fns);
    let mut o = vec![];
    for (i, s) in plan.sessions.iter().enumerate() {
        let u = &units[s.unit];
        let Some(h) = &res.hist[i] else { continue };
        for (k, e) in h.iter().enumerate() {
            for (seq, r) in &e.recs {
                let t = match r {
                    Rec::Pull(p) => {
                        let toks = &s.episodes[k].tokens;
                        format!("pull {} -> {}", p, u.show(toks.get(*p).copied().unwrap_or(u.terms())))
                    }
                    Rec::Ev(e) => format!("visitor {}", u.show_ev(e)),
                    Rec::Inject(x) => format!("injected failure {}", x),
                };
                o.push((*seq, format!("[{}] session {} parse {}: {}", seq, i, k, t)));
            }
            let last = e.recs.last().map_or(0, |r| r.0);
            o.push((last, format!("[{}] session {} parse {}: outcome {}", last, i, k, u.show_outcome(&e.outcome))));
        }
    }
    o.sort_by_key(|x| x.0);
    o.truncate(400);
    o.into_iter().map(|x| J::from(x.1)).collect()
}

fn replay_json(prop: &str, seed: u64, run: u64, units: &[Unit], plan: &Plan, class: &str, msg: &str) -> J {
    // keep only the units that are used
    let mut used: Vec<usize> = plan.sessions.iter().map(|s| s.unit).collect();
    used.sort();
    used.dedup();
    let mut p = plan.clone();
    for s in &mut p.sessions {
        s.unit = used.iter().position(|x| *x == s.unit).unwrap();
    }
    crate::obj! {
        "property" => prop,
        "kind" => "stream",
        "seed" => seed,
        "run" => run,
        "class" => class,
        "message" => msg,
        "units" => used.iter().map(|i| unit_json(&units[*i])).collect::<Vec<J>>(),
        "plan" => p.to_json()
    }
}

fn unit_json(u: &Unit) -> J {
    crate::obj! {
        "name" => u.name.as_str(),
        "grammar" => u.made.text.as_str(),
        "language" => u.lang,
        "algorithm" => u.class.flag(),
        "curated" => u.curated,
        "tokens" => u.made.cfg.tokens.iter().map(|t| J::from(t.as_str())).collect::<Vec<J>>()
    }
}

fn unit_from_json(j: &J) -> Unit {
    let class = Class::parse(j.get("algorithm").str()).unwrap_or_else(|| die("replay: algorithm"));
    let lang = if j.get("language").str() == "rust" { "rust" } else { "cpp" };
    let m = gen::examine(j.get("grammar").str(), class, 100_000).unwrap_or_else(|e| die(&format!("replay: {}", e)));
    let mut u = Unit::new(j.get("name").str().to_string(), m, class, lang);
    u.curated = j.get("curated").bool();
    u
}

fn load_all(sos: &[Option<std::path::PathBuf>], units: &[Unit]) -> Units {
    Arc::new(
        sos.iter()
            .zip(units)
            .map(|(s, u)| match s {
                Some(p) => (unsafe { std::mem::transmute::<_, RunFn>(load(p, "unit_run")) }, u.terms()),
                None => (never as RunFn, u.terms()),
            })
            .collect(),
    )
}

unsafe extern "C" fn never(_: &Api, _: &Session) {
    die("a unit that was not built was started")
}

/// A refusal concerns a property: generation and plain compilation concern acceptance, glue that
/// does not fit concerns the visitor interface.
fn refusal_prop(env: &Env, u: &Unit, i: usize, r: &Refused) -> &'static str {
    if r.stage == "generation" {
        return u.acceptance_prop();
    }
    let dir = env.work.join(format!("u{}", i));
    let alone = if u.lang == "rust" {
        let src = dir.join("alone.rs");
        let t = format!(
            "#![allow(warnings)]\n#[path = \"{0}/tokens.rs\"] pub mod tokens;\n#[path = \"{0}/parser.rs\"] pub mod parser;\n",
            dir.display()
        );
        std::fs::write(&src, t).unwrap();
        rustc(&src, &dir.join("alone.so"))
    } else {
        std::fs::write(dir.join("alone.cpp"), "#include \"parser_impl.h\"\n").unwrap();
        gxx(env, &dir, &["tokens", "parser", "alone"], &dir.join("alone.so"), false)
    };
    if alone.ok {
        u.event_prop()
    } else {
        u.acceptance_prop()
    }
}

// ---------------------------------------------------------------------------------------------
// the check

pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new(prop);
    let cli = env.cli();
    let units = draw_units(prop, seed, thorough);
    let (sos, refused) = make_parsers(&env, &cli, &units, "");
    let built = t0.elapsed();
    let mut rep = Report::new(prop, seed, thorough);
    let mut foreign = 0u64;
    for r in &refused {
        let u = &units[r.unit];
        if refusal_prop(&env, u, r.unit, r) == prop {
            let what = match r.stage {
                "generation" => "a grammar of the algorithm's class was not generated",
                _ => "the generated parser does not compile with its documented interface",
            };
            let j = crate::obj! {
                "property" => prop, "kind" => "unit", "seed" => seed, "class" => r.stage,
                "message" => format!("{}: {}", what, r.msg.chars().take(1500).collect::<String>()),
                "units" => vec![unit_json(u)]
            };
            rep.violation(&j);
            break;
        }
        foreign += 1;
    }
    let live: Vec<usize> = (0..units.len()).filter(|i| sos[*i].is_some()).collect();
    let (_, quick_runs) = mix_of(prop);
    let runs = if thorough { quick_runs * 40 } else { quick_runs };
    let cap = if thorough { 500 } else { 120 };
    let mut st = Stats::default();
    if rep.ok() && !live.is_empty() {
        let fns = load_all(&sos, &units);
        let base = rng::mix(seed, rng::hash_str(prop));
        let jobs = env.jobs;
        let page = sys::shared_page(4096 * 4) as *mut u64;
        let mut kids = vec![];
        for w in 0..jobs {
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                worker(&env, w, jobs, runs, base, prop, &units, &live, &fns, page, cap);
                unsafe { sys::_exit(0) }
            }
            kids.push(pid);
        }
        let mut found: Option<(u64, String, String)> = None;
        for (w, pid) in kids.into_iter().enumerate() {
            let end = sys::wait(pid);
            let at = unsafe { std::ptr::read_volatile(page.add(w)) };
            let v = match end {
                sys::End::Exit(0) => {
                    merge(&env, w, &mut st);
                    None
                }
                sys::End::Exit(1) => {
                    merge(&env, w, &mut st);
                    let j = J::parse(&std::fs::read_to_string(env.work.join(format!("v{}.json", w))).unwrap_or_default())
                        .unwrap_or(J::Null);
                    Some((at, j.get("class").str().to_string(), j.get("msg").str().to_string()))
                }
                sys::End::Signal(27) => Some((at, "hang".into(), "the parse did not end".into())),
                sys::End::Signal(s) => Some((at, "crash".into(), format!("the process was killed by signal {}", s))),
                sys::End::Exit(c) => Some((at, "crash".into(), format!("the process exited with status {}", c))),
            };
            if let Some(v) = v {
                if found.as_ref().map_or(true, |f| v.0 < f.0) {
                    found = Some(v);
                }
            }
        }
        if let Some((run, class, msg)) = found {
            let mut r = Rng::new(rng::mix(base, run));
            let mut plan = draw_plan(&units, &live, prop, &mut r);
            // make the schedule explicit
            if plan.sched_seed.is_some() && class != "crash" && class != "hang" {
                let f = env.work.join("script.json");
                let pid = unsafe { sys::fork() };
                if pid == 0 {
                    let x = execute(&plan, &fns);
                    let mut p = plan.clone();
                    p.script = x.script;
                    let _ = std::fs::write(&f, p.to_json().text());
                    unsafe { sys::_exit(0) }
                }
                sys::wait(pid);
                if let Ok(j) = J::parse(&std::fs::read_to_string(&f).unwrap_or_default()) {
                    plan = Plan::from_json(&j);
                }
            } else if plan.sched_seed.is_some() {
                let mut p = plan.clone();
                p.sched_seed = None;
                if probe(&units, &fns, &p, prop, &env.work).map_or(false, |v| v.0 == class) {
                    plan = p;
                }
            }
            let min = minimise(&units, &fns, &plan, prop, &class, &env.work);
            let msg = probe(&units, &fns, &min, prop, &env.work).map(|v| v.1).unwrap_or(msg);
            let mut j = replay_json(prop, seed, run, &units, &min, &class, &msg);
            if class != "crash" && class != "hang" {
                j.set("history", J::Arr(show_history(&units, &fns, &min)));
            }
            rep.violation(&j);
        } else {
            // the same runs again in another process must be the same
            let f = env.work.join("digest");
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                let d = first_digest(&units, &live, &fns, prop, base, runs);
                let _ = std::fs::write(&f, format!("{:016x}", d));
                unsafe { sys::_exit(0) }
            }
            sys::wait(pid);
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                let pad = vec![1u8; 7_654_321];
                std::hint::black_box(&pad);
                let d = first_digest(&units, &live, &fns, prop, base, runs);
                let _ = std::fs::write(env.work.join("digest2"), format!("{:016x}", d));
                unsafe { sys::_exit(0) }
            }
            sys::wait(pid);
            let a = std::fs::read_to_string(&f).unwrap_or_default();
            let b = std::fs::read_to_string(env.work.join("digest2")).unwrap_or_default();
            rep.extra("determinism", crate::obj! {"runs_repeated_in_two_processes" => 400.min(runs), "identical" => a == b && !a.is_empty()});
        }
    }
    // evidence
    let total: u64 = units.iter().map(|u| u.made.lr.as_ref().map_or(0, |l| l.action.iter().map(|a| a.len() as u64).sum())).sum();
    let mut counts: Vec<(String, J)> = vec![];
    let mut faults: Vec<(String, J)> = vec![];
    for (k, v) in &st.n {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.push((f.to_string(), J::from(*v)));
        } else {
            counts.push((k.clone(), J::from(*v)));
        }
    }
    let mut origins: BTreeMap<String, u64> = BTreeMap::new();
    for u in &units {
        let o = u.made.origin.split(['+', '-']).next().unwrap_or("").to_string();
        *origins.entry(format!("{}-{}:{}", u.lang, u.class.flag(), if u.curated { "curated".into() } else { o })).or_insert(0) += 1;
    }
    let runs_done = st.n.get("runs").copied().unwrap_or(0);
    rep.cover("evaluations", runs_done);
    rep.cover("distinct_nontrivial", st.plans.len());
    rep.cover(
        "rule",
        "one evaluation = one simulated execution: 1-3 parser sessions (grammar drawn by seed, generated by the real lapex CLI, compiled), each parsing 1-4 streams delivered by a faulty source, scheduled at every pull and visitor call; distinct = different (parser, delivered streams, injected failures, schedule); non-trivial = at least one fault, more than one token, or several sessions",
    );
    let mut samples = vec![];
    for i in 0..3u64 {
        if live.is_empty() {
            break;
        }
        let mut r = Rng::new(rng::mix(rng::mix(seed, rng::hash_str(prop)), i * 7 + 1));
        let p = draw_plan(&units, &live, prop, &mut r);
        let names: Vec<J> = p.sessions.iter().map(|s| J::from(units[s.unit].name.as_str())).collect();
        samples.push(crate::obj! {"run" => i * 7 + 1, "parsers" => names, "plan" => p.to_json(), "grammar" => units[p.sessions[0].unit].made.text.as_str()});
    }
    rep.cover("samples", samples);
    rep.cover("grammars", units.len());
    rep.cover("grammar_families", J::Obj(origins.into_iter().map(|(k, v)| (k, J::from(v))).collect()));
    rep.cover("units_not_usable_for_reasons_other_checks_decide", foreign);
    rep.cover("faults_injected", J::Obj(faults));
    rep.cover("counts", J::Obj(counts));
    // includes pairs without an action, where the reference reports an error
    rep.cover("distinct_reference_state_lookahead_pairs_reached", st.states.len());
    rep.cover("reference_states_actions_defined", total);
    rep.cover("simulated_time", "logical: one tick per token request or visitor call, see counts.steps (the generated parsers have no clock)");
    rep.cover("real_code", "lapex front end, table construction and code generation through lapex-cli; the generated parser, compiled by rustc/g++");
    rep.cover("stubs", "token source and visitor (simulator)");
    let search = t0.elapsed().as_secs_f64() - built.as_secs_f64();
    rep.cover("runs_per_hour", if search > 0.0 { (runs_done as f64 / search * 3600.0) as u64 } else { 0 });
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

fn first_digest(units: &[Unit], live: &[usize], fns: &Units, prop: &str, base: u64, runs: u64) -> u64 {
    let mut d = 0;
    sys::cpu_watchdog(120);
    for i in 0..400.min(runs) {
        let mut r = Rng::new(rng::mix(base, i));
        let plan = draw_plan(units, live, prop, &mut r);
        d = rng::mix(d, digest(&execute(&plan, fns)));
    }
    d
}

fn worker(
    env: &Env, w: usize, jobs: usize, runs: u64, base: u64, prop: &str, units: &[Unit], live: &[usize], fns: &Units, page: *mut u64, cap: u64,
) {
    sys::no_core();
    sys::limit_memory(6 << 30);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut i = w as u64;
    let mut viol = None;
    while i < runs {
        unsafe { std::ptr::write_volatile(page.add(w), i) };
        sys::cpu_watchdog(15);
        let mut r = Rng::new(rng::mix(base, i));
        let plan = draw_plan(units, live, prop, &mut r);
        let ran = run_plan(units, fns, &plan, prop);
        account(&mut st, units, &plan, &ran);
        if let Some(v) = ran.viols.into_iter().next() {
            viol = Some(v);
            break;
        }
        i += jobs as u64;
        if i % 64 < jobs as u64 && t0.elapsed().as_secs() > cap {
            st.add("workers_stopped_by_time_cap", 1);
            break;
        }
    }
    sys::cpu_watchdog(0);
    let n: Vec<(String, J)> = st.n.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect();
    let _ = std::fs::write(env.work.join(format!("s{}.json", w)), J::Obj(n).text());
    for (name, set) in [("st", &st.states), ("pl", &st.plans)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        for x in set.iter() {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let _ = std::fs::write(env.work.join(format!("{}{}", name, w)), b);
    }
    if let Some(v) = viol {
        let j = crate::obj! {"class" => v.class.as_str(), "msg" => v.msg.as_str()};
        let _ = std::fs::write(env.work.join(format!("v{}.json", w)), j.text());
        unsafe { sys::_exit(1) }
    }
}

fn merge(env: &Env, w: usize, st: &mut Stats) {
    if let Ok(J::Obj(v)) = J::parse(&std::fs::read_to_string(env.work.join(format!("s{}.json", w))).unwrap_or_default()) {
        for (k, x) in v {
            st.add(&k, x.int() as u64);
        }
    }
    for (name, set) in [("st", &mut st.states), ("pl", &mut st.plans)] {
        if let Ok(b) = std::fs::read(env.work.join(format!("{}{}", name, w))) {
            set.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let prop = j.get("property").str().to_string();
    let env = Env::new("replay");
    let cli = env.cli();
    let units: Vec<Unit> = j.get("units").arr().iter().map(unit_from_json).collect();
    let (sos, refused) = make_parsers(&env, &cli, &units, "");
    let mut res = None;
    for r in &refused {
        let p = refusal_prop(&env, &units[r.unit], r.unit, r);
        if j.get("kind").str() == "unit" && p == prop && r.stage == j.get("class").str() {
            res = Some((r.stage.to_string(), r.msg.clone()));
        }
    }
    if j.get("kind").str() == "stream" && sos.iter().all(|s| s.is_some()) {
        let fns = load_all(&sos, &units);
        let plan = Plan::from_json(j.get("plan"));
        res = probe(&units, &fns, &plan, &prop, &env.work);
    }
    env.clean();
    res
}
