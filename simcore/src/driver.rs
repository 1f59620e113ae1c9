//! Seeded search over simulated runs: forked workers, minimisation, replay files, determinism test.
use crate::build::Env;
use crate::json::J;
use crate::report::Report;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub struct Out {
    /// (class, message) of violations of the property
    pub viols: Vec<(String, String)>,
    /// hash of the complete history
    pub digest: u64,
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub plans: HashSet<u64>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        *self.n.entry(k.to_string()).or_insert(0) += v;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 2_000_000 {
            self.states.insert(h);
        }
    }
    pub fn plan(&mut self, h: u64) {
        if self.plans.len() < 2_000_000 {
            self.plans.insert(h);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            self.add(&k, v);
        }
        self.states.extend(o.states);
        self.plans.extend(o.plans);
    }
}

pub trait Scenario {
    type Plan: Clone;
    fn draw(&self, rng: &mut Rng) -> Self::Plan;
    fn run(&self, p: &Self::Plan, st: Option<&mut Stats>) -> Out;
    fn size(&self, p: &Self::Plan) -> usize;
    /// Smaller plans to try, most promising first.
    fn shrink(&self, p: &Self::Plan) -> Vec<Self::Plan>;
    /// Makes decisions that were drawn while running explicit.
    fn settle(&self, p: &Self::Plan) -> Self::Plan {
        p.clone()
    }
    fn replay_json(&self, p: &Self::Plan) -> J;
    fn history(&self, p: &Self::Plan) -> Vec<J>;
    fn sample(&self, p: &Self::Plan) -> J;
    /// CPU seconds a single run may take
    fn watchdog(&self) -> u64 {
        15
    }
    /// runs that are repeated to see that they are the same
    fn repeated(&self) -> u64 {
        300
    }
    fn hang_text(&self) -> &'static str {
        "the run did not end"
    }
}

pub struct Found {
    pub run: u64,
    pub class: String,
    pub msg: String,
    pub replay: J,
}

/// Runs one plan in a child process.
pub fn probe<S: Scenario>(s: &S, env: &Env, p: &S::Plan) -> Option<(String, String)> {
    let f = env.work.join("probe.json");
    let _ = std::fs::remove_file(&f);
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        sys::no_core();
        sys::cpu_watchdog(s.watchdog().min(10));
        let o = s.run(p, None);
        if let Some(v) = o.viols.first() {
            let _ = std::fs::write(&f, crate::obj! {"class" => v.0.as_str(), "msg" => v.1.as_str()}.text());
            unsafe { sys::_exit(1) }
        }
        unsafe { sys::_exit(0) }
    }
    ended(sys::wait(pid), &f, s.hang_text())
}

fn ended(e: sys::End, f: &std::path::Path, hang: &str) -> Option<(String, String)> {
    match e {
        sys::End::Exit(0) => None,
        sys::End::Exit(1) => {
            let j = J::parse(&std::fs::read_to_string(f).unwrap_or_default()).ok()?;
            Some((j.get("class").str().to_string(), j.get("msg").str().to_string()))
        }
        sys::End::Exit(2) => crate::build::die("a worker failed"),
        sys::End::Exit(c) => Some(("crash".into(), format!("the process exited with status {}", c))),
        sys::End::Signal(27) => Some(("hang".into(), hang.into())),
        sys::End::Signal(s) => Some(("crash".into(), format!("the process was killed by signal {}", s))),
    }
}

fn minimise<S: Scenario>(s: &S, env: &Env, p: &S::Plan, class: &str) -> S::Plan {
    let mut best = p.clone();
    let mut left = if class == "hang" { 20 } else { 500 };
    let t0 = Instant::now();
    'outer: loop {
        for c in s.shrink(&best) {
            if left == 0 || t0.elapsed().as_secs() > 60 {
                break 'outer;
            }
            if s.size(&c) >= s.size(&best) {
                continue;
            }
            left -= 1;
            if probe(s, env, &c).map_or(false, |v| v.0 == class) {
                best = c;
                continue 'outer;
            }
        }
        break;
    }
    best
}

pub struct Search {
    pub runs: u64,
    pub cap_s: u64,
    pub seed: u64,
    pub prop: String,
}

impl Search {
    fn base(&self) -> u64 {
        rng::mix(self.seed, rng::hash_str(&self.prop))
    }
}

/// Explores; reports a violation (minimised) or fills the evidence.
pub fn explore<S: Scenario>(s: &S, env: &Env, what: &Search, rep: &mut Report) -> Stats {
    let mut what = Search { runs: what.runs, cap_s: what.cap_s, seed: what.seed, prop: what.prop.clone() };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        what.runs = n;
    }
    let what = &what;
    let base = what.base();
    let t0 = Instant::now();
    let jobs = env.jobs;
    let page = sys::shared_page(4096 * 4) as *mut u64;
    let mut kids = vec![];
    for w in 0..jobs {
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            worker(s, env, what, base, w, jobs, page);
            unsafe { sys::_exit(0) }
        }
        kids.push(pid);
    }
    let mut st = Stats::default();
    let mut found: Option<(u64, String, String)> = None;
    for (w, pid) in kids.into_iter().enumerate() {
        let e = sys::wait(pid);
        let at = unsafe { std::ptr::read_volatile(page.add(w)) };
        merge(env, w, &mut st);
        if let Some((c, m)) = ended(e, &env.work.join(format!("v{}.json", w)), s.hang_text()) {
            if found.as_ref().map_or(true, |f| at < f.0) {
                found = Some((at, c, m));
            }
        }
    }
    if let Some((run, class, msg)) = found {
        let mut r = Rng::new(rng::mix(base, run));
        let mut plan = s.draw(&mut r);
        if class != "crash" && class != "hang" {
            plan = s.settle(&plan);
        }
        let min = minimise(s, env, &plan, &class);
        let msg = probe(s, env, &min).map(|v| v.1).unwrap_or(msg);
        let mut j = s.replay_json(&min);
        j.set("property", J::from(what.prop.as_str()));
        j.set("seed", J::from(what.seed));
        j.set("run", J::from(run));
        j.set("class", J::from(class.as_str()));
        j.set("message", J::from(msg.as_str()));
        if class != "crash" && class != "hang" {
            j.set("history", J::Arr(s.history(&min)));
        }
        rep.violation(&j);
    } else {
        let n = s.repeated().min(what.runs);
        let mut d = vec![];
        let mut pids = vec![];
        for k in 0..2 {
            let f = env.work.join(format!("digest{}", k));
            let pid = unsafe { sys::fork() };
            if pid == 0 {
                let pad = vec![1u8; 1 + k * 7_654_321];
                std::hint::black_box(&pad);
                sys::cpu_watchdog(200);
                let mut h = 0;
                for i in 0..n {
                    let mut r = Rng::new(rng::mix(base, i));
                    let p = s.draw(&mut r);
                    let d = s.run(&p, None).digest;
                    if std::env::var("SIM_DIGESTS").is_ok() {
                        eprintln!("digest {} {} {:016x}", k, i, d);
                    }
                    h = rng::mix(h, d);
                }
                let _ = std::fs::write(&f, format!("{:016x}", h));
                unsafe { sys::_exit(0) }
            }
            pids.push((pid, f));
        }
        for (pid, f) in pids {
            sys::wait(pid);
            d.push(std::fs::read_to_string(&f).unwrap_or_default());
        }
        rep.extra("determinism", crate::obj! {"runs_repeated_in_two_processes" => n, "identical" => d[0] == d[1] && !d[0].is_empty()});
    }
    let mut counts: Vec<(String, J)> = vec![];
    let mut faults: Vec<(String, J)> = vec![];
    for (k, v) in &st.n {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.push((f.to_string(), J::from(*v)));
        } else {
            counts.push((k.clone(), J::from(*v)));
        }
    }
    let done = st.n.get("runs").copied().unwrap_or(0);
    rep.cover("evaluations", done);
    rep.cover("distinct_nontrivial", st.plans.len());
    let mut samples = vec![];
    for i in 0..3u64 {
        let mut r = Rng::new(rng::mix(base, i * 7 + 1));
        let p = s.draw(&mut r);
        samples.push(s.sample(&p));
    }
    rep.cover("samples", samples);
    rep.cover("faults_injected", J::Obj(faults));
    rep.cover("counts", J::Obj(counts));
    rep.cover("distinct_states", st.states.len());
    let dt = t0.elapsed().as_secs_f64();
    rep.cover("runs_per_hour", if dt > 0.0 { (done as f64 / dt * 3600.0) as u64 } else { 0 });
    st
}

fn worker<S: Scenario>(s: &S, env: &Env, what: &Search, base: u64, w: usize, jobs: usize, page: *mut u64) {
    sys::no_core();
    sys::limit_memory(8 << 30);
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut i = w as u64;
    let mut viol = None;
    while i < what.runs {
        unsafe { std::ptr::write_volatile(page.add(w), i) };
        sys::cpu_watchdog(s.watchdog());
        let mut r = Rng::new(rng::mix(base, i));
        let p = s.draw(&mut r);
        st.add("runs", 1);
        let o = s.run(&p, Some(&mut st));
        if let Some(v) = o.viols.into_iter().next() {
            viol = Some(v);
            break;
        }
        i += jobs as u64;
        if t0.elapsed().as_secs() > what.cap_s {
            st.add("workers_stopped_by_time_cap", 1);
            break;
        }
    }
    sys::cpu_watchdog(0);
    let n: Vec<(String, J)> = st.n.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect();
    let _ = std::fs::write(env.work.join(format!("s{}.json", w)), J::Obj(n).text());
    for (name, set) in [("st", &st.states), ("pl", &st.plans)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        for x in set.iter() {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let _ = std::fs::write(env.work.join(format!("{}{}", name, w)), b);
    }
    if let Some((c, m)) = viol {
        let _ = std::fs::write(env.work.join(format!("v{}.json", w)), crate::obj! {"class" => c.as_str(), "msg" => m.as_str()}.text());
        unsafe { sys::_exit(1) }
    }
}

fn merge(env: &Env, w: usize, st: &mut Stats) {
    if let Ok(J::Obj(v)) = J::parse(&std::fs::read_to_string(env.work.join(format!("s{}.json", w))).unwrap_or_default()) {
        for (k, x) in v {
            st.add(&k, x.int() as u64);
        }
    }
    for (name, set) in [("st", &mut st.states), ("pl", &mut st.plans)] {
        if let Ok(b) = std::fs::read(env.work.join(format!("{}{}", name, w))) {
            set.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
}
