//! Output streams supplied by a caller (second part of C02): the real code generators and templates
//! write to simulated streams that accept pieces of any size, are interrupted, refuse, or fail.
use crate::build::*;
use crate::driver::*;
use crate::gensim::{answers, Gu, Machine};
use crate::json::J;
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub name: String,
    /// handed over by add_target; otherwise made on demand
    pub target: bool,
    pub absent: bool,
    pub seed: u64,
    pub interrupt: i64,
    pub most: i64,
    pub fail: i64,
    pub kind: i64,
    pub times: i64,
    pub flush: i64,
}

impl Stream {
    fn json(&self) -> J {
        crate::obj! {
            "name" => self.name.as_str(), "target" => self.target, "absent" => self.absent, "seed" => self.seed as i64, "interrupt" => self.interrupt,
            "most" => self.most, "fail" => self.fail, "kind" => self.kind, "times" => self.times, "flush" => self.flush
        }
    }
    fn from_json(j: &J) -> Stream {
        Stream {
            name: j.get("name").str().into(),
            target: j.get("target").bool(),
            absent: j.get("absent").bool(),
            seed: j.get("seed").int() as u64,
            interrupt: j.get("interrupt").int(),
            most: j.get("most").int(),
            fail: j.get("fail").int(),
            kind: j.get("kind").int(),
            times: j.get("times").int(),
            flush: j.get("flush").int(),
        }
    }
    fn weight(&self) -> usize {
        1 + (self.interrupt > 0) as usize + (self.most > 0) as usize + 2 * (self.fail > 0) as usize + 2 * (self.flush > 0) as usize + 2 * self.absent as usize + (self.times > 0) as usize
    }
}

#[derive(Clone, Debug)]
pub enum Job {
    Gen { unit: usize, no_default: bool, streams: Vec<Stream> },
    /// holes: key, pieces, piece at which filling the hole fails (-1: never)
    Template { text: String, holes: Vec<(String, Vec<String>, i64)>, by_writer: bool, stream: Stream },
}

#[derive(Clone, Debug)]
pub struct WPlan {
    pub seed: u64,
    pub jobs: Vec<Job>,
}

struct Reference {
    /// per file: text, and the number of operations of an undisturbed stream
    files: BTreeMap<String, (Vec<u8>, i64)>,
}

pub struct WriteScenario {
    m: Machine,
    exe: PathBuf,
    base: PathBuf,
    pub units: Vec<Gu>,
    refs: Vec<Option<Reference>>,
    good: Vec<usize>,
}

fn gen_json(u: &Gu, no_default: bool, streams: &[Stream], full: bool) -> J {
    crate::obj! {
        "text" => u.text.as_str(), "lang" => u.lang, "algo" => u.algo, "table" => u.table, "lexer" => u.lexer, "no_default" => no_default, "full" => full,
        "streams" => streams.iter().map(|s| s.json()).collect::<Vec<J>>()
    }
}

/// The documented expansion: /*{ key }*/ on one line is replaced; Err for a key without a filling.
fn expand(t: &str, holes: &[(String, Vec<String>, i64)]) -> Result<String, String> {
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        if r.starts_with("/*{") {
            if let Some(e) = r[3..].find("}*/") {
                let key = &r[3..3 + e];
                if !key.contains('\n') {
                    match holes.iter().rev().find(|h| h.0 == key.trim()) {
                        Some(h) if h.2 < 0 || h.2 as usize >= h.1.len() => h.1.iter().for_each(|p| o.push_str(p)),
                        _ => return Err(o),
                    }
                    i += 3 + e + 3;
                    continue;
                }
            }
        }
        let c = r.chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    Ok(o)
}

impl WriteScenario {
    /// None if the stream driver cannot be built against this tree.
    pub fn new(env: &Env, m: &Machine, units: &[Gu]) -> Option<WriteScenario> {
        let man = env.verif.join("simwrite/Cargo.toml");
        if let Err(e) = env.try_cargo(&man, "lapex", &["--bin", "simwrite"], false) {
            eprintln!("{}", e);
            return None;
        }
        let exe = env.target.join("lapex/debug/simwrite");
        let units: Vec<Gu> = units.to_vec();
        let mut s = WriteScenario { m: m.clone(), exe, base: env.work.clone(), units, refs: vec![], good: vec![] };
        let n = s.units.len();
        let res: std::sync::Mutex<Vec<Option<Reference>>> = std::sync::Mutex::new((0..n).map(|_| None).collect());
        parallel(n, env.jobs, |i| {
            let u = &s.units[i];
            let dir = s.base.join(format!("wref{}", i));
            let a = s.process(&dir, 1, vec![gen_json(u, false, &u.promised().iter().map(|n| Stream { name: n.to_string(), ..Stream::default() }).collect::<Vec<_>>(), true)]).1;
            if let Some(a) = a {
                let a = &a.arr()[0].arr()[0];
                if a.get("outcome").str() == "ok" {
                    let files = a.get("streams").arr().iter().map(|f| (f.get("name").str().to_string(), (f.get("text").str().as_bytes().to_vec(), f.get("ops").int()))).collect();
                    res.lock().unwrap()[i] = Some(Reference { files });
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
        });
        s.refs = res.into_inner().unwrap();
        s.good = (0..n).filter(|i| s.refs[*i].is_some()).collect();
        Some(s)
    }
    fn process(&self, dir: &Path, seed: u64, jobs: Vec<J>) -> (crate::gensim::Ran, Option<J>) {
        let root = dir.join("disk");
        std::fs::create_dir_all(&root).unwrap_or_else(|e| die(&e.to_string()));
        let jf = dir.join("streams.json");
        std::fs::write(&jf, J::Arr(jobs).text()).unwrap_or_else(|e| die(&e.to_string()));
        let plan = format!("root {}\nseed {}\n", root.display(), seed & (i64::MAX as u64));
        let r = self.m.spawn(dir, &self.exe, &[jf.display().to_string()], dir, &plan, &[]);
        let a = answers(&r.con);
        (r, a)
    }
    fn pieces(&self, rng: &mut Rng, s: &mut Stream) {
        s.seed = rng.next() >> 1;
        s.interrupt = *rng.pick(&[0, 0, 0, 5, 30, 70, 95]);
        s.most = *rng.pick(&[0, 0, 1, 2, 3, 7, 16, 100, 1000, 8192]);
    }
    fn failing(&self, rng: &mut Rng, s: &mut Stream, ops: i64) {
        s.fail = if rng.pct(30) { (1 + ops - 1 - rng.below(3) as i64).max(1) } else { 1 + rng.below(ops.max(1) as usize) as i64 };
        s.kind = rng.below(9) as i64;
        s.times = *rng.pick(&[0, 0, 1, 1, 3]);
    }
    fn job(&self, rng: &mut Rng) -> Job {
        if rng.pct(45) || self.good.is_empty() {
            return self.template(rng);
        }
        let unit = *rng.pick(&self.good);
        let r = self.refs[unit].as_ref().unwrap();
        let all = rng.pct(40);
        let mut streams: Vec<Stream> = r
            .files
            .keys()
            .map(|n| {
                let mut s = Stream { name: n.clone(), target: if all { true } else { rng.pct(50) }, ..Stream::default() };
                if rng.pct(80) {
                    self.pieces(rng, &mut s);
                }
                s
            })
            .collect();
        if rng.pct(40) {
            let k = rng.below(streams.len());
            let ops = r.files[&streams[k].name].1;
            self.failing(rng, &mut streams[k], ops);
        }
        let k = rng.below(streams.len());
        if rng.pct(8) {
            streams[k].flush = 1;
            streams[k].kind = 1 + rng.below(8) as i64;
        }
        if rng.pct(4) {
            streams[k].absent = true;
        }
        Job::Gen { unit, no_default: rng.pct(15), streams }
    }
    fn template(&self, rng: &mut Rng) -> Job {
        let bits = [
            "a", "fn x() {", "\n", "/*", "{", "}", "*/", "/*{A}*/", "/*{ B }*/", "/*{C}*/", "/*{A}*//*{B}*/", "é", "😀", "/* {A} */", "/*{\nA}*/", "%", "{}", "{0}", "\\", "/*{ A\t}*/", "/*{/*{A}*/", "$1", "\0", "/*{A}", "}*/",
        ];
        let mut text = String::new();
        let most = if rng.pct(10) { 300 } else { 12 };
        for _ in 0..rng.below(most) {
            text.push_str(rng.pick(&bits));
        }
        if rng.pct(3) {
            text.push_str("/*{D}*/");
        }
        let mut holes: Vec<(String, Vec<String>, i64)> = vec![];
        for k in ["A", "B", "C", "/*{A", "", "{"] {
            let n = rng.below(4);
            let v = (0..n)
                .map(|_| match rng.below(6) {
                    0 => String::new(),
                    1 => "x".repeat(rng.range(1, 300)),
                    2 => "/*{B}*/".to_string(),
                    _ => rng.pick(&bits).to_string(),
                })
                .collect();
            holes.push((k.to_string(), v, if rng.pct(4) { rng.below(3) as i64 } else { -1 }));
        }
        let mut stream = Stream { name: "out".into(), ..Stream::default() };
        self.pieces(rng, &mut stream);
        if rng.pct(35) {
            let n = 1 + text.len() as i64 / 8;
            self.failing(rng, &mut stream, n);
        }
        let by_writer = rng.pct(40);
        if by_writer && rng.pct(15) {
            stream.flush = 1;
        }
        Job::Template { text, holes, by_writer, stream }
    }
    fn job_json(&self, j: &Job) -> J {
        match j {
            Job::Gen { unit, no_default, streams } => gen_json(&self.units[*unit], *no_default, streams, false),
            Job::Template { text, holes, by_writer, stream } => crate::obj! {
                "template" => text.as_str(), "by_writer" => *by_writer, "stream" => stream.json(),
                "holes" => holes.iter().map(|h| crate::obj!{"key" => h.0.as_str(), "parts" => h.1.iter().map(|p| J::from(p.as_str())).collect::<Vec<J>>(), "fails" => h.2}).collect::<Vec<J>>()
            },
        }
    }
    fn check_job(&self, j: &Job, a: &J, mut st: Option<&mut Stats>) -> Option<(String, String)> {
        let said = a.get("outcome").str();
        let hash = |b: &[u8]| format!("{:016x}", rng::hash_bytes(b));
        let mut failed = a.get("refused").int();
        let mut first = String::new();
        if failed > 0 {
            first = "a stream that could not be opened".into();
        }
        for s in a.get("streams").arr() {
            if s.get("failed").int() > 0 {
                failed += s.get("failed").int();
                first = format!("a failure of {}", s.get("name").str());
            }
            if let Some(st) = st.as_deref_mut() {
                st.add("fault:interrupted stream operation", s.get("interrupted").int() as u64);
                st.add("fault:short write to a stream", s.get("short").int() as u64);
                st.add("fault:failed stream operation", s.get("failed").int() as u64);
                st.add("stream_operations", s.get("ops").int() as u64);
            }
        }
        let what: String;
        let mut expected: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut must_fail = false;
        match j {
            Job::Gen { unit, no_default, streams } => {
                what = self.units[*unit].name.clone();
                for (n, f) in &self.refs[*unit].as_ref().unwrap().files {
                    if !*no_default || streams.iter().any(|s| s.target && s.name == *n) {
                        expected.insert(n.clone(), f.0.clone());
                    }
                }
            }
            Job::Template { text, holes, .. } => {
                what = format!("template {:?}", text.chars().take(80).collect::<String>());
                match expand(text, holes) {
                    Ok(t) => {
                        expected.insert("out".into(), t.into_bytes());
                    }
                    Err(t) => {
                        must_fail = true;
                        // what comes before the hole that cannot be filled
                        expected.insert("out".into(), t.into_bytes());
                    }
                }
            }
        }
        if let Some(st) = st {
            st.add(&format!("{}: {}", if failed > 0 || must_fail { "failing jobs" } else { "undamaged jobs" }, said), 1);
        }
        if (failed > 0 || must_fail) && said == "ok" {
            return Some(("swallowed".into(), format!("{}: {} was not reported", what, if must_fail { "a hole that cannot be filled" } else { &first })));
        }
        for s in a.get("streams").arr() {
            let n = s.get("name").str();
            let Some(want) = expected.get(n) else { continue };
            let len = s.get("len").u();
            if failed == 0 && !must_fail {
                if len != want.len() || s.get("hash").str() != hash(want) {
                    return Some(("content".into(), format!("{}: the pieces that {} accepted do not make up its text: {} bytes instead of {}", what, n, len, want.len())));
                }
            } else if s.get("failed").int() > 0 {
                let at = s.get("at").u();
                if !must_fail && (at > want.len() || s.get("head").str() != hash(&want[..at])) {
                    return Some(("content".into(), format!("{}: what {} accepted before it failed is not the beginning of its text", what, n)));
                }
            }
        }
        if failed == 0 && !must_fail && said != "ok" {
            return Some(("refused".into(), format!("{}: every stream accepted everything in pieces, but {} was the outcome {}", what, said, a.get("message").str())));
        }
        None
    }
    fn execute(&self, p: &WPlan, mut st: Option<&mut Stats>, keep: bool) -> (Vec<(String, String)>, u64, Vec<J>) {
        let dir = self.base.join(format!("x{:08}", unsafe { sys::getpid() }));
        let (r, a) = self.process(&dir, p.seed, p.jobs.iter().map(|j| self.job_json(j)).collect());
        let mut v = vec![];
        let mut hist = vec![];
        let digest = rng::mix(rng::hash_str(&r.con), rng::hash_str(&format!("{:?}{:?}", r.code, r.signal)));
        if r.hung() {
            return (vec![("hang".into(), "writing to the streams did not end".into())], digest, hist);
        }
        let Some(a) = a else {
            return (vec![("no-answer".into(), format!("the process ended without an answer: {:?} {:?} {}", r.code, r.signal, r.con.chars().take(200).collect::<String>()))], digest, hist);
        };
        for (k, j) in p.jobs.iter().enumerate() {
            let x = &a.arr()[0].arr()[k];
            if keep {
                hist.push(x.clone());
            }
            if let Some(e) = self.check_job(j, x, st.as_deref_mut()) {
                v.push(e);
            }
        }
        if let Some(st) = st {
            st.add("jobs", p.jobs.len() as u64);
            st.state(digest);
            st.plan(digest);
        }
        (v, digest, hist)
    }
    fn from_json(&self, j: &J) -> WPlan {
        let strs = |x: &J| x.arr().iter().map(|p| p.str().to_string()).collect::<Vec<_>>();
        WPlan {
            seed: j.get("seed_process").str().parse().unwrap_or(0),
            jobs: j
                .get("jobs")
                .arr()
                .iter()
                .map(|x| {
                    if x.get("template").is_null() {
                        Job::Gen { unit: x.get("unit").u(), no_default: x.get("no_default").bool(), streams: x.get("streams").arr().iter().map(Stream::from_json).collect() }
                    } else {
                        Job::Template {
                            text: x.get("template").str().into(),
                            holes: x.get("holes").arr().iter().map(|h| (h.get("key").str().to_string(), strs(h.get("parts")), h.get("fails").int())).collect(),
                            by_writer: x.get("by_writer").bool(),
                            stream: Stream::from_json(x.get("stream")),
                        }
                    }
                })
                .collect(),
        }
    }
}

impl Scenario for WriteScenario {
    type Plan = WPlan;
    fn draw(&self, rng: &mut Rng) -> WPlan {
        let n = rng.range(4, 24);
        WPlan { seed: rng.next() >> 1, jobs: (0..n).map(|_| self.job(rng)).collect() }
    }
    fn run(&self, p: &WPlan, st: Option<&mut Stats>) -> Out {
        let (viols, digest, _) = self.execute(p, st, false);
        Out { viols, digest }
    }
    fn size(&self, p: &WPlan) -> usize {
        p.jobs
            .iter()
            .map(|j| {
                100_000
                    + match j {
                        Job::Gen { unit, streams, .. } => self.units[*unit].text.len() * 10 + streams.iter().map(|s| s.weight()).sum::<usize>(),
                        Job::Template { text, holes, stream, .. } => text.len() * 10 + holes.iter().map(|h| 10 + h.1.iter().map(|p| p.len() + 1).sum::<usize>()).sum::<usize>() + stream.weight(),
                    }
            })
            .sum()
    }
    fn shrink(&self, p: &WPlan) -> Vec<WPlan> {
        let mut v = vec![];
        if p.jobs.len() > 1 {
            for j in &p.jobs {
                v.push(WPlan { seed: p.seed, jobs: vec![j.clone()] });
            }
            for k in 0..p.jobs.len() {
                let mut q = p.clone();
                q.jobs.remove(k);
                v.push(q);
            }
            return v;
        }
        let simpler = |s: &Stream| {
            let mut o = vec![];
            let mut f = |g: &dyn Fn(&mut Stream)| {
                let mut t = s.clone();
                g(&mut t);
                o.push(t);
            };
            f(&|t| {
                t.interrupt = 0;
                t.most = 0;
                t.fail = 0;
                t.flush = 0;
                t.times = 0;
            });
            f(&|t| t.interrupt = 0);
            f(&|t| t.most = 0);
            f(&|t| t.fail = 0);
            f(&|t| t.flush = 0);
            f(&|t| t.times = 0);
            f(&|t| t.absent = false);
            o
        };
        match &p.jobs[0] {
            Job::Gen { unit, no_default, streams } => {
                for u in &self.good {
                    let s: Vec<Stream> = streams.iter().filter(|s| self.refs[*u].as_ref().unwrap().files.contains_key(&s.name)).cloned().collect();
                    if self.units[*u].text.len() < self.units[*unit].text.len() {
                        v.push(WPlan { seed: p.seed, jobs: vec![Job::Gen { unit: *u, no_default: *no_default, streams: s }] });
                    }
                }
                for k in 0..streams.len() {
                    for t in simpler(&streams[k]) {
                        let mut s = streams.clone();
                        s[k] = t;
                        v.push(WPlan { seed: p.seed, jobs: vec![Job::Gen { unit: *unit, no_default: *no_default, streams: s }] });
                    }
                }
            }
            Job::Template { text, holes, by_writer, stream } => {
                let mk = |text: String, holes: Vec<(String, Vec<String>, i64)>, stream: Stream| WPlan { seed: p.seed, jobs: vec![Job::Template { text, holes, by_writer: *by_writer, stream }] };
                let c: Vec<char> = text.chars().collect();
                for len in [c.len() / 2, c.len() / 4, 8, 3, 1] {
                    if len > 0 && c.len() > len {
                        for i in (0..c.len()).step_by(len) {
                            v.push(mk(c[..i].iter().chain(c[(i + len).min(c.len())..].iter()).collect(), holes.clone(), stream.clone()));
                        }
                    }
                    if v.len() > 200 {
                        break;
                    }
                }
                for k in 0..holes.len() {
                    for i in 0..holes[k].1.len() {
                        let mut h = holes.clone();
                        h[k].1.remove(i);
                        v.push(mk(text.clone(), h, stream.clone()));
                    }
                }
                for t in simpler(stream) {
                    v.push(mk(text.clone(), holes.clone(), t));
                }
            }
        }
        v
    }
    fn replay_json(&self, p: &WPlan) -> J {
        let mut used: Vec<usize> = vec![];
        let mut jobs = vec![];
        for j in &p.jobs {
            let mut o = self.job_json(j);
            if let Job::Gen { unit, .. } = j {
                let k = used.iter().position(|u| u == unit).unwrap_or_else(|| {
                    used.push(*unit);
                    used.len() - 1
                });
                o.set("unit", J::from(k));
            }
            jobs.push(o);
        }
        crate::obj! {"kind" => "streams", "units" => used.iter().map(|u| self.units[*u].json()).collect::<Vec<J>>(), "jobs" => jobs, "seed_process" => format!("{}", p.seed)}
    }
    fn history(&self, p: &WPlan) -> Vec<J> {
        self.execute(p, None, true).2
    }
    fn sample(&self, p: &WPlan) -> J {
        crate::obj! {"jobs" => p.jobs.len(), "first" => match &p.jobs[0] {
            Job::Gen { unit, streams, .. } => J::from(format!("{} to {:?}", self.units[*unit].name, streams.iter().map(|s| (s.name.as_str(), s.most, s.interrupt, s.fail)).collect::<Vec<_>>())),
            Job::Template { text, .. } => J::from(format!("template {:?}", text.chars().take(100).collect::<String>())),
        }}
    }
    fn repeated(&self) -> u64 {
        100
    }
    fn watchdog(&self) -> u64 {
        60
    }
    fn hang_text(&self) -> &'static str {
        "writing to the streams did not end"
    }
}

/// Runs as a part of C02.
pub fn part(env: &Env, m: &Machine, units: &[Gu], seed: u64, thorough: bool, rep: &mut Report) {
    let Some(s) = WriteScenario::new(env, m, units) else {
        rep.cover("streams", "skipped: the stream driver does not build against this tree");
        return;
    };
    let mut r = Report::new("C02", seed, thorough);
    let what = Search { runs: if thorough { 200_000 } else { 3_000 }, cap_s: if thorough { 300 } else { 60 }, seed: rng::mix(seed, 77), prop: "C02".into() };
    explore(&s, env, &what, &mut r);
    r.cover("units", s.good.len());
    r.cover("rule", "one evaluation = one process with 4-24 jobs: a complete generation whose output files are simulated streams (handed over, or made on demand), or one template with random holes; each stream accepts pieces of any size, is interrupted, refuses, or fails as drawn; distinct = different answers of a process");
    r.cover("real_code", "lapex-codegen, the code generators, lapex-lexer, lapex-parser, lapex-input-gen, Rust's std::io");
    r.cover("stubs", "the output streams; C library calls (simfs.c)");
    rep.nest("streams", r);
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let env = Env::new("replay");
    let units: Vec<Gu> = j.get("units").arr().iter().map(Gu::from_json).collect();
    let m = Machine::build(&env, false);
    let Some(s) = WriteScenario::new(&env, &m, &units) else { die("the stream driver does not build") };
    let r = probe(&s, &env, &s.from_json(j));
    env.clean();
    r
}
