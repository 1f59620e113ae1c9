//! Reproducibility (C05): the same generations in processes that differ in hash seeds, addresses,
//! clocks, environment, working directory, what ran before and what runs at the same time in other
//! threads, under a seeded thread scheduler; every job must give what it gives on its own.
use crate::build::*;
use crate::driver::*;
use crate::gensim::*;
use crate::json::J;
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Instant;

/// What a job did on its own.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Answer {
    pub outcome: String,
    pub errors: Vec<String>,
    pub files: BTreeMap<String, Vec<u8>>,
}

pub struct Reference {
    /// through the library, with the generated front end and with the hand-written one
    lib: [Option<Answer>; 2],
    /// through the command: status and console
    code: Option<i32>,
    con: String,
    files: BTreeMap<String, Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub unit: usize,
    pub boot: bool,
}

#[derive(Clone, Debug)]
pub struct RPlan {
    /// one list per thread; a single job may go through the command instead
    pub threads: Vec<Vec<Job>>,
    pub cli: bool,
    pub seed: u64,
    /// chance to switch at a gate, and the number of allocations between gates (0: none)
    pub bias: u64,
    pub alloc: u64,
    pub style: u8,
    /// decides the environment (0: empty)
    pub env: u64,
    pub faults: Vec<Fault>,
    /// the jobs, one after the other, read one file that is edited in between (0: own files;
    /// 2: all texts of one length; 3: and the file keeps its time)
    pub edit: u8,
    /// and write into one directory
    pub onto: bool,
}

pub struct ReproScenario {
    pub units: Vec<Gu>,
    refs: Vec<Reference>,
    m: Machine,
    base: PathBuf,
    small: Vec<usize>,
    boots: Vec<usize>,
}

struct Place {
    cwd: PathBuf,
    grammar: Vec<String>,
    target: Vec<String>,
}

/// Where the jobs' grammars and directories are, and how they are called.
fn place(root: &Path, style: u8, jobs: &[(usize, &Job)]) -> Place {
    let mut p = Place { cwd: root.to_path_buf(), grammar: vec![], target: vec![] };
    for (k, _) in jobs {
        let (g, t) = match style {
            1 => (root.join(format!("in/g{}.lapex", k)).display().to_string(), root.join(format!("out/{}", k)).display().to_string()),
            2 => (format!("../in/g{}.lapex", k), format!("../out/{}/", k)),
            3 => (format!("./in/./g{}.lapex", k), format!("in/../out/{}", k)),
            _ => (format!("in/g{}.lapex", k), format!("out/{}", k)),
        };
        p.grammar.push(g);
        p.target.push(t);
    }
    if style == 2 {
        p.cwd = root.join("other");
    }
    p
}

fn environment(seed: u64) -> Vec<(String, String)> {
    if seed == 0 {
        return vec![];
    }
    let mut rng = Rng::new(seed);
    let mut v: Vec<(String, String)> = vec![];
    let pool: [(&str, &[&str]); 14] = [
        ("HOME", &["/", "/nonexistent", "/root"]),
        ("USER", &["root", "nobody", "ümläut"]),
        ("LANG", &["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR.ISO-8859-9"]),
        ("LC_ALL", &["C", "POSIX", "ja_JP.eucJP"]),
        ("TZ", &["UTC", "Pacific/Chatham"]),
        ("TMPDIR", &["/tmp", "/nonexistent"]),
        ("TERM", &["dumb", "xterm-256color", ""]),
        ("COLUMNS", &["1", "20", "400"]),
        ("PATH", &["", "/bin"]),
        ("RUST_LOG", &["trace", "off"]),
        ("SOURCE_DATE_EPOCH", &["0", "1700000000"]),
        ("NO_COLOR", &["1"]),
        ("CLICOLOR_FORCE", &["1"]),
        ("OUT_DIR", &["/nonexistent", "."]),
    ];
    for (k, vals) in pool {
        if rng.pct(35) {
            v.push((k.into(), rng.pick(vals).to_string()));
        }
    }
    // moves the stack
    v.push(("PAD".into(), "x".repeat(rng.below(9000))));
    v
}

fn plan_text(root: &Path, p: &RPlan) -> String {
    let s = p.seed;
    let mut o = format!(
        "root {}\nseed {}\nsched {} {} {}\nclock {}\npid {}\ncpus {}\n",
        root.display(),
        s & (i64::MAX as u64),
        s & 0xffff_ffff,
        p.bias,
        p.alloc,
        rng::mix(s, 1) % 4_000_000_000,
        2 + rng::mix(s, 2) % 4_000_000,
        1 + rng::mix(s, 3) % 64
    );
    for f in &p.faults {
        o.push_str(&format!("fault {} {} {}\n", f.at, f.kind, f.arg));
    }
    o
}

struct Played {
    ran: Ran,
    answers: Vec<Option<Answer>>,
    /// other things below the root than the jobs' own
    rest: Snap,
}

impl ReproScenario {
    pub fn new(env: &Env, units: Vec<Gu>) -> (ReproScenario, Vec<(usize, String, String)>) {
        let m = Machine::build(env, true);
        let base = env.work.clone();
        let n = units.len();
        let res: std::sync::Mutex<Vec<Option<Reference>>> = std::sync::Mutex::new((0..n).map(|_| None).collect());
        let bad: std::sync::Mutex<Vec<(usize, String, String)>> = std::sync::Mutex::new(vec![]);
        let mut s = ReproScenario { units, refs: vec![], m, base: base.clone(), small: vec![], boots: vec![] };
        parallel(n, env.jobs, |i| {
            let dir = base.join(format!("ref{}", i));
            let mut r = Reference { lib: [None, None], code: None, con: String::new(), files: BTreeMap::new() };
            let one = |cli, boot| RPlan { threads: vec![vec![Job { unit: i, boot }]], cli, seed: 0x5eed, bias: 0, alloc: 0, style: 0, env: 0, faults: vec![], edit: 0, onto: false };
            for boot in [false, true] {
                // the hand-written front end for some
                if boot && i % 3 != 0 && n > 8 {
                    continue;
                }
                let x = s.play(&dir, &one(false, boot));
                if x.ran.hung() || x.answers[0].is_none() {
                    bad.lock().unwrap().push((i, "hang".into(), format!("an undisturbed run did not give an answer: {}", tail(&x.ran.con))));
                }
                r.lib[boot as usize] = x.answers.into_iter().next().unwrap();
            }
            let x = s.play(&dir, &one(true, false));
            r.code = x.ran.code;
            r.con = x.ran.con.replace("in/g0.lapex", "GRAMMAR");
            r.files = x.answers.into_iter().next().unwrap().map_or(BTreeMap::new(), |a| a.files);
            let _ = std::fs::remove_dir_all(&dir);
            res.lock().unwrap()[i] = Some(r);
        });
        s.refs = res.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect();
        s.small = (0..n).filter(|i| s.units[*i].text.len() < 600).collect();
        s.boots = (0..n).filter(|i| s.refs[*i].lib[1].is_some()).collect();
        let bad = bad.into_inner().unwrap();
        (s, bad)
    }
    fn play(&self, dir: &Path, p: &RPlan) -> Played {
        let root = dir.join("disk");
        let _ = std::fs::remove_dir_all(&root);
        for d in ["in", "out", "other"] {
            std::fs::create_dir_all(root.join(d)).unwrap_or_else(|e| die(&e.to_string()));
        }
        let mut jobs: Vec<(usize, &Job)> = vec![];
        for t in &p.threads {
            for j in t {
                jobs.push((jobs.len(), j));
            }
        }
        for (k, j) in &jobs {
            let g = root.join(format!("in/g{}.lapex", k));
            std::fs::write(&g, &self.units[j.unit].text).unwrap();
            set_mtime(&g, rng::mix(p.seed, 4 + *k as u64) % 4_000_000_000);
            std::fs::create_dir(root.join(format!("out/{}", k))).unwrap();
        }
        let mut pl = place(&root, p.style, &jobs);
        for k in 1..jobs.len() {
            if p.edit > 0 {
                pl.grammar[k] = pl.grammar[0].clone();
            }
            if p.onto {
                pl.target[k] = pl.target[0].clone();
            }
        }
        let longest = jobs.iter().map(|(_, j)| self.units[j.unit].text.len()).max().unwrap_or(0);
        let cwd = std::fs::canonicalize(&pl.cwd).unwrap();
        let plan = plan_text(&root, p);
        let envs = environment(p.env);
        let ran = if p.cli {
            let u = &self.units[p.threads[0][0].unit];
            let mut a: Vec<String> = ["generate", "-l", u.lang, "-a", u.algo].iter().map(|x| x.to_string()).collect();
            if u.table {
                a.push("--table".into());
            }
            if !u.lexer {
                a.push("--no-lexer".into());
            }
            a.extend(["--target".to_string(), pl.target[0].clone(), pl.grammar[0].clone()]);
            self.m.spawn(dir, &self.m.cli, &a, &cwd, &plan, &envs)
        } else {
            let mut k = 0;
            let mut ts = vec![];
            for t in &p.threads {
                let mut v = vec![];
                for j in t {
                    let mut o = job_json(&self.units[j.unit], &pl.grammar[k], &pl.target[k]);
                    o.set("parser", J::from(if j.boot { "boot" } else { "gen" }));
                    if p.edit > 0 {
                        let mut text = self.units[j.unit].text.clone();
                        if p.edit > 1 {
                            while text.len() < longest {
                                text.push('\n');
                            }
                        }
                        o.set("text", J::from(text.as_str()));
                        o.set("when", J::from(if p.edit > 2 { 1_000_000_000i64 } else { 0 }));
                    }
                    v.push(o);
                    k += 1;
                }
                ts.push(J::Arr(v));
            }
            let jf = dir.join("jobs.json");
            std::fs::write(&jf, crate::obj! {"threads" => ts}.text()).unwrap();
            self.m.spawn(dir, &self.m.simgen, &["jobs".into(), jf.display().to_string()], &cwd, &plan, &envs)
        };
        let mut snap = snapshot(&root);
        let flat: Vec<J> = answers(&ran.con).map_or(vec![], |a| a.arr().iter().flat_map(|t| t.arr().to_vec()).collect());
        let mut out = vec![];
        for (k, _) in &jobs {
            let pre = format!("out/{}/", if p.onto { 0 } else { *k });
            let mine: Vec<String> = snap.keys().filter(|n| n.starts_with(&pre)).cloned().collect();
            let mut files = BTreeMap::new();
            for n in mine {
                files.insert(n[pre.len()..].to_string(), snap[&n].clone().unwrap_or_default());
                if !p.onto || *k + 1 == jobs.len() {
                    snap.remove(&n);
                }
            }
            snap.remove(&format!("out/{}", k));
            if p.cli {
                out.push(Some(Answer { outcome: String::new(), errors: vec![], files }));
                continue;
            }
            out.push(flat.get(*k).map(|a| Answer {
                outcome: a.get("outcome").str().into(),
                errors: a.get("errors").arr().iter().map(|e| strip_ansi(e.str()).replace(pl.grammar[*k].as_str(), "GRAMMAR")).collect(),
                files,
            }));
        }
        Played { ran, answers: out, rest: snap }
    }
    fn execute(&self, p: &RPlan, mut st: Option<&mut Stats>, keep: bool) -> (Vec<(String, String)>, u64, Vec<J>) {
        let dir = self.base.join(format!("w{:08}", unsafe { sys::getpid() }));
        let x = self.play(&dir, p);
        let mut v: Vec<(String, String)> = vec![];
        let jobs: Vec<&Job> = p.threads.iter().flatten().collect();
        let mut hist = vec![];
        let mut digest = rng::mix(rng::hash_str(&x.ran.log), rng::hash_str(&format!("{:?}{:?}", x.ran.code, x.ran.signal)));
        let switches = x.ran.ops.iter().filter(|o| o.what == "switch").count();
        if let Some(st) = st.as_deref_mut() {
            st.add("processes", 1);
            st.add("jobs", jobs.len() as u64);
            st.add("thread_switches", switches as u64);
            if p.threads.len() > 1 {
                st.add("runs with concurrent generations", 1);
            }
            if p.edit > 0 {
                st.add("runs that edit the grammar file between generations", 1);
            }
            if p.onto {
                st.add("runs that generate several times into one directory", 1);
            }
            for o in &x.ran.ops {
                if o.is_io() {
                    st.add("disk_operations", 1);
                }
                if let Some(m) = o.marker() {
                    st.add(&format!("fault:{} {}", o.what, m), 1);
                }
            }
            }
        if keep {
            for line in x.ran.log.lines().take(400) {
                hist.push(J::from(line));
            }
        }
        if x.ran.hung() {
            v.push(("hang".into(), if x.ran.log.contains("DEADLOCK") { "all threads wait for each other".into() } else { "the run did not end".into() }));
            return (v, digest, hist);
        }
        let hurt = |k: usize| {
            let (d, g) = (format!("out/{}/", k), format!("in/g{}.lapex", k));
            x.ran.ops.iter().any(|o| o.marker().is_some() && (o.path.starts_with(&d) || o.path == g))
        };
        if p.cli {
            let j = jobs[0];
            let r = &self.refs[j.unit];
            let con = x.ran.con.replace(place(&dir.join("disk"), p.style, &[(0, j)]).grammar[0].as_str(), "GRAMMAR");
            let a = x.answers[0].as_ref().unwrap();
            digest = rng::mix(digest, rng::hash_str(&con));
            if x.ran.code != r.code {
                v.push(("outcome".into(), format!("{}: status {:?} instead of {:?}: {}", self.units[j.unit].name, x.ran.code, r.code, tail(&con))));
            } else if r.code == Some(0) {
                if let Some(d) = differing(&a.files, &r.files) {
                    v.push(("files".into(), format!("{}: {}", self.units[j.unit].name, d)));
                }
            } else if r.code != Some(101) && con != r.con {
                v.push(("errors".into(), format!("{}: the reported errors differ: {}", self.units[j.unit].name, first_difference(&con, &r.con))));
            }
        } else {
            for (k, j) in jobs.iter().enumerate() {
                let name = &self.units[j.unit].name;
                let Some(r) = &self.refs[j.unit].lib[j.boot as usize] else { continue };
                let at = if jobs.len() == 1 { String::new() } else { format!(" (job {} of {} in {} threads)", k, jobs.len(), p.threads.len()) };
                let Some(a) = &x.answers[k] else {
                    v.push(("no-answer".into(), format!("{}{}: the process ended without an answer: status {:?}, signal {:?}, {}", name, at, x.ran.code, x.ran.signal, tail(&x.ran.con))));
                    continue;
                };
                digest = rng::mix(digest, rng::hash_str(&format!("{}{:?}", a.outcome, a.errors)));
                for (n, b) in &a.files {
                    digest = rng::mix(digest, rng::mix(rng::hash_str(n), rng::hash_bytes(b)));
                }
                if hurt(k) {
                    // its own disk failed; what matters is that nobody else noticed
                    continue;
                }
                if let Some(st) = st.as_deref_mut() {
                    st.add(&format!("job outcome {}", a.outcome), 1);
                }
                if a.outcome != r.outcome {
                    v.push(("outcome".into(), format!("{}{}: {} instead of {}: {}", name, at, a.outcome, r.outcome, a.errors.join(" "))));
                } else if a.outcome == "ok" && p.onto {
                    if k + 1 < jobs.len() {
                        continue;
                    }
                    let mut all = BTreeMap::new();
                    for j in &jobs {
                        all.extend(self.refs[j.unit].lib[j.boot as usize].as_ref().map_or(BTreeMap::new(), |r| r.files.clone()));
                    }
                    if let Some(d) = differing(&a.files, &all) {
                        v.push(("files".into(), format!("{}{}: {}", name, at, d)));
                    }
                } else if a.outcome == "ok" {
                    if let Some(d) = differing(&a.files, &r.files) {
                        v.push(("files".into(), format!("{}{}: {}", name, at, d)));
                    }
                } else if a.outcome == "error" && a.errors != r.errors {
                    v.push(("errors".into(), format!("{}{}: the reported errors differ: {}", name, at, first_difference(&a.errors.join("\n"), &r.errors.join("\n")))));
                }
            }
            for n in x.rest.keys() {
                if !matches!(n.as_str(), "in" | "out" | "other") && !n.starts_with("in/g") {
                    v.push(("stray".into(), format!("{} appeared", n)));
                }
            }
        }
        if let Some(st) = st {
            st.state(digest);
        }
        if keep {
            for (c, m) in &v {
                hist.push(J::from(format!("{}: {}", c, m)));
            }
        }
        (v, digest, hist)
    }
}

fn tail(s: &str) -> String {
    s.chars().take(250).collect::<String>().replace('\n', " ")
}

fn first_difference(a: &str, b: &str) -> String {
    let n = a.lines().zip(b.lines()).take_while(|(a, b)| a == b).count();
    let l = |s: &str| s.lines().nth(n).unwrap_or("(end)").to_string();
    format!("line {}: {:?} instead of {:?}", n + 1, tail(&l(a)), tail(&l(b)))
}

fn differing(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (n, y) in b {
        match a.get(n) {
            None => return Some(format!("{} is missing", n)),
            Some(x) if x != y => {
                let k = x.iter().zip(y).take_while(|(a, b)| a == b).count();
                return Some(format!("{} differs from byte {} on", n, k));
            }
            _ => {}
        }
    }
    a.keys().find(|n| !b.contains_key(*n)).map(|n| format!("{} is not there otherwise", n))
}

impl Scenario for ReproScenario {
    type Plan = RPlan;
    fn draw(&self, rng: &mut Rng) -> RPlan {
        let job = |rng: &mut Rng, s: &ReproScenario, small: bool| {
            if rng.pct(15) && !s.boots.is_empty() {
                let unit = *rng.pick(&s.boots);
                if !small || s.units[unit].text.len() < 600 {
                    return Job { unit, boot: true };
                }
            }
            Job { unit: if small && !s.small.is_empty() { *rng.pick(&s.small) } else { rng.below(s.units.len()) }, boot: false }
        };
        let mut p = RPlan { threads: vec![], cli: false, seed: rng.next() >> 1, bias: 0, alloc: 0, style: rng.below(4) as u8, env: if rng.pct(70) { rng.next() >> 1 | 1 } else { 0 }, faults: vec![], edit: 0, onto: false };
        match rng.below(10) {
            0..=2 => {
                p.cli = rng.pct(70);
                p.threads = vec![vec![job(rng, self, false)]];
                if p.cli {
                    p.threads[0][0].boot = false;
                }
            }
            3 | 4 => {
                // one after the other in one process
                let n = rng.range(2, 5);
                p.threads = vec![(0..n).map(|_| job(rng, self, n > 2)).collect()];
                if rng.pct(40) {
                    let j = p.threads[0][0].clone();
                    p.threads[0].push(j);
                }
                let good = p.threads[0].iter().all(|j| self.refs[j.unit].lib[j.boot as usize].as_ref().map_or(false, |r| r.outcome == "ok"));
                if rng.pct(60) {
                    p.edit = if good { rng.range(1, 3) as u8 } else { 1 };
                }
                p.onto = good && rng.pct(30);
            }
            _ => {
                let n = *rng.pick(&[2, 2, 2, 3, 4, 6]);
                let same = rng.pct(35);
                let first = job(rng, self, true);
                for _ in 0..n {
                    let k = *rng.pick(&[1, 1, 1, 2, 3]);
                    p.threads.push((0..k).map(|_| if same && rng.pct(80) { first.clone() } else { job(rng, self, true) }).collect());
                }
                p.bias = *rng.pick(&[3, 20, 50, 90]);
                p.alloc = *rng.pick(&[0, 3, 10, 30, 100, 1000]);
            }
        }
        if p.edit == 0 && !p.onto && p.threads.iter().flatten().count() > 1 && rng.pct(25) {
            for _ in 0..rng.range(1, 3) {
                let at = rng.below(30 * p.threads.len()) as i64;
                p.faults.push(Fault { at, kind: "err", arg: *rng.pick(&[5, 28, 13, 24]) });
            }
        }
        p
    }
    fn run(&self, p: &RPlan, mut st: Option<&mut Stats>) -> Out {
        if let Some(st) = st.as_deref_mut() {
            st.plan(rng::hash_str(&format!("{:?}", p)));
        }
        let (viols, digest, _) = self.execute(p, st, false);
        Out { viols, digest }
    }
    fn size(&self, p: &RPlan) -> usize {
        p.threads.iter().map(|t| 200 + t.iter().map(|j| 1000 + self.units[j.unit].text.len().min(20000) / 8 + j.boot as usize).sum::<usize>()).sum::<usize>()
            + p.faults.len() * 50
            + (p.bias > 0) as usize * 40
            + (p.alloc > 0) as usize * 40
            + p.style as usize
            + (p.env != 0) as usize * 20
            + p.edit as usize * 30
            + p.onto as usize * 30
            + !p.cli as usize
    }
    fn shrink(&self, p: &RPlan) -> Vec<RPlan> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut RPlan)| {
            let mut q = p.clone();
            f(&mut q);
            v.push(q);
        };
        for t in 0..p.threads.len() {
            if p.threads.len() > 1 {
                push(&|q| {
                    q.threads.remove(t);
                });
            }
            for j in 0..p.threads[t].len() {
                if p.threads[t].len() > 1 {
                    push(&|q| {
                        q.threads[t].remove(j);
                    });
                }
            }
        }
        for k in 0..p.faults.len() {
            push(&|q| {
                q.faults.remove(k);
            });
        }
        push(&|q| q.env = 0);
        if p.edit > 0 {
            push(&|q| q.edit -= 1);
        }
        push(&|q| q.onto = false);
        push(&|q| q.style = 0);
        push(&|q| q.alloc = 0);
        push(&|q| q.bias = 0);
        for t in 0..p.threads.len() {
            for j in 0..p.threads[t].len() {
                let u = p.threads[t][j].unit;
                let mut c: Vec<usize> = (0..self.units.len()).filter(|k| self.units[*k].text.len() < self.units[u].text.len()).collect();
                c.sort_by_key(|k| self.units[*k].text.len());
                for k in c.into_iter().take(3) {
                    push(&|q| q.threads[t][j] = Job { unit: k, boot: false });
                }
            }
        }
        v
    }
    fn replay_json(&self, p: &RPlan) -> J {
        let mut used: Vec<usize> = p.threads.iter().flatten().map(|j| j.unit).collect();
        used.sort();
        used.dedup();
        let pos = |u: usize| used.iter().position(|x| *x == u).unwrap();
        let threads: Vec<J> = p.threads.iter().map(|t| J::Arr(t.iter().map(|j| crate::obj! {"unit" => pos(j.unit), "boot" => j.boot}).collect())).collect();
        let faults: Vec<J> = p.faults.iter().map(|f| crate::obj! {"operation" => f.at, "kind" => f.kind, "arg" => f.arg}).collect();
        crate::obj! {
            "kind" => "reproducibility", "units" => used.iter().map(|u| self.units[*u].json()).collect::<Vec<J>>(), "threads" => threads,
            "command" => p.cli, "seed_process" => format!("{}", p.seed), "bias" => p.bias, "alloc" => p.alloc, "style" => p.style as usize,
            "env" => format!("{}", p.env), "faults" => faults, "edited_file" => p.edit as usize, "one_directory" => p.onto
        }
    }
    fn history(&self, p: &RPlan) -> Vec<J> {
        self.execute(p, None, true).2
    }
    fn sample(&self, p: &RPlan) -> J {
        let t: Vec<J> = p.threads.iter().map(|t| J::Arr(t.iter().map(|j| J::from(self.units[j.unit].name.as_str())).collect())).collect();
        crate::obj! {"threads" => t, "command" => p.cli, "switch_percent" => p.bias, "allocations_between_gates" => p.alloc, "faults" => p.faults.len()}
    }
    fn repeated(&self) -> u64 {
        100
    }
    fn watchdog(&self) -> u64 {
        60
    }
}

impl RPlan {
    fn from_json(j: &J) -> RPlan {
        let big = |k: &str| j.get(k).str().parse().unwrap_or(0);
        RPlan {
            threads: j.get("threads").arr().iter().map(|t| t.arr().iter().map(|x| Job { unit: x.get("unit").u(), boot: x.get("boot").bool() }).collect()).collect(),
            cli: j.get("command").bool(),
            seed: big("seed_process"),
            bias: j.get("bias").int() as u64,
            alloc: j.get("alloc").int() as u64,
            style: j.get("style").u() as u8,
            env: big("env"),
            faults: j.get("faults").arr().iter().map(|f| Fault { at: f.get("operation").int(), kind: "err", arg: f.get("arg").int() }).collect(),
            edit: j.get("edited_file").int() as u8,
            onto: j.get("one_directory").bool(),
        }
    }
}

pub fn check(seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new("C05");
    let units = draw_units("C05", seed, thorough);
    let n = units.len();
    let units = in_time(&env, units);
    let (s, bad) = ReproScenario::new(&env, units);
    let mut rep = Report::new("C05", seed, thorough);
    if let Some(b) = bad.first() {
        rep.violation(&crate::obj! {
            "property" => "C05", "kind" => "reproducibility", "seed" => seed, "class" => b.1.as_str(), "message" => format!("{}: {}", s.units[b.0].name, b.2),
            "units" => vec![s.units[b.0].json()], "threads" => vec![J::Arr(vec![crate::obj!{"unit" => 0, "boot" => false}])], "command" => false,
            "seed_process" => "24301", "bias" => 0, "alloc" => 0, "style" => 0, "env" => "0", "faults" => J::Arr(vec![])
        });
    }
    if rep.ok() {
        let what = Search { runs: if thorough { 400_000 } else { 6_000 }, cap_s: if thorough { 600 } else { 110 }, seed, prop: "C05".into() };
        let st = explore(&s, &env, &what, &mut rep);
        let g = |k: &str| st.n.get(k).copied().unwrap_or(0);
        rep.cover("simulated_time", format!("logical: {} disk operations and {} thread switches; every process starts at a clock drawn from its seed", g("disk_operations"), g("thread_switches")));
    } else {
        rep.cover("evaluations", 0u64);
    }
    rep.cover("generation_units", n);
    rep.cover(
        "rule",
        "one evaluation = one simulated process: the real command with one generation, or the library with 1-18 generations one after the other and in up to 6 threads under a seeded scheduler (switches at disk operations, locks, thread starts and allocations); hash seeds, heap and stack addresses, clock, process id, number of processors, environment and paths are drawn per process; every job is compared with the same job alone; distinct = different (jobs, seeds, schedule)",
    );
    rep.cover("real_code", "lapex-cli, lapex with both grammar front ends, lapex-lexer, lapex-parser, the code generators, Rust's std (threads, hash maps, fs, io)");
    rep.cover("stubs", "C library calls for files, memory, random bytes, clocks, threads (simfs.c over a scratch directory)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let env = Env::new("replay");
    let units: Vec<Gu> = j.get("units").arr().iter().map(Gu::from_json).collect();
    // both front ends may be needed
    let (s, bad) = ReproScenario::new(&env, units);
    let r = match bad.first() {
        Some(b) => Some((b.1.clone(), b.2.clone())),
        None => probe(&s, &env, &RPlan::from_json(j)),
    };
    env.clean();
    r
}
