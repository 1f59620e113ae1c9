//! The generator on a simulated disk (C01, C02, C03, C04, C06, C07): whole runs of the real command
//! (and of its library interface) with faults, crashes and left-overs, judged from the disk's history.
use crate::build::*;
use crate::curated::{self, CURATED};
use crate::driver::*;
use crate::frontend;
use crate::gen::{self, Class};
use crate::json::J;
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

// ---------------------------------------------------------------------------------------------
// what is generated

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Expect {
    /// inside the class: generation has to succeed
    Good,
    /// must not be reported as a success
    Bad,
}

#[derive(Clone)]
pub struct Gu {
    pub name: String,
    pub text: String,
    pub lang: &'static str,
    pub algo: &'static str,
    pub table: bool,
    pub lexer: bool,
    pub expect: Expect,
    /// what an undisturbed run did
    pub ok: bool,
    pub files: BTreeMap<String, Vec<u8>>,
    pub ops: Vec<Op>,
    pub con: String,
}

impl Gu {
    pub fn new(name: String, text: String, lang: &'static str, algo: &'static str, table: bool, lexer: bool, expect: Expect) -> Gu {
        Gu { name, text, lang, algo, table, lexer, expect, ok: false, files: BTreeMap::new(), ops: vec![], con: String::new() }
    }
    pub fn promised(&self) -> Vec<&'static str> {
        let mut v = vec![];
        if self.lang == "rust" {
            v.push("tokens.rs");
            if self.lexer {
                v.push("lexer.rs");
            }
            v.push("parser.rs");
        } else {
            v.extend(["tokens.h", "tokens.cpp"]);
            if self.lexer {
                v.extend(["lexer.h", "lexer.cpp"]);
            }
            v.extend(["parser.h", "parser.cpp", "parser_impl.h", "visitor.h"]);
        }
        if self.table && self.algo != "ll1" {
            v.push("table");
        }
        v
    }
    pub fn supported(lang: &str, algo: &str) -> bool {
        !(lang == "rust" && algo == "ll1" || lang == "cpp" && algo == "glr")
    }
    pub fn json(&self) -> J {
        crate::obj! {
            "name" => self.name.as_str(), "language" => self.lang, "algorithm" => self.algo, "table" => self.table,
            "lexer" => self.lexer, "expect" => if self.expect == Expect::Good { "good" } else { "bad" }, "grammar" => self.text.as_str()
        }
    }
    pub fn from_json(j: &J) -> Gu {
        let lang = if j.get("language").str() == "rust" { "rust" } else { "cpp" };
        let algo = ["ll1", "lr0", "lr1", "lalr", "glr"].into_iter().find(|a| *a == j.get("algorithm").str()).unwrap_or_else(|| die("replay: algorithm"));
        let e = if j.get("expect").str() == "good" { Expect::Good } else { Expect::Bad };
        Gu::new(j.get("name").str().into(), j.get("grammar").str().into(), lang, algo, j.get("table").bool(), j.get("lexer").bool(), e)
    }
}

const ALGOS: [(&str, Class); 5] = [("ll1", Class::Ll1), ("lr0", Class::Lr0), ("lr1", Class::Lr1), ("lalr", Class::Lalr), ("glr", Class::Glr)];

/// What is known about a grammar under an algorithm, if anything.
fn expectation(text: &str, lang: &str, class: Class) -> Option<Expect> {
    match gen::examine(text, class, 400) {
        Ok(_) => {
            // a conflict between tokens would be reported as well
            Some(if Gu::supported(lang, class.flag()) { Expect::Good } else { Expect::Bad })
        }
        Err(e) if e == format!("not {}", class.flag()) => {
            // known to conflict only when everything else about the grammar is in order
            let m = gen::examine(text, Class::Glr, 400).ok()?;
            let l = m.lr.as_ref()?;
            let bad = match class {
                Class::Lr0 => !l.lr0,
                Class::Lalr => !l.lalr,
                Class::Lr1 => !l.lr1,
                // also grammars that are refused for other reasons than a conflict
                Class::Ll1 => m.an.reduced && crate::analysis::ll1_table(&m.cfg, &m.an).is_none(),
                Class::Glr => false,
            };
            bad.then_some(Expect::Bad)
        }
        Err(_) => None,
    }
}

/// Grammars that are syntactically fine and must be refused.
fn broken() -> Vec<(&'static str, String, &'static str)> {
    let mut v: Vec<(&'static str, String, &'static str)> = vec![
        ("unknown-symbol", "entry s;\ntoken A = \"a\";\nprod s = A zzz;\n".into(), "lalr"),
        ("unknown-entry", "entry zzz;\ntoken A = \"a\";\nprod s = A;\n".into(), "lalr"),
        ("no-entry", "token A = \"a\";\nprod s = A;\n".into(), "lr1"),
        ("two-entries", "entry s;\nentry t;\ntoken A = \"a\";\nprod s = A;\nprod t = A;\n".into(), "lr1"),
        ("overlap", "entry s;\ntoken A = /a|b/;\ntoken B = /b|c/;\nprod s = A;\nprod s = B;\n".into(), "lalr"),
        ("not-a-grammar", "entry s\ntoken A = \"a\";\nprod s = A;\n".into(), "lalr"),
        ("bad-regex", "entry s;\ntoken A = /(/;\nprod s = A;\n".into(), "lalr"),
        ("empty", "".into(), "lalr"),
        ("ll1-conflict", "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s = A;\nprod s = A B;\n".into(), "ll1"),
    ];
    for n in [1usize, 2, 255, 256, 257, 512] {
        // every one of n states has a reduce-reduce conflict
        let mut t = String::from("entry s;\ntoken A = \"a\";\n");
        for i in 0..n {
            t.push_str(&format!("token T{} = \"t{:03}\";\n", i, i));
        }
        for i in 0..n {
            t.push_str(&format!("prod s = T{} p{};\nprod p{} = A;\nprod s = T{} q{};\nprod q{} = A;\n", i, i, i, i, i, i));
        }
        v.push((["conflicts-1", "conflicts-2", "conflicts-255", "conflicts-256", "conflicts-257", "conflicts-512"][[1, 2, 255, 256, 257, 512].iter().position(|x| *x == n).unwrap()], t, "lalr"));
    }
    v
}

pub fn draw_units(prop: &str, seed: u64, thorough: bool) -> Vec<Gu> {
    let mut v = vec![];
    let mut rng = Rng::new(rng::mix(seed, rng::hash_str(&format!("gen/{}", prop))));
    for c in CURATED {
        let lang = *rng.pick(&["rust", "cpp"]);
        for (algo, class) in ALGOS {
            if c.classes.contains(&class) && rng.pct(50) {
                if let Some(e) = expectation(c.text, lang, class) {
                    v.push(Gu::new(format!("{}/{}/{}", lang, algo, c.name), c.text.into(), lang, algo, rng.pct(40), rng.pct(85), e));
                }
            }
        }
    }
    for (name, text, classes) in curated::large() {
        let class = *rng.pick(&classes);
        let lang = if class == Class::Glr { "rust" } else if class == Class::Ll1 { "cpp" } else { *rng.pick(&["rust", "cpp"]) };
        // the ones that take seconds would dominate
        if name == "many-rules" || name == "rule-of-300" {
            v.push(Gu::new(format!("{}/{}/{}", lang, class.flag(), name), text, lang, class.flag(), false, false, Expect::Good));
        }
    }
    for (name, text, algo) in broken() {
        // the big conflict reports only matter for the exit status and the error list
        if name.starts_with("conflicts-") && name.len() > 11 && !matches!(prop, "C07" | "C05") {
            continue;
        }
        let lang = if algo == "ll1" { "cpp" } else { *rng.pick(&["rust", "cpp"]) };
        v.push(Gu::new(format!("{}/{}/{}", lang, algo, name), text, lang, algo, rng.pct(50), true, Expect::Bad));
    }
    let n = if thorough { 400 } else { 70 };
    for i in 0..n {
        let class = ALGOS[rng.below(5)];
        let m = gen::grammar(&mut rng, class.1);
        // mostly the algorithm the grammar was made for
        let (algo, cl) = if rng.pct(75) { class } else { ALGOS[rng.below(5)] };
        let lang = match (algo, rng.pct(90)) {
            ("ll1", true) => "cpp",
            ("glr", true) => "rust",
            _ => *rng.pick(&["rust", "cpp"]),
        };
        if let Some(e) = expectation(&m.text, lang, cl) {
            v.push(Gu::new(format!("{}/{}/{}-{}", lang, algo, m.origin, i), m.text, lang, algo, rng.pct(50), rng.pct(80), e));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------
// history of the disk

#[derive(Clone, Debug)]
pub struct Op {
    pub th: usize,
    pub what: String,
    /// relative to the simulated root
    pub path: String,
    pub rest: String,
}

pub fn ops_of(log: &str) -> Vec<Op> {
    let mut v = vec![];
    for l in log.lines() {
        let mut w = l.splitn(5, ' ');
        let th = w.next().and_then(|c| c.bytes().next()).map_or(0, |c| c.wrapping_sub(b'0') as usize);
        let a = w.next().unwrap_or("");
        if a == "-" || a.parse::<i64>().is_ok() {
            v.push(Op { th, what: w.next().unwrap_or("").into(), path: w.next().unwrap_or("").into(), rest: w.next().unwrap_or("").into() });
        } else {
            v.push(Op { th, what: a.into(), path: w.next().unwrap_or("").into(), rest: [w.next().unwrap_or(""), w.next().unwrap_or("")].join(" ") });
        }
    }
    v
}

impl Op {
    /// value after the "="
    pub fn result(&self) -> i64 {
        let r = self.rest.rsplit("= ").next().unwrap_or("");
        let r = r.trim_start_matches("fd ");
        r.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0)
    }
    pub fn marker(&self) -> Option<&str> {
        self.rest.rsplit('!').next().filter(|_| self.rest.contains('!'))
    }
    pub fn is_io(&self) -> bool {
        matches!(self.what.as_str(), "open" | "read" | "write" | "truncate" | "sync" | "close")
    }
    /// An operation that changes what is on the disk (and was carried out).
    pub fn mutates(&self) -> bool {
        if self.result() < 0 {
            return false;
        }
        match self.what.as_str() {
            "open" => {
                let f = self.rest.split(' ').next().unwrap_or("");
                f.contains('c') || f.contains('t') || f.contains('w')
            }
            "write" | "truncate" | "allocate" | "chmod" | "chown" | "utime" | "rename" | "link" | "symlink" | "unlink" | "rmdir" | "mkdir" | "mknod" | "map" => true,
            _ => false,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// plans

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: i64,
    pub kind: &'static str,
    pub arg: i64,
}
const FAULT_KINDS: [&str; 7] = ["err", "dead", "short", "intr", "zero", "kill", "full"];

#[derive(Clone, Debug)]
pub struct Step {
    pub unit: usize,
    pub seed: u64,
    pub cli: bool,
    pub faults: Vec<Fault>,
    /// (seed, largest read, largest write, percentage of interruptions)
    pub jitter: Option<(u64, i64, i64, i64)>,
    /// (bytes left, errno)
    pub full: Option<(i64, i64)>,
    pub console: Option<(i64, i64)>,
    pub oom: Option<i64>,
    /// decides what a crash takes with it (0: nothing)
    pub loss: u64,
    /// the grammar file's bytes, where they are not the unit's
    pub bytes: Option<Vec<u8>>,
    /// 0 there, 1 missing, 2 a directory
    pub absent: u8,
    pub labels: Vec<String>,
}

impl Step {
    pub fn plain(unit: usize, seed: u64) -> Step {
        Step { unit, seed, cli: true, faults: vec![], jitter: None, full: None, console: None, oom: None, loss: 0, bytes: None, absent: 0, labels: vec![] }
    }
    fn disturbed(&self) -> bool {
        self.hard() || !self.faults.is_empty() || self.jitter.is_some()
    }
    fn hard(&self) -> bool {
        self.faults.iter().any(|f| !matches!(f.kind, "short" | "intr")) || self.full.is_some() || self.console.is_some() || self.oom.is_some() || self.bytes.is_some() || self.absent != 0
    }
}

/// A file that is in the target directory before the first step.
#[derive(Clone, Debug)]
pub struct Init {
    pub name: String,
    /// made from the reference output of this unit
    pub unit: usize,
    pub kind: u8,
    pub seed: u64,
}

#[derive(Clone, Debug)]
pub struct GPlan {
    pub style: u8,
    /// target directory is missing
    pub no_target: bool,
    pub init: Vec<Init>,
    pub steps: Vec<Step>,
}

pub const STYLES: u8 = 7;

pub struct Layout {
    pub cwd: &'static str,
    pub grammar: String,
    pub target: Option<String>,
    /// relative to the root
    pub grammar_rel: &'static str,
    pub out_rel: &'static str,
}

pub fn layout(style: u8, root: &Path) -> Layout {
    let l = |cwd, g: &str, t: Option<&str>, gr, or| Layout { cwd, grammar: g.into(), target: t.map(|x| x.to_string()), grammar_rel: gr, out_rel: or };
    match style {
        1 => Layout {
            cwd: "other",
            grammar: root.join("in/g.lapex").display().to_string(),
            target: Some(root.join("out").display().to_string()),
            grammar_rel: "in/g.lapex",
            out_rel: "out",
        },
        2 => l("in", "./g.lapex", Some("../out/"), "in/g.lapex", "out"),
        3 => l("out", "../in/g.lapex", Some("."), "in/g.lapex", "out"),
        4 => l(".", "out/g.lapex", Some("out"), "out/g.lapex", "out"),
        5 => l(".", "in/g.lapex", None, "in/g.lapex", "generated"),
        6 => l(".", "in/grämmar", Some("in/../out"), "in/grämmar", "out"),
        _ => l(".", "in/g.lapex", Some("out"), "in/g.lapex", "out"),
    }
}

pub type Snap = BTreeMap<String, Option<Vec<u8>>>;

pub fn snapshot(root: &Path) -> Snap {
    fn go(d: &Path, rel: &str, o: &mut Snap) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let n = format!("{}{}", rel, e.file_name().to_string_lossy());
            let t = e.file_type();
            if t.as_ref().map_or(false, |t| t.is_dir()) {
                o.insert(n.clone(), None);
                go(&e.path(), &format!("{}/", n), o);
            } else if t.as_ref().map_or(false, |t| t.is_symlink()) {
                o.insert(n, Some(format!("-> {:?}", std::fs::read_link(e.path())).into_bytes()));
            } else {
                o.insert(n, Some(std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut o = Snap::new();
    go(root, "", &mut o);
    o
}

// ---------------------------------------------------------------------------------------------
// one process on the simulated disk

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub con: String,
    pub log: String,
    pub ops: Vec<Op>,
}

impl Ran {
    pub fn hung(&self) -> bool {
        self.signal == Some(24) || self.signal == Some(9) && !self.killed() || self.log.contains("DEADLOCK")
    }
    pub fn killed(&self) -> bool {
        self.log.contains("!kill")
    }
}

pub const LOG: u64 = 4 << 20;

#[derive(Clone)]
pub struct Machine {
    pub simfs: PathBuf,
    pub cli: PathBuf,
    pub simgen: PathBuf,
}

impl Machine {
    pub fn build(env: &Env, with_simgen: bool) -> Machine {
        let cli = env.cli();
        let simfs = env.work.join("simfs.so");
        let mut c = Command::new("gcc");
        c.args(["-O1", "-g0", "-shared", "-fPIC", "-fno-builtin", "-w", "-o"]).arg(&simfs).arg(env.verif.join("simfs/simfs.c")).args(["-ldl", "-lpthread"]);
        let r = run(c, std::time::Duration::from_secs(120));
        if !r.ok {
            die(&format!("simfs: {}", r.out));
        }
        let mut simgen = PathBuf::new();
        if with_simgen {
            env.cargo(&env.verif.join("simgen/Cargo.toml"), "lapex", &["--bin", "simgen"], false);
            simgen = env.target.join("lapex/debug/simgen");
        }
        // the binaries must not change under a run
        let keep = |p: &Path| {
            let to = env.work.join(p.file_name().unwrap());
            if let Err(e) = std::fs::copy(p, &to) {
                die(&format!("{}: {}", p.display(), e));
            }
            to
        };
        let cli = keep(&cli);
        if with_simgen {
            simgen = keep(&simgen);
        }
        Machine { simfs, cli, simgen }
    }
    /// Runs one process; `plan` holds the directives for the simulated surface.
    pub fn spawn(&self, dir: &Path, exe: &Path, args: &[String], cwd: &Path, plan: &str, envs: &[(String, String)]) -> Ran {
        let (pf, lf, cf) = (dir.join("plan"), dir.join("log"), dir.join("con"));
        std::fs::write(&pf, plan).unwrap_or_else(|e| die(&e.to_string()));
        if !lf.exists() {
            let f = std::fs::File::create(&lf).unwrap();
            f.set_len(LOG).unwrap();
        }
        let con = std::fs::File::create(&cf).unwrap_or_else(|e| die(&e.to_string()));
        let con2 = con.try_clone().unwrap();
        let mut c = Command::new(exe);
        c.args(args).current_dir(cwd).env_clear();
        c.env("SIMFS_PLAN", &pf).env("SIMFS_LOG", &lf).env("LD_PRELOAD", &self.simfs).env("RUST_BACKTRACE", "0");
        for (k, v) in envs {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(con).stderr(con2);
        unsafe {
            c.pre_exec(|| {
                // addresses come from the simulation alone
                sys::personality(0x0040000);
                sys::setrlimit(0, &[20, 25]);
                sys::setrlimit(4, &[0, 0]);
                // a run that only waits would wait forever
                sys::alarm(120);
                Ok(())
            });
        }
        let mut ch = c.spawn().unwrap_or_else(|e| die(&format!("{}: {}", exe.display(), e)));
        let st = ch.wait().unwrap_or_else(|e| die(&e.to_string()));
        let con = strip_ansi(&String::from_utf8_lossy(&std::fs::read(&cf).unwrap_or_default()));
        let (log, used) = read_log(&lf);
        if let Ok(d) = std::env::var("SIM_LOGS") {
            let _ = std::fs::write(format!("{}/{:016x}-{}", d, rng::hash_str(&plan[plan.find('\n').unwrap_or(0)..]), unsafe { sys::getpid() }), &log);
        }
        if used > 0 {
            clear_log(&lf, used);
        }
        match st.code() {
            Some(97) | Some(98) => die("simfs could not start"),
            _ => {}
        }
        let signal = match st.signal() {
            Some(14) => Some(24),
            s => s,
        };
        Ran { code: st.code(), signal, con, ops: ops_of(&log), log }
    }
}

pub fn read_log(f: &Path) -> (String, usize) {
    use std::io::Read;
    let mut b = vec![0u8; 1 << 16];
    let mut o = vec![];
    let mut h = std::fs::File::open(f).unwrap();
    loop {
        let n = h.read(&mut b).unwrap_or(0);
        let z = b[..n].iter().position(|x| *x == 0);
        o.extend_from_slice(&b[..z.unwrap_or(n)]);
        if n == 0 || z.is_some() {
            break;
        }
    }
    let n = o.len();
    (String::from_utf8_lossy(&o).to_string(), n)
}

fn clear_log(f: &Path, used: usize) {
    use std::io::Write;
    let mut h = std::fs::OpenOptions::new().write(true).open(f).unwrap();
    let _ = h.write_all(&vec![0u8; used + 64]);
}

// ---------------------------------------------------------------------------------------------
// scenario

pub struct GenScenario {
    pub prop: String,
    pub units: Vec<Gu>,
    pub m: Machine,
    pub base: PathBuf,
    good: Vec<usize>,
    bad: Vec<usize>,
}

/// What a step claims to have done.
#[derive(PartialEq, Debug)]
enum Claim {
    Ok,
    Error,
    Panic,
    Killed,
    Signal(i32),
}

const BYSTANDERS: [&str; 14] = [
    "other/parser.rs", "other/tokens.h", "in/notes.txt", "tokens.rs", "lexer.cpp", "out/README.md", "out/sub/lexer.rs", "out/sub/visitor.h",
    "generated/sub/parser.rs", "out/mod.rs", "generated/main.cpp", "in/tokens.rs", "out/grammar.lapex.bak", "other/keep",
];
const ALL_OUTPUTS: [&str; 12] =
    ["tokens.rs", "lexer.rs", "parser.rs", "tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h", "table"];

/// Leaves out big grammars whose generation takes long by itself.
pub fn in_time(env: &Env, units: Vec<Gu>) -> Vec<Gu> {
    let cli = env.cli();
    let slow: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);
    parallel(units.len(), env.jobs, |i| {
        if units[i].text.len() > HEAVY {
            let dir = env.work.join(format!("time{}", i));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("g.lapex"), &units[i].text).unwrap();
            let mut c = Command::new(&cli);
            c.args(["generate", "-l", units[i].lang, "-a", units[i].algo, "--target"]).arg(&dir).arg(dir.join("g.lapex"));
            if run(c, std::time::Duration::from_secs(8)).timed_out {
                eprintln!("{}: generation takes long, left out", units[i].name);
                slow.lock().unwrap().push(i);
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
    });
    let slow = slow.into_inner().unwrap();
    units.into_iter().enumerate().filter(|u| !slow.contains(&u.0)).map(|u| u.1).collect()
}

impl GenScenario {
    pub fn new(prop: &str, env: &Env, mut units: Vec<Gu>) -> (GenScenario, Vec<(usize, String, String)>) {
        let m = Machine::build(env, true);
        let base = env.work.clone();
        let res: std::sync::Mutex<Vec<Option<(Ran, Snap)>>> = std::sync::Mutex::new((0..units.len()).map(|_| None).collect());
        parallel(units.len(), env.jobs, |i| {
            let dir = base.join(format!("ref{}", i));
            let root = dir.join("disk");
            setup(&root, &layout(0, &root), &units[i].text);
            let s = Step::plain(i, 0x5eed);
            let r = run_step(&m, &dir, &root, &units[i], &s, &layout(0, &root));
            let snap = snapshot(&root.join("out"));
            let _ = std::fs::remove_dir_all(&dir);
            res.lock().unwrap()[i] = Some((r, snap));
        });
        let mut bad = vec![];
        for (i, x) in res.into_inner().unwrap().into_iter().enumerate() {
            let (r, snap) = x.unwrap();
            let u = &mut units[i];
            u.ok = r.code == Some(0);
            u.ops = r.ops.iter().filter(|o| o.is_io()).cloned().collect();
            u.con = r.con.clone();
            if r.hung() {
                bad.push((i, "hang".to_string(), "an undisturbed run did not end".to_string()));
            }
            for p in u.promised() {
                match snap.get(p) {
                    Some(Some(b)) => {
                        if u.ok && b.is_empty() {
                            bad.push((i, "incomplete".into(), format!("success was reported, {} is empty", p)));
                        }
                        u.files.insert(p.to_string(), b.clone());
                    }
                    _ if u.ok => bad.push((i, "incomplete".into(), format!("success was reported, {} was not written", p))),
                    _ => {}
                }
            }
            if u.ok && u.expect == Expect::Bad {
                bad.push((i, "false-success".into(), "success was reported for a grammar that has to be refused".into()));
            }
            if !u.ok && r.con.is_empty() {
                bad.push((i, "silent-failure".into(), "generation failed without a word".into()));
            }
        }
        let good = (0..units.len()).filter(|i| units[*i].ok && units[*i].expect == Expect::Good).collect();
        let worse = (0..units.len()).filter(|i| !units[*i].ok && units[*i].expect == Expect::Bad).collect();
        (GenScenario { prop: prop.into(), units, m, base, good, bad: worse }, bad)
    }
    fn dir(&self) -> PathBuf {
        self.base.join(format!("w{:08}", unsafe { sys::getpid() }))
    }
}

/// A fresh disk with bystanders.
pub fn setup(root: &Path, l: &Layout, grammar: &str) {
    let _ = std::fs::remove_dir_all(root);
    for d in ["in", "out", "other", "out/sub", "generated", "generated/sub"] {
        std::fs::create_dir_all(root.join(d)).unwrap_or_else(|e| die(&e.to_string()));
    }
    for b in BYSTANDERS {
        std::fs::write(root.join(b), format!("bystander {}\n", b)).unwrap();
    }
    std::fs::write(root.join(l.grammar_rel), grammar).unwrap();
}

pub fn directives(root: &Path, s: &Step) -> String {
    let mut o = format!("root {}\nseed {}\nsched {} 50 0\nclock {}\npid {}\n", root.display(), s.seed as i64 & i64::MAX, s.seed & 0xffff, 1_000_000_000 + s.seed % 2_000_000_000, 2 + s.seed % 30000);
    for f in &s.faults {
        o.push_str(&format!("fault {} {} {}\n", f.at, f.kind, f.arg));
    }
    if let Some((a, b, c, d)) = s.jitter {
        o.push_str(&format!("jitter {} {} {} {}\n", a & 0xffff_ffff, b, c, d));
    }
    if let Some((n, e)) = s.full {
        o.push_str(&format!("full {} {}\n", n, e));
    }
    if let Some((n, e)) = s.console {
        o.push_str(&format!("console {} {}\n", n, e));
    }
    if let Some(n) = s.oom {
        o.push_str(&format!("oom {}\n", n));
    }
    o
}

pub fn job_json(u: &Gu, grammar: &str, target: &str) -> J {
    crate::obj! {"grammar" => grammar, "target" => target, "lang" => u.lang, "algo" => u.algo, "table" => u.table, "lexer" => u.lexer}
}

pub fn run_step(m: &Machine, dir: &Path, root: &Path, u: &Gu, s: &Step, l: &Layout) -> Ran {
    let cwd = root.join(l.cwd);
    let cwd = std::fs::canonicalize(&cwd).unwrap_or(cwd);
    let plan = directives(root, s);
    if s.cli {
        let mut a: Vec<String> = ["generate", "-l", u.lang, "-a", u.algo].iter().map(|x| x.to_string()).collect();
        if u.table {
            a.push("--table".into());
        }
        if !u.lexer {
            a.push("--no-lexer".into());
        }
        if let Some(t) = &l.target {
            a.push("--target".into());
            a.push(t.clone());
        }
        a.push(l.grammar.clone());
        m.spawn(dir, &m.cli, &a, &cwd, &plan, &[])
    } else {
        let j = crate::obj! {"threads" => vec![J::Arr(vec![job_json(u, &l.grammar, l.target.as_deref().unwrap_or("./generated/"))])]};
        let jf = dir.join("jobs.json");
        std::fs::write(&jf, j.text()).unwrap();
        m.spawn(dir, &m.simgen, &["jobs".into(), jf.display().to_string()], &cwd, &plan, &[])
    }
}

/// The answers of a library run, if it got to give them.
pub fn answers(con: &str) -> Option<J> {
    con.lines().rev().find(|l| l.starts_with("[[")).and_then(|l| J::parse(l).ok())
}

fn claim(s: &Step, r: &Ran) -> (Claim, String) {
    if r.killed() && r.signal == Some(9) {
        return (Claim::Killed, String::new());
    }
    if let Some(x) = r.signal {
        return (Claim::Signal(x), r.con.clone());
    }
    if s.cli {
        return match r.code {
            Some(0) => (Claim::Ok, r.con.clone()),
            Some(101) => (Claim::Panic, r.con.clone()),
            _ => (Claim::Error, r.con.clone()),
        };
    }
    match answers(&r.con) {
        Some(j) => {
            let a = &j.arr()[0].arr()[0];
            match a.get("outcome").str() {
                "ok" => (Claim::Ok, String::new()),
                "error" => (Claim::Error, strip_ansi(&a.get("errors").arr().iter().map(|x| x.str()).collect::<Vec<_>>().join("\n\n"))),
                _ => (Claim::Panic, a.get("message").str().to_string()),
            }
        }
        None => (Claim::Panic, r.con.clone()),
    }
}

/// What a crash leaves of a file whose new content was not forced to the disk.
fn after_crash(rng: &mut Rng, old: Option<&Vec<u8>>, new: &[u8]) -> (&'static str, Option<Vec<u8>>) {
    match rng.below(8) {
        0 | 1 => ("kept", Some(new.to_vec())),
        2 => ("old-content", old.cloned()),
        3 => ("emptied", Some(vec![])),
        4 => ("prefix", Some(new[..rng.below(new.len() + 1)].to_vec())),
        5 => {
            let mut v = new.to_vec();
            let k = rng.below(v.len() + 1);
            for x in v[k..].iter_mut() {
                *x = 0;
            }
            ("zeros", Some(v))
        }
        6 => {
            // the new length reached the disk, some of the data did not
            let mut v = new.to_vec();
            if let Some(o) = old {
                let k = rng.below(v.len() + 1);
                for i in k..v.len() {
                    v[i] = *o.get(i).unwrap_or(&0);
                }
            }
            ("mixed", Some(v))
        }
        _ => {
            let mut v = new.to_vec();
            v.extend_from_slice(&vec![0u8; 1 + rng.below(600)]);
            ("padded", Some(v))
        }
    }
}

fn init_bytes(i: &Init, u: &Gu) -> Vec<u8> {
    let r = u.files.get(&i.name).cloned().unwrap_or_else(|| format!("// old {}\n", i.name).repeat(30).into_bytes());
    let mut rng = Rng::new(i.seed);
    match i.kind {
        0 => r.iter().map(|_| b'x').collect(),
        1 => {
            let mut v = r;
            v.extend(std::iter::repeat(b"// left over\n").take(1 + rng.below(2000)).flatten());
            v
        }
        2 => r[..rng.below(r.len() + 1)].to_vec(),
        3 => r,
        4 => {
            let mut v = r;
            if !v.is_empty() {
                let k = rng.below(v.len());
                v[k] ^= 1 << rng.below(7);
            }
            v
        }
        5 => vec![],
        6 => (0..rng.below(60000)).map(|k| (k % 251) as u8).collect(),
        _ => {
            let mut v = r;
            let k = rng.below(v.len() + 1);
            v.truncate(k);
            v.resize(k + rng.below(9000), 0);
            v
        }
    }
}

pub fn set_mtime(f: &Path, t: u64) {
    if let Ok(h) = std::fs::OpenOptions::new().append(true).open(f) {
        let _ = h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(t));
    }
}

struct Executed {
    viols: Vec<(String, String)>,
    digest: u64,
    hist: Vec<J>,
}

impl GenScenario {
    fn execute(&self, p: &GPlan, mut st: Option<&mut Stats>, keep: bool) -> Executed {
        let dir = self.dir();
        let root = dir.join("disk");
        let l = layout(p.style, &root);
        let first = &p.steps[0];
        setup(&root, &l, &self.units[first.unit].text);
        let out = root.join(l.out_rel);
        for i in &p.init {
            let f = out.join(&i.name);
            if i.kind == 9 {
                let _ = std::fs::create_dir_all(&f);
            } else {
                let _ = std::fs::write(&f, init_bytes(i, &self.units[i.unit]));
            }
        }
        if p.no_target {
            let _ = std::fs::remove_dir_all(&out);
        }
        let mut ex = Executed { viols: vec![], digest: 0, hist: vec![] };
        let n = p.steps.len();
        for (k, s) in p.steps.iter().enumerate() {
            let u = &self.units[s.unit];
            let g = root.join(l.grammar_rel);
            let _ = std::fs::remove_file(&g);
            let _ = std::fs::remove_dir(&g);
            match s.absent {
                1 => {}
                2 => std::fs::create_dir(&g).unwrap_or_default(),
                _ => std::fs::write(&g, s.bytes.as_deref().unwrap_or(u.text.as_bytes())).unwrap_or_default(),
            }
            // clocks of different machines wrote the files
            if let (0, Some(t)) = (s.absent, [None, Some(1_000_000_000), Some(4_000_000_000u64), Some(0)][(s.seed >> 20) as usize % 4]) {
                set_mtime(&g, t);
            }
            let before = snapshot(&root);
            let r = run_step(&self.m, &dir, &root, u, s, &l);
            let after = snapshot(&root);
            let (c, text) = claim(s, &r);
            ex.digest = rng::mix(ex.digest, rng::mix(rng::hash_str(&r.log), rng::hash_str(&format!("{:?}{:?}", r.code, r.signal))));
            for (n, b) in &after {
                ex.digest = rng::mix(ex.digest, rng::mix(rng::hash_str(n), b.as_ref().map_or(0, |b| rng::hash_bytes(b))));
            }
            if let Some(st) = st.as_deref_mut() {
                st.add("processes", 1);
                st.add("disk_operations", r.ops.iter().filter(|o| o.is_io()).count() as u64);
                st.state(ex.digest);
                for o in &r.ops {
                    if let Some(m) = o.marker() {
                        let e = match (m, o.result()) {
                            ("err", e) | ("dead", e) => format!("fault:{} {} errno {}", o.what, m, -e),
                            _ => format!("fault:{} {}", o.what, m),
                        };
                        st.add(&e, 1);
                    }
                    if o.what == "oom" {
                        st.add("fault:allocation failed", 1);
                    }
                }
                for b in &s.labels {
                    st.add(&format!("fault:grammar {}", b), 1);
                }
                st.add(
                    match &c {
                        Claim::Ok => "outcome success",
                        Claim::Error => "outcome error",
                        Claim::Panic => "outcome panic",
                        Claim::Killed => "outcome killed",
                        Claim::Signal(_) => "outcome signal",
                    },
                    1,
                );
                if s.disturbed() && c == Claim::Ok {
                    st.add("success in spite of a fault", 1);
                }
            }
            if keep {
                ex.hist.push(J::from(format!("step {}: {} {} on {} ({})", k, u.lang, u.algo, u.name, if s.cli { "command" } else { "library" })));
                for line in r.log.lines().take(200) {
                    ex.hist.push(J::from(line));
                }
                ex.hist.push(J::from(format!("outcome {:?}: {}", c, text.chars().take(300).collect::<String>())));
            }
            let ctx = Ctx { u, s, r: &r, c: &c, text: &text, before: &before, after: &after, l: &l, last: k + 1 == n, p };
            judge(&self.prop, &ctx, &mut ex.viols);
            if !ex.viols.is_empty() {
                break;
            }
            if c == Claim::Killed && s.loss != 0 {
                let mut rng = Rng::new(s.loss);
                for name in u.promised() {
                    let rel = format!("{}/{}", l.out_rel, name);
                    let touched = r.ops.iter().rposition(|o| o.path == rel && o.mutates());
                    let synced = r.ops.iter().rposition(|o| o.path == rel && o.what == "sync" && o.result() == 0);
                    let Some(t) = touched else { continue };
                    if synced.map_or(false, |x| x > t) {
                        continue;
                    }
                    let Some(Some(new)) = after.get(&rel) else { continue };
                    let old = before.get(&rel).and_then(|x| x.as_ref());
                    let (what, b) = after_crash(&mut rng, old, new);
                    if let Some(st) = st.as_deref_mut() {
                        st.add(&format!("fault:crash, unsynced file {}", what), 1);
                    }
                    if keep {
                        ex.hist.push(J::from(format!("crash: {} {}", rel, what)));
                    }
                    match b {
                        Some(b) => std::fs::write(root.join(&rel), b).unwrap_or_default(),
                        None => std::fs::remove_file(root.join(&rel)).unwrap_or_default(),
                    }
                }
            }
        }
        ex
    }
}

struct Ctx<'a> {
    u: &'a Gu,
    s: &'a Step,
    r: &'a Ran,
    c: &'a Claim,
    text: &'a str,
    before: &'a Snap,
    after: &'a Snap,
    l: &'a Layout,
    last: bool,
    p: &'a GPlan,
}

/// The first promised file that is not what it should be.
fn wrong_file(x: &Ctx) -> Option<String> {
    for name in x.u.promised() {
        let rel = format!("{}/{}", x.l.out_rel, name);
        let want = x.u.files.get(name)?;
        match x.after.get(&rel) {
            Some(Some(b)) if b == want => {}
            Some(Some(b)) => {
                let k = b.iter().zip(want).take_while(|(a, b)| a == b).count();
                return Some(format!("{} has {} bytes instead of {} and differs from byte {}", name, b.len(), want.len(), k));
            }
            Some(None) => return Some(format!("{} is a directory", name)),
            None => return Some(format!("{} is missing", name)),
        }
    }
    None
}

fn touched_target(x: &Ctx) -> Option<String> {
    let pre = format!("{}/", x.l.out_rel);
    for o in &x.r.ops {
        if o.mutates() && (o.path == x.l.out_rel || o.path.starts_with(&pre)) {
            return Some(format!("{} {} {}", o.what, o.path, o.rest));
        }
    }
    for (n, b) in x.before {
        if n.starts_with(&pre) && x.after.get(n) != Some(b) {
            return Some(format!("{} changed", n));
        }
    }
    x.after.keys().find(|n| n.starts_with(&pre) && !x.before.contains_key(*n)).map(|n| format!("{} appeared", n))
}

fn judge(prop: &str, x: &Ctx, v: &mut Vec<(String, String)>) {
    let (u, s, r, c) = (x.u, x.s, x.r, x.c);
    let mut bad = |class: &str, m: String| v.push((class.to_string(), m));
    if r.hung() {
        bad("hang", "the run did not end".into());
        return;
    }
    let original = s.bytes.is_none() && s.absent == 0;
    match prop {
        "C01" => {
            if *c == Claim::Ok && original {
                if !u.ok {
                    bad("false-success", "success was reported for a grammar an undisturbed run refuses".into());
                } else if let Some(w) = wrong_file(x) {
                    bad("incomplete", format!("success was reported, but {}", w));
                }
            }
        }
        "C02" => {
            if !s.hard() && original && !x.p.no_target {
                if u.ok {
                    if *c != Claim::Ok {
                        bad("disturbed-failure", format!("interruptions and partial transfers made generation fail: {:?} {}", c, short(x.text)));
                    } else if let Some(w) = wrong_file(x) {
                        bad("disturbed-output", format!("interruptions and partial transfers changed the output: {}", w));
                    }
                } else if *c == Claim::Ok {
                    bad("disturbed-success", "interruptions and partial transfers made a refused grammar succeed".into());
                }
            }
        }
        "C03" => {
            let hard_read = r.ops.iter().any(|o| o.path == x.l.grammar_rel && matches!(o.what.as_str(), "open" | "read") && matches!(o.marker(), Some("err") | Some("dead")));
            let bytes: &[u8] = s.bytes.as_deref().unwrap_or(u.text.as_bytes());
            let utf8 = std::str::from_utf8(bytes);
            let io = s.absent != 0 || utf8.is_err();
            if *c == Claim::Killed {
                return;
            }
            if io || hard_read {
                let why = match (s.absent, utf8.is_err()) {
                    (1, _) => "is missing",
                    (2, _) => "is a directory",
                    (_, true) => "is not UTF-8",
                    _ => "could not be read",
                };
                if *c == Claim::Ok {
                    if io || wrong_file(x).is_some() || !u.ok {
                        bad("unreadable-accepted", format!("the grammar {} and generation reported success", why));
                    }
                    return;
                }
                if let Some(t) = touched_target(x) {
                    bad("unreadable-touched", format!("the grammar {} and the target directory was changed: {}", why, t));
                }
                if *c != Claim::Error {
                    bad("unreadable-panic", format!("the grammar {} and generation did not return an error: {:?} {}", why, c, short(x.text)));
                } else if !x.text.contains(&x.l.grammar) && s.console.is_none() {
                    bad("unreadable-unnamed", format!("the grammar {} and the error does not name it: {}", why, short(x.text)));
                }
            } else if frontend::parse(utf8.unwrap()).is_err() {
                if *c == Claim::Ok {
                    bad("nonsense-accepted", "success was reported for a text that is not a grammar".into());
                }
                if let Some(t) = touched_target(x) {
                    bad("nonsense-touched", format!("the text is not a grammar and the target directory was changed: {}", t));
                }
            }
        }
        "C04" => {
            if !s.disturbed() && original && u.ok && !x.p.no_target {
                if *c != Claim::Ok {
                    bad("rerun-failure", format!("running again failed: {:?} {}", c, short(x.text)));
                } else if let Some(w) = wrong_file(x) {
                    bad("rerun-output", format!("running again left {}", w));
                }
            }
            // what is not an output keeps its content
            let pre = format!("{}/", x.l.out_rel);
            for (n, b) in x.before {
                if let Some(name) = n.strip_prefix(&pre) {
                    if !u.promised().contains(&name) && x.after.get(n) != Some(b) {
                        bad("bystander", format!("{} is not an output of this run and was changed", n));
                    }
                }
            }
        }
        "C06" => {
            let allowed = |p: &str| p.strip_prefix(x.l.out_rel).and_then(|p| p.strip_prefix('/')).map_or(false, |n| u.promised().contains(&n));
            for o in &r.ops {
                if o.what == "ESCAPE" {
                    if !matches!(o.path.as_str(), "fork" | "exec" | "spawn" | "kill") {
                        bad("outside", format!("tried to {} {}", o.path, o.rest));
                    }
                } else if o.mutates() && (!allowed(&o.path) || matches!(o.what.as_str(), "rename" | "link")) {
                    bad("foreign-file", format!("{} {} {}", o.what, o.path, o.rest));
                }
            }
            for (n, b) in x.before {
                if !allowed(n) && x.after.get(n) != Some(b) {
                    bad("foreign-file", format!("{} was changed", n));
                }
            }
            for n in x.after.keys() {
                if !allowed(n) && !x.before.contains_key(n) {
                    bad("foreign-file", format!("{} appeared", n));
                }
            }
        }
        "C07" => {
            if *c == Claim::Ok {
                if original && !u.ok {
                    bad("exit-zero", "status 0 for a grammar that cannot be generated".into());
                } else if !original && (s.absent != 0 || s.bytes.as_ref().map_or(false, |b| std::str::from_utf8(b).map_or(true, |t| frontend::parse(t).is_err()))) {
                    bad("exit-zero", "status 0 for an unreadable grammar or a text that is not a grammar".into());
                } else if original {
                    if let Some(w) = wrong_file(x) {
                        bad("exit-zero", format!("status 0, but {}", w));
                    }
                }
            } else if *c != Claim::Killed {
                if !s.disturbed() && original && u.ok && !x.p.no_target && x.p.init.iter().all(|i| i.kind != 9) {
                    bad("exit-nonzero", format!("status {:?} for an undisturbed generation of a valid grammar: {}", r.code, short(x.text)));
                }
                if x.text.trim().is_empty() && s.console.is_none() && s.oom.is_none() {
                    bad("silent", format!("status {:?} and not a word on output or error", r.code));
                }
            }
        }
        _ => {}
    }
    let _ = x.last;
}

fn short(s: &str) -> String {
    s.chars().take(200).collect::<String>().replace('\n', " ")
}

// ---------------------------------------------------------------------------------------------
// drawing plans

const OPEN_ERR: [i64; 9] = [28, 5, 122, 13, 30, 24, 23, 12, 2];
const WRITE_ERR: [i64; 5] = [28, 5, 122, 27, 116];
const READ_ERR: [i64; 5] = [5, 12, 21, 116, 13];

pub fn mangle(rng: &mut Rng, text: &[u8], other: &[u8]) -> (Vec<u8>, Vec<String>) {
    let mut b = text.to_vec();
    let mut labels = vec![];
    for _ in 0..if rng.pct(75) { 1 } else { rng.range(2, 4) } {
        let n = b.len();
        if n == 0 {
            break;
        }
        let k = rng.below(n);
        let most = if rng.pct(60) { 4 } else { 64 };
        let len = 1 + rng.below(most).min(n - k - 1);
        let name = match rng.below(11) {
            0 => {
                b.truncate(k);
                "cut off"
            }
            1 | 2 => {
                b[k] ^= 1 << rng.below(8);
                "bit flipped"
            }
            3 => {
                for x in b[k..k + len].iter_mut() {
                    *x = 0;
                }
                "zeroed"
            }
            4 => {
                b.drain(k..k + len);
                "piece lost"
            }
            5 => {
                let d: Vec<u8> = b[k..k + len].to_vec();
                b.splice(k..k, d);
                "piece repeated"
            }
            6 => {
                let bytes: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f", b"\xc0\xaf", "é".as_bytes(), "\u{feff}".as_bytes(), b"\r", b"\0"];
                let what = *rng.pick(bytes);
                // between the statements, where a reader might not look closely
                let ends: Vec<usize> = b.iter().enumerate().filter(|(_, c)| matches!(**c, b'\n' | b';' | b' ')).map(|(i, _)| i + 1).collect();
                let k = match rng.below(6) {
                    0 => k,
                    1 => 0,
                    2 => n,
                    3 => {
                        let k = ends.last().copied().unwrap_or(n);
                        b.truncate(k);
                        k
                    }
                    _ => if ends.is_empty() { n } else { *rng.pick(&ends) },
                };
                b.splice(k..k, what.iter().cloned());
                "foreign bytes"
            }
            7 => {
                let j = rng.below(n);
                let (a, c) = (k.min(j), k.max(j));
                let len = len.min(c - a).min(n - c);
                for i in 0..len {
                    b.swap(a + i, c + i);
                }
                "pieces swapped"
            }
            8 => {
                // whole lines move about
                let mut ls: Vec<Vec<u8>> = b.split_inclusive(|x| *x == b'\n').map(|x| x.to_vec()).collect();
                let (i, j) = (rng.below(ls.len()), rng.below(ls.len()));
                match rng.below(3) {
                    0 => ls.swap(i, j),
                    1 => {
                        ls.remove(i);
                    }
                    _ => {
                        let d = ls[i].clone();
                        ls.insert(j, d);
                    }
                }
                b = ls.concat();
                "lines moved"
            }
            9 => {
                // torn between two versions
                let m = rng.below(other.len() + 1);
                b.truncate(k);
                b.extend_from_slice(&other[m..]);
                "torn with another version"
            }
            _ => {
                let c = *rng.pick(b"=;()[]?!*+|\"/\\ \nAaz09_");
                if rng.pct(50) {
                    b[k] = c;
                } else {
                    b.insert(k, c);
                }
                "byte replaced"
            }
        };
        labels.push(name.to_string());
    }
    (b, labels)
}

impl GenScenario {
    fn unit(&self, rng: &mut Rng, bad: usize) -> usize {
        if self.good.is_empty() || !self.bad.is_empty() && rng.pct(bad) {
            *rng.pick(&self.bad)
        } else {
            *rng.pick(&self.good)
        }
    }
    fn at(&self, rng: &mut Rng, u: &Gu, want: &str) -> Option<i64> {
        let c: Vec<usize> = u.ops.iter().enumerate().filter(|(_, o)| want.contains(o.what.as_str())).map(|(i, _)| i).collect();
        if c.is_empty() {
            return None;
        }
        // the first and the last of a kind are where things go wrong
        Some(match rng.below(10) {
            0 => c[0] as i64,
            1 | 2 => c[c.len() - 1] as i64,
            _ => *rng.pick(&c) as i64,
        })
    }
    fn hard_fault(&self, rng: &mut Rng, s: &mut Step) {
        let u = &self.units[s.unit];
        let total: usize = u.files.values().map(|f| f.len()).sum();
        let grammar_ops = u.ops.iter().position(|o| o.rest.contains('w') && o.what == "open").unwrap_or(u.ops.len());
        match rng.below(12) {
            0 | 1 => {
                if let Some(at) = self.at(rng, u, "open") {
                    if at >= grammar_ops as i64 || rng.pct(20) {
                        s.faults.push(Fault { at, kind: "err", arg: *rng.pick(&OPEN_ERR) });
                    }
                }
            }
            2..=4 => {
                if let Some(at) = self.at(rng, u, "write") {
                    s.faults.push(Fault { at, kind: "err", arg: *rng.pick(&WRITE_ERR) });
                }
            }
            5 => {
                if let Some(at) = self.at(rng, u, "write") {
                    s.faults.push(Fault { at, kind: "zero", arg: 0 });
                }
            }
            6 | 7 => s.full = Some((rng.below(total + 2) as i64, *rng.pick(&[28, 122]))),
            8 => {
                if let Some(at) = self.at(rng, u, "open write") {
                    s.faults.push(Fault { at, kind: "dead", arg: *rng.pick(&[5, 28, 30, 116]) });
                }
            }
            9 => {
                if let Some(at) = self.at(rng, u, "write") {
                    s.faults.push(Fault { at, kind: "full", arg: rng.below(3000) as i64 });
                }
            }
            10 => {
                // a short write followed by an error
                if let Some(at) = self.at(rng, u, "write") {
                    s.faults.push(Fault { at, kind: "short", arg: 1 + rng.below(3000) as i64 });
                    s.faults.push(Fault { at: at + 1, kind: "err", arg: *rng.pick(&WRITE_ERR) });
                }
            }
            _ => {
                if let Some(at) = self.at(rng, u, "read") {
                    s.faults.push(Fault { at, kind: "err", arg: *rng.pick(&READ_ERR) });
                }
            }
        }
    }
    fn soft_fault(&self, rng: &mut Rng, s: &mut Step) {
        let u = &self.units[s.unit];
        match rng.below(8) {
            0 | 1 => {
                let most = if rng.pct(80) { 3 } else { 40 };
                if let Some(at) = self.at(rng, u, "open read write") {
                    s.faults.push(Fault { at, kind: "intr", arg: 1 + rng.below(most) as i64 });
                }
            }
            2 | 3 => {
                let most = if rng.pct(50) { 8 } else { 6000 };
                if let Some(at) = self.at(rng, u, "read write") {
                    s.faults.push(Fault { at, kind: "short", arg: 1 + rng.below(most) as i64 });
                }
            }
            _ => {
                let total: usize = u.files.values().map(|f| f.len()).sum();
                // keeps the number of operations bounded
                let least = 1 + total as i64 / 2500;
                let pick = |rng: &mut Rng, least: i64| match rng.below(4) {
                    0 => least,
                    1 => least + rng.below(16) as i64,
                    2 => least + rng.below(300) as i64,
                    _ => least + rng.below(9000) as i64,
                };
                let r = pick(rng, 1 + u.text.len() as i64 / 2500);
                let w = pick(rng, least);
                s.jitter = Some((rng.next() & 0xffff_ffff, r, w, *rng.pick(&[0, 5, 30, 60])));
            }
        }
    }
    fn kill(&self, rng: &mut Rng, s: &mut Step) {
        let u = &self.units[s.unit];
        if let Some(at) = self.at(rng, u, "open read write close") {
            let o = &u.ops[at as usize];
            let arg = match o.what.as_str() {
                "write" => {
                    let n: usize = o.rest.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(1);
                    match rng.below(4) {
                        0 => 0,
                        1 => -1,
                        _ => rng.below(n + 1) as i64,
                    }
                }
                "open" => rng.below(2) as i64,
                _ => 0,
            };
            s.faults.push(Fault { at, kind: "kill", arg });
            s.loss = if rng.pct(70) { rng.next() | 1 } else { 0 };
        }
    }
    fn leftovers(&self, rng: &mut Rng, unit: usize, p: &mut GPlan) {
        let names = self.units[unit].promised();
        let dense = rng.pct(50);
        for n in ALL_OUTPUTS {
            let mine = names.contains(&n);
            if !rng.pct(if mine { if dense { 80 } else { 25 } } else { 15 }) {
                continue;
            }
            let kind = *rng.pick(&[0u8, 1, 1, 2, 3, 4, 5, 6, 7]);
            let from = if rng.pct(60) { unit } else { self.unit(rng, 0) };
            p.init.push(Init { name: n.into(), unit: from, kind, seed: rng.next() });
        }
    }
    fn mangled(&self, rng: &mut Rng, s: &mut Step) {
        match rng.below(20) {
            0 => {
                s.absent = 1;
                s.labels.push("missing".into());
            }
            1 => {
                s.absent = 2;
                s.labels.push("a directory".into());
            }
            2 => {
                // lost in a crash: the file has its length but not its data
                s.bytes = Some(vec![0; self.units[s.unit].text.len()]);
                s.labels.push("all zeros".into());
            }
            3 => {
                s.bytes = Some(vec![]);
                s.labels.push("emptied".into());
            }
            _ => {
                let other = self.unit(rng, 0);
                let (b, l) = mangle(rng, self.units[s.unit].text.as_bytes(), self.units[other].text.as_bytes());
                s.bytes = Some(b);
                s.labels = l;
            }
        }
    }
}

impl Scenario for GenScenario {
    type Plan = GPlan;
    fn draw(&self, rng: &mut Rng) -> GPlan {
        let mut p = GPlan { style: if rng.pct(40) { 0 } else { rng.below(STYLES as usize) as u8 }, no_target: false, init: vec![], steps: vec![] };
        let step = |rng: &mut Rng, unit: usize| {
            let mut s = Step::plain(unit, rng.next() >> 1);
            s.cli = self.prop == "C07" || rng.pct(65);
            s
        };
        match self.prop.as_str() {
            "C01" => {
                let u = self.unit(rng, 8);
                let mut s = step(rng, u);
                if rng.pct(60) {
                    self.leftovers(rng, u, &mut p);
                }
                for _ in 0..*rng.pick(&[0, 1, 1, 1, 1, 2, 3]) {
                    self.hard_fault(rng, &mut s);
                }
                if rng.pct(25) {
                    self.soft_fault(rng, &mut s);
                }
                if rng.pct(3) && !p.init.is_empty() {
                    p.init[0].kind = 9;
                }
                p.no_target = rng.pct(1);
                p.steps.push(s);
                if rng.pct(15) {
                    let u = if rng.pct(70) { u } else { self.unit(rng, 0) };
                    let mut s = step(rng, u);
                    if rng.pct(50) {
                        self.hard_fault(rng, &mut s);
                    }
                    p.steps.push(s);
                }
            }
            "C02" => {
                let u = self.unit(rng, 8);
                let mut s = step(rng, u);
                for _ in 0..rng.range(1, 4) {
                    self.soft_fault(rng, &mut s);
                }
                if rng.pct(30) {
                    self.leftovers(rng, u, &mut p);
                }
                p.steps.push(s);
            }
            "C03" => {
                let u = self.unit(rng, 10);
                let mut s = step(rng, u);
                if rng.pct(50) {
                    self.leftovers(rng, u, &mut p);
                }
                if rng.pct(75) {
                    self.mangled(rng, &mut s);
                }
                if rng.pct(30) || s.bytes.is_none() && s.absent == 0 {
                    // failures while opening or reading the grammar
                    let un = &self.units[u];
                    let n = un.ops.iter().take_while(|o| o.what == "read" || o.what == "open" && o.rest.starts_with('r')).count().max(1);
                    let at = rng.below(n) as i64;
                    let arg = if at == 0 { *rng.pick(&[2, 13, 24, 23, 12, 40, 5]) } else { *rng.pick(&READ_ERR) };
                    if rng.pct(25) {
                        // most of the file arrives before the error
                        s.faults.push(Fault { at: 1, kind: "short", arg: 1 + rng.below(un.text.len().max(1)) as i64 });
                        s.faults.push(Fault { at: 2, kind: "err", arg: *rng.pick(&READ_ERR) });
                    } else {
                        s.faults.push(Fault { at, kind: if rng.pct(70) { "err" } else { "dead" }, arg });
                    }
                }
                if rng.pct(25) {
                    self.soft_fault(rng, &mut s);
                }
                p.steps.push(s);
            }
            "C04" => {
                let u = self.unit(rng, 0);
                if rng.pct(60) {
                    self.leftovers(rng, u, &mut p);
                }
                for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 2, 3, 4]) {
                    let w = if rng.pct(60) { u } else { self.unit(rng, 15) };
                    let mut s = step(rng, w);
                    match rng.below(10) {
                        0..=6 => self.kill(rng, &mut s),
                        7 => self.hard_fault(rng, &mut s),
                        8 => self.mangled(rng, &mut s),
                        _ => {}
                    }
                    p.steps.push(s);
                }
                let s = step(rng, u);
                p.steps.push(s);
            }
            _ => {
                let n = *rng.pick(&[1, 1, 1, 1, 2]);
                let mut u = self.unit(rng, 20);
                for _ in 0..n {
                    let mut s = step(rng, u);
                    match rng.below(12) {
                        0 => {}
                        1..=5 => {
                            for _ in 0..*rng.pick(&[1, 1, 2]) {
                                self.hard_fault(rng, &mut s);
                            }
                        }
                        6 => self.soft_fault(rng, &mut s),
                        7 if self.prop == "C06" => self.kill(rng, &mut s),
                        7 | 8 => self.mangled(rng, &mut s),
                        9 => {
                            // memory runs out somewhere
                            let k = rng.range(2, 16);
                            s.oom = Some(1 + rng.below(1 << k) as i64);
                        }
                        10 if self.prop == "C07" => {
                            s.console = Some((rng.below(4) as i64, *rng.pick(&[5, 28, 32])));
                            if rng.pct(70) {
                                self.hard_fault(rng, &mut s);
                            }
                        }
                        _ => self.kill(rng, &mut s),
                    }
                    p.steps.push(s);
                    if rng.pct(50) {
                        u = self.unit(rng, 20);
                    }
                }
                if rng.pct(40) {
                    self.leftovers(rng, p.steps[0].unit, &mut p);
                    if rng.pct(4) && !p.init.is_empty() {
                        p.init[0].kind = 9;
                    }
                }
                p.no_target = rng.pct(2);
            }
        }
        // a target directory that is the working directory cannot be missing
        if p.no_target && p.style == 3 || p.no_target && p.style == 4 {
            p.no_target = false;
        }
        p
    }
    fn run(&self, p: &GPlan, mut st: Option<&mut Stats>) -> Out {
        if let Some(st) = st.as_deref_mut() {
            if p.steps.len() > 1 || p.steps[0].disturbed() || !p.init.is_empty() {
                st.plan(rng::hash_str(&format!("{:?}", p)));
            }
        }
        let e = self.execute(p, st, false);
        Out { viols: e.viols, digest: e.digest }
    }
    fn size(&self, p: &GPlan) -> usize {
        p.steps
            .iter()
            .map(|s| {
                1000 + s.faults.len() * 40
                    + s.jitter.is_some() as usize * 60
                    + (s.full.is_some() as usize + s.console.is_some() as usize + s.oom.is_some() as usize) * 50
                    + (s.loss != 0) as usize * 20
                    + s.bytes.as_ref().map_or(0, |b| 60 + b.len().min(4000) / 8)
                    + s.absent as usize * 10
                    + !s.cli as usize
                    + self.units[s.unit].text.len().min(20000) / 8
            })
            .sum::<usize>()
            + p.init.len() * 30
            + p.style as usize
            + p.no_target as usize
    }
    fn shrink(&self, p: &GPlan) -> Vec<GPlan> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut GPlan)| {
            let mut q = p.clone();
            f(&mut q);
            v.push(q);
        };
        for i in 0..p.steps.len() {
            if p.steps.len() > 1 {
                push(&|q| {
                    q.steps.remove(i);
                });
            }
        }
        if !p.init.is_empty() {
            push(&|q| q.init.clear());
        }
        for i in 0..p.steps.len() {
            let s = &p.steps[i];
            // the same with a smaller grammar
            let mut c: Vec<usize> = (0..self.units.len()).filter(|k| self.units[*k].ok == self.units[s.unit].ok && self.units[*k].text.len() < self.units[s.unit].text.len()).collect();
            c.sort_by_key(|k| self.units[*k].text.len());
            for k in c.into_iter().take(3) {
                push(&|q| q.steps[i].unit = k);
            }
            push(&|q| q.steps[i].jitter = None);
            push(&|q| q.steps[i].full = None);
            push(&|q| q.steps[i].console = None);
            push(&|q| q.steps[i].oom = None);
            push(&|q| q.steps[i].loss = 0);
            push(&|q| q.steps[i].bytes = None);
            push(&|q| q.steps[i].absent = 0);
            push(&|q| q.steps[i].cli = true);
            for k in 0..s.faults.len() {
                push(&|q| {
                    q.steps[i].faults.remove(k);
                });
            }
            if let Some(b) = &s.bytes {
                let n = b.len();
                for part in [2, 4, 8, 16] {
                    let w = (n / part).max(1);
                    for k in 0..part {
                        if k * w < n {
                            push(&|q| {
                                let b = q.steps[i].bytes.as_mut().unwrap();
                                b.drain(k * w..((k + 1) * w).min(n));
                            });
                        }
                    }
                }
            }
        }
        for i in 0..p.init.len() {
            push(&|q| {
                q.init.remove(i);
            });
        }
        if p.style != 0 {
            push(&|q| q.style = 0);
        }
        v
    }
    fn replay_json(&self, p: &GPlan) -> J {
        let mut used: Vec<usize> = p.steps.iter().map(|s| s.unit).chain(p.init.iter().map(|i| i.unit)).collect();
        used.sort();
        used.dedup();
        let pos = |u: usize| used.iter().position(|x| *x == u).unwrap();
        let steps: Vec<J> = p
            .steps
            .iter()
            .map(|s| {
                let faults: Vec<J> = s.faults.iter().map(|f| crate::obj! {"operation" => f.at, "kind" => f.kind, "arg" => f.arg}).collect();
                let pair = |x: &Option<(i64, i64)>| x.map_or(J::Null, |(a, b)| J::Arr(vec![J::from(a), J::from(b)]));
                crate::obj! {
                    "unit" => pos(s.unit), "seed" => s.seed, "command" => s.cli, "faults" => faults,
                    "jitter" => s.jitter.map_or(J::Null, |(a, b, c, d)| J::Arr(vec![J::from(a), J::from(b), J::from(c), J::from(d)])),
                    "full" => pair(&s.full), "console" => pair(&s.console), "oom" => s.oom.map_or(J::Null, J::from),
                    "loss" => format!("{}", s.loss), "bytes_hex" => s.bytes.as_ref().map_or(J::Null, |b| J::from(crate::lexsim::hex(b))),
                    "absent" => s.absent as usize, "labels" => s.labels.iter().map(|x| J::from(x.as_str())).collect::<Vec<J>>()
                }
            })
            .collect();
        let init: Vec<J> = p.init.iter().map(|i| crate::obj! {"name" => i.name.as_str(), "unit" => pos(i.unit), "kind" => i.kind as usize, "seed" => format!("{}", i.seed)}).collect();
        crate::obj! {
            "kind" => "generator", "units" => used.iter().map(|u| self.units[*u].json()).collect::<Vec<J>>(),
            "style" => p.style as usize, "no_target" => p.no_target, "init" => init, "steps" => steps
        }
    }
    fn history(&self, p: &GPlan) -> Vec<J> {
        self.execute(p, None, true).hist
    }
    fn sample(&self, p: &GPlan) -> J {
        let steps: Vec<J> = p
            .steps
            .iter()
            .map(|s| {
                crate::obj! {
                    "unit" => self.units[s.unit].name.as_str(), "command" => s.cli,
                    "faults" => s.faults.iter().map(|f| J::from(format!("operation {}: {} {}", f.at, f.kind, f.arg))).collect::<Vec<J>>(),
                    "grammar_damage" => s.labels.iter().map(|x| J::from(x.as_str())).collect::<Vec<J>>()
                }
            })
            .collect();
        crate::obj! {"style" => p.style as usize, "left_over_files" => p.init.len(), "steps" => steps}
    }
    fn repeated(&self) -> u64 {
        100
    }
    fn watchdog(&self) -> u64 {
        // workers mostly wait; the processes they start have limits of their own
        60
    }
}

impl GPlan {
    fn from_json(j: &J) -> GPlan {
        let pair = |x: &J| (!x.is_null()).then(|| (x.arr()[0].int(), x.arr()[1].int()));
        GPlan {
            style: j.get("style").u() as u8,
            no_target: j.get("no_target").bool(),
            init: j.get("init").arr().iter().map(|i| Init { name: i.get("name").str().into(), unit: i.get("unit").u(), kind: i.get("kind").u() as u8, seed: i.get("seed").str().parse().unwrap_or(0) }).collect(),
            steps: j
                .get("steps")
                .arr()
                .iter()
                .map(|s| {
                    let mut t = Step::plain(s.get("unit").u(), s.get("seed").int() as u64);
                    t.cli = s.get("command").bool();
                    t.faults = s
                        .get("faults")
                        .arr()
                        .iter()
                        .map(|f| Fault { at: f.get("operation").int(), kind: FAULT_KINDS.into_iter().find(|k| *k == f.get("kind").str()).unwrap_or_else(|| die("replay: fault")), arg: f.get("arg").int() })
                        .collect();
                    let jt = s.get("jitter");
                    t.jitter = (!jt.is_null()).then(|| (jt.arr()[0].int() as u64, jt.arr()[1].int(), jt.arr()[2].int(), jt.arr()[3].int()));
                    t.full = pair(s.get("full"));
                    t.console = pair(s.get("console"));
                    t.oom = (!s.get("oom").is_null()).then(|| s.get("oom").int());
                    t.loss = s.get("loss").str().parse().unwrap_or(0);
                    t.bytes = (!s.get("bytes_hex").is_null()).then(|| crate::lexsim::unhex(s.get("bytes_hex").str()));
                    t.absent = s.get("absent").u() as u8;
                    t
                })
                .collect(),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// checks

fn unit_violation(prop: &str, seed: u64, s: &GenScenario, b: &(usize, String, String)) -> J {
    crate::obj! {
        "property" => prop, "kind" => "generator-unit", "seed" => seed, "class" => b.1.as_str(), "message" => format!("{}: {}", s.units[b.0].name, b.2),
        "units" => vec![s.units[b.0].json()]
    }
}

/// Classes of undisturbed misbehaviour that belong to a property.
fn concerns(prop: &str, class: &str) -> bool {
    match class {
        "incomplete" => matches!(prop, "C01" | "C07"),
        "false-success" => matches!(prop, "C01" | "C07"),
        "silent-failure" => prop == "C07",
        _ => prop == "C07",
    }
}

pub fn runs_of(prop: &str) -> u64 {
    match prop {
        "C04" => 9_000,
        "C06" | "C07" => 14_000,
        "C02" => 9_000,
        _ => 14_000,
    }
}

pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new(prop);
    let units = draw_units(prop, seed, thorough);
    let n = units.len();
    let units = in_time(&env, units);
    let (s, bad) = GenScenario::new(prop, &env, units);
    let mut rep = Report::new(prop, seed, thorough);
    if let Some(b) = bad.iter().find(|b| concerns(prop, &b.1)) {
        rep.violation(&unit_violation(prop, seed, &s, b));
    }
    if rep.ok() && s.good.is_empty() {
        die("no grammar could be generated");
    }
    if rep.ok() {
        let runs = runs_of(prop);
        let what = Search { runs: if thorough { runs * 30 } else { runs }, cap_s: if thorough { 600 } else { 110 }, seed, prop: prop.into() };
        let st = explore(&s, &env, &what, &mut rep);
        let ops = st.n.get("disk_operations").copied().unwrap_or(0);
        rep.cover("simulated_time", format!("logical: {} disk operations; the clock the processes see is drawn per run", ops));
    } else {
        rep.cover("evaluations", 0u64);
    }
    if rep.ok() && prop == "C02" {
        let few: Vec<Gu> = s.good.iter().map(|i| &s.units[*i]).filter(|u| u.text.len() < 3000).take(if thorough { 200 } else { 50 }).cloned().collect();
        crate::writesim::part(&env, &s.m, &few, seed, thorough, &mut rep);
    }
    rep.cover("generation_units", n);
    rep.cover("units_generated", s.good.len());
    rep.cover("units_refused", s.bad.len());
    rep.cover(
        "rule",
        "one evaluation = one simulated history: 1-5 processes (the real lapex-cli, or its library behind a small driver) over a grammar drawn by seed, on a simulated disk with seeded left-overs, faults, crashes and partial transfers; distinct = different (disk, processes, faults); non-trivial = a fault, a left-over file or several processes",
    );
    rep.cover("real_code", "lapex-cli, lapex, lapex-input-gen, lapex-lexer, lapex-parser, the code generators, Rust's std::fs and std::io");
    rep.cover("stubs", "C library calls for files, memory, random bytes, clocks, threads (simfs.c over a scratch directory)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let prop = j.get("property").str().to_string();
    let env = Env::new("replay");
    let units: Vec<Gu> = j.get("units").arr().iter().map(Gu::from_json).collect();
    let (s, bad) = GenScenario::new(&prop, &env, units);
    let r = if let Some(b) = bad.iter().find(|b| concerns(&prop, &b.1)) {
        Some((b.1.clone(), b.2.clone()))
    } else if j.get("kind").str() == "generator-unit" {
        None
    } else {
        probe(&s, &env, &GPlan::from_json(j))
    };
    env.clean();
    r
}
