//! `lapex-cli debug` (C34 what it says about a source text, C35 what it does to the disk): the real
//! command as a simulated process, with a stand-in for cargo as its child. The generated project is
//! compiled with rustc and really run; hash seeds, random names, delivery of reads and writes, signals,
//! disk errors, crashes, left-overs and other runs at the same time come from the seed.
use crate::build::*;
use crate::cfg::{rust_token_name, Cfg, Sym};
use crate::diagsim::symbols;
use crate::driver::*;
use crate::earley;
use crate::gen::{self, Class};
use crate::gensim::*;
use crate::json::J;
use crate::lexref::Scan;
use crate::lexsim::{damage, hex, printable, unhex};
use crate::lexunit::{self, document, sample_token, LexUnit};
use crate::lr::Ev;
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

/// One debug command.
#[derive(Clone, Debug)]
pub struct Cmd {
    unit: usize,
    algo: &'static str,
    seed: u64,
    source: Vec<u8>,
    damage: Vec<String>,
    jitter: Option<(u64, i64, i64, i64)>,
    faults: Vec<Fault>,
    full: Option<(i64, i64)>,
    console: Option<(i64, i64)>,
    /// what cargo does: "", "init-fail", "init-kill", "run-fail", "run-kill", "none" (there is no cargo)
    cargo: &'static str,
    /// "", "source", "source-dir", "grammar", "grammar-dir", "bad-grammar", "no-tmp"
    trouble: &'static str,
}

#[derive(Clone, Debug)]
pub struct BPlan {
    style: u8,
    tmp: u8,
    clutter: bool,
    steps: Vec<Cmd>,
    /// runs to its end while the last command waits for its "init" or its "run"
    during: Option<(Cmd, &'static str)>,
}

pub struct DebugScenario {
    prop: String,
    m: Machine,
    base: PathBuf,
    units: Vec<LexUnit>,
    known: bool,
}

const CARGO: [&str; 6] = ["", "init-fail", "init-kill", "run-fail", "run-kill", "none"];
const TROUBLE: [&str; 7] = ["", "source", "source-dir", "grammar", "grammar-dir", "bad-grammar", "no-tmp"];
const ALGOS: [&str; 4] = ["glr", "lr0", "lr1", "lalr"];
const KINDS: [&str; 5] = ["err", "dead", "short", "intr", "kill"];
const TMPS: [&str; 4] = ["tmp", "tmp", "tmp-dir/é", "tmp"];
const LISTED: &str = "KNOWN-FINDING: property=C34 debug-lr";

impl Cmd {
    fn plain(unit: usize, seed: u64, source: Vec<u8>) -> Cmd {
        Cmd { unit, algo: "glr", seed, source, damage: vec![], jitter: None, faults: vec![], full: None, console: None, cargo: "", trouble: "" }
    }
    /// Nothing but the text stands in the way of a result.
    fn soft(&self) -> bool {
        self.faults.iter().all(|f| matches!(f.kind, "short" | "intr")) && self.full.is_none() && self.console.is_none() && self.cargo.is_empty() && self.trouble.is_empty()
    }
}

/// What the words of a text are and what has to come of them.
enum Verdict {
    Sentence(Vec<String>),
    Not,
    Unknown,
}

struct Ended {
    ran: Ran,
    /// "cargo <what> @ <directory>"
    cargo: Vec<(String, String)>,
}

impl DebugScenario {
    fn paths(&self, p: &BPlan, root: &Path) -> (Layout, String, String) {
        let l = layout(p.style, root);
        let src = match p.style {
            1 | 3 => root.join("in/text.src").display().to_string(),
            2 => "./text.src".into(),
            4 => "./in/../in/text.src".into(),
            _ => "in/text.src".into(),
        };
        let tmp = match p.tmp {
            1 => format!("{}/tmp/", root.display()),
            3 if l.cwd == "." => "tmp".into(),
            t => root.join(TMPS[t as usize]).display().to_string(),
        };
        (l, src, tmp)
    }
    fn tokens(&self, u: &LexUnit, text: &str) -> Option<Vec<usize>> {
        let chars: Vec<char> = text.chars().collect();
        let mut m = u.model.lock().unwrap();
        let (mut pos, mut o) = (0, vec![]);
        loop {
            match m.scan(&chars, pos) {
                Scan::Tok(t, l) => {
                    o.push(t);
                    pos += l;
                }
                Scan::Err(_) => return None,
                Scan::End => return Some(o),
            }
        }
    }
    fn verdict(&self, c: &Cmd) -> Verdict {
        let u = &self.units[c.unit];
        let Ok(text) = std::str::from_utf8(&c.source) else { return Verdict::Not };
        let m = u.made.as_ref().unwrap();
        let lr = m.lr.as_ref().unwrap();
        let all = self.tokens(u, text);
        // up to a lexical error, to know that the parser gets there
        let w = match &all {
            Some(w) => w.clone(),
            None => {
                let mut k = text.char_indices().map(|x| x.0).collect::<Vec<_>>();
                k.reverse();
                k.iter().find_map(|e| self.tokens(u, &text[..*e])).unwrap_or_default()
            }
        };
        let events = if lr.lr1 {
            let r = lr.run(&m.cfg, &w);
            r.accepted.then_some(r.events)
        } else {
            if lr.alternatives(&m.cfg, &w, crate::stream::GLR_WORK).is_none() {
                return Verdict::Unknown;
            }
            let input: Vec<Sym> = w.iter().map(|t| Sym::T(*t)).collect();
            let ch = earley::chart(&m.cfg, &m.an, &input);
            if ch.accepted {
                let mut k = earley::Counter::new(&m.cfg, &w);
                if k.total() != 1 {
                    return Verdict::Unknown;
                }
                Some(k.events())
            } else {
                None
            }
        };
        match events {
            Some(e) if all.is_some() => Verdict::Sentence(e.iter().map(|e| self.line(&m.cfg, e)).collect()),
            _ => Verdict::Not,
        }
    }
    fn line(&self, cfg: &Cfg, e: &Ev) -> String {
        match e {
            Ev::Shift(t, _) => format!("shift {}", rust_token_name(&cfg.tokens[*t])),
            Ev::Reduce(r) => crate::diagsim::shown(cfg, *r).join(" "),
            e => format!("{:?}", e),
        }
    }
    fn text(&self, c: &Cmd) -> String {
        let u = &self.units[c.unit];
        if c.trouble == "bad-grammar" {
            format!("{}prod zz_zz = zz_yy;\n", u.text)
        } else {
            u.text.clone()
        }
    }
    fn place(&self, c: &Cmd, l: &Layout, root: &Path) {
        let g = root.join(l.grammar_rel);
        let s = root.join("in/text.src");
        for f in [&g, &s] {
            let _ = std::fs::remove_file(f);
            let _ = std::fs::remove_dir_all(f);
        }
        match c.trouble {
            "grammar" => {}
            "grammar-dir" => std::fs::create_dir(&g).unwrap(),
            _ => std::fs::write(&g, self.text(c)).unwrap(),
        }
        match c.trouble {
            "source" => {}
            "source-dir" => std::fs::create_dir(&s).unwrap(),
            _ => std::fs::write(&s, &c.source).unwrap(),
        }
    }
    fn plan(&self, c: &Cmd, root: &Path) -> String {
        let s = Step { jitter: c.jitter, faults: c.faults.clone(), full: c.full, console: c.console, ..Step::plain(0, c.seed) };
        format!("{}child 1\n", directives(root, &s))
    }
    fn envs(&self, c: &Cmd, dir: &Path, tmp: &str) -> Vec<(String, String)> {
        let e = |k: &str, v: String| (k.to_string(), v);
        let bin = self.base.join(if c.cargo == "none" { "nothing" } else { "bin" });
        vec![
            e("PATH", bin.display().to_string()),
            e("TMPDIR", tmp.to_string()),
            e("SIMCARGO_LOG", dir.join("cargo.log").display().to_string()),
            e("SIMCARGO_CACHE", self.base.join("cache").display().to_string()),
            e("SIMCARGO_MISS", dir.join("miss").display().to_string()),
            e("SIMCARGO_MODE", c.cargo.to_string()),
        ]
    }
    fn args(&self, c: &Cmd, l: &Layout, src: &str) -> Vec<String> {
        let mut a = vec!["debug".to_string()];
        if c.algo != "glr" || c.seed % 2 == 0 {
            a.push("-a".into());
            a.push(c.algo.into());
        }
        a.push(l.grammar.clone());
        a.push(src.into());
        a
    }
    fn cargo_log(&self, dir: &Path, root: &Path) -> Vec<(String, String)> {
        let t = std::fs::read_to_string(dir.join("cargo.log")).unwrap_or_default();
        let root = std::fs::canonicalize(root).unwrap_or(root.into()).display().to_string();
        t.lines()
            .filter_map(|l| l.split_once(" @ "))
            .map(|(a, b)| (a.to_string(), b.strip_prefix(&format!("{}/", root)).map_or(format!("/{}", b), |x| x.to_string())))
            .collect()
    }
    /// Runs one command, with another one inside of it.
    fn one(&self, dir: &Path, root: &Path, p: &BPlan, c: &Cmd, inner: Option<&(Cmd, &'static str)>) -> (Ended, Option<Ended>) {
        let (l, src, tmp) = self.paths(p, root);
        let cwd = std::fs::canonicalize(root.join(l.cwd)).unwrap_or(root.join(l.cwd));
        for d in ["miss", "b", "b/miss"] {
            let _ = std::fs::create_dir_all(dir.join(d));
        }
        for f in ["cargo.log", "b/cargo.log", "b/spec.end"] {
            let _ = std::fs::remove_file(dir.join(f));
        }
        let mut envs = self.envs(c, dir, &tmp);
        let b = dir.join("b");
        if let Some((x, at)) = inner {
            std::fs::write(b.join("plan"), self.plan(x, root)).unwrap();
            let f = std::fs::File::create(b.join("log")).unwrap();
            f.set_len(LOG).unwrap();
            let mut t = format!("{}\n{}\n{}\n", cwd.display(), b.join("con").display(), self.m.cli.display());
            for a in self.args(x, &l, &src) {
                t.push_str(&format!("{}\n", a));
            }
            t.push('\n');
            let mut e = self.envs(x, &b, &tmp);
            for (k, v) in [("SIMFS_PLAN", b.join("plan")), ("SIMFS_LOG", b.join("log")), ("LD_PRELOAD", self.m.simfs.clone()), ("RUST_BACKTRACE", "0".into())] {
                e.push((k.to_string(), v.display().to_string()));
            }
            for (k, v) in e {
                t.push_str(&format!("{}={}\n", k, v));
            }
            std::fs::write(b.join("spec"), t).unwrap();
            envs.push(("SIMCARGO_NEST".into(), b.join("spec").display().to_string()));
            envs.push(("SIMCARGO_NEST_AT".into(), at.to_string()));
        }
        let ran = self.m.spawn(dir, &self.m.cli, &self.args(c, &l, &src), &cwd, &self.plan(c, root), &envs);
        let a = Ended { ran, cargo: self.cargo_log(dir, root) };
        let mut second = None;
        if let Ok(st) = std::fs::read_to_string(b.join("spec.end")) {
            let st: i32 = st.trim().parse().unwrap_or(0);
            let (log, _) = read_log(&b.join("log"));
            let con = strip_ansi(&String::from_utf8_lossy(&std::fs::read(b.join("con")).unwrap_or_default()));
            let sig = st & 0x7f;
            let ran = Ran { code: (sig == 0).then_some(st >> 8 & 0xff), signal: (sig != 0).then_some(if sig == 14 { 24 } else { sig }), con, ops: ops_of(&log), log };
            second = Some(Ended { ran, cargo: self.cargo_log(&b, root) });
        }
        (a, second)
    }
    /// Compiles what cargo was asked to run and nobody knew yet.
    fn compile(&self, dir: &Path) -> bool {
        let mut new = false;
        for d in [dir.join("miss"), dir.join("b/miss")] {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                new = true;
                let n = e.file_name().to_string_lossy().to_string();
                let cache = self.base.join("cache");
                if !cache.join(format!("{}.bin", n)).exists() && !cache.join(format!("{}.bad", n)).exists() {
                    let tmp = cache.join(format!("{}.{}", n, unsafe { sys::getpid() }));
                    let mut c = Command::new("rustc");
                    c.args(["--edition=2024", "--crate-name=generated", "-Cdebuginfo=0", "-Copt-level=0", "-Cstrip=symbols", "-Coverflow-checks=on", "-Cdebug-assertions=on", "--cap-lints=allow"]);
                    c.arg(e.path().join("main.rs")).arg("-o").arg(&tmp).env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu");
                    let r = run(c, Duration::from_secs(300));
                    if r.timed_out {
                        die("rustc takes too long");
                    }
                    if r.ok {
                        let _ = std::fs::rename(&tmp, cache.join(format!("{}.bin", n)));
                    } else {
                        let _ = std::fs::remove_file(&tmp);
                        let _ = std::fs::write(cache.join(format!("{}.bad", n)), &r.out);
                    }
                }
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        new
    }
    fn known_program_error(&self, c: &Cmd, e: &Ended) -> bool {
        self.known && c.algo != "glr" && e.ran.code != Some(0) && e.ran.con.contains("could not compile") && !e.ran.con.contains("Successfully")
    }

    fn execute(&self, p: &BPlan, mut st: Option<&mut Stats>, keep: bool) -> (Vec<(String, String)>, u64, Vec<J>) {
        let dir = self.base.join(format!("w{:08}", unsafe { sys::getpid() }));
        let root = dir.join("disk");
        'again: for tries in 0.. {
            let mut v = vec![];
            let mut hist = vec![];
            let mut digest = 17;
            let (l, src, _) = self.paths(p, &root);
            setup(&root, &l, "");
            let tmp_rel = TMPS[p.tmp as usize];
            if p.steps.iter().all(|c| c.trouble != "no-tmp") {
                std::fs::create_dir_all(root.join(tmp_rel)).unwrap();
                if p.clutter {
                    for (f, t) in [("lapex_debug/generated/src/main.rs", "fn main() {}\n"), ("lapex_debug.aaaaaaaaaaaa/generated/input.txt", "x"), ("generated/Cargo.toml", "[package]\n"), ("src/main.rs", "mine"), ("Cargo.toml", "mine")] {
                        let f = root.join(tmp_rel).join(f);
                        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                        std::fs::write(f, t).unwrap();
                    }
                }
            }
            for (i, c) in p.steps.iter().enumerate() {
                self.place(c, &l, &root);
                let inner = if i + 1 == p.steps.len() { p.during.as_ref() } else { None };
                let before = snapshot(&root);
                let (a, b) = self.one(&dir, &root, p, c, inner);
                if self.compile(&dir) {
                    if tries < 3 {
                        continue 'again;
                    }
                    // a program that is another one each time: nothing can be said
                    return (vec![], 0, vec![]);
                }
                let after = snapshot(&root);
                let mut all = vec![(c, &a)];
                if let (Some((x, _)), Some(b)) = (inner, &b) {
                    all.push((x, b));
                }
                let mut excused = false;
                for (x, e) in &all {
                    let con = e.ran.con.replace(&root.display().to_string(), "ROOT");
                    let lines = trace(&con);
                    for t in [format!("{:?}{:?}{:?}{:?}", e.ran.code, e.ran.signal, lines, e.cargo), e.ran.log.clone()] {
                        digest = rng::mix(digest, rng::hash_str(&t));
                    }
                    if keep {
                        hist.push(J::from(format!("status {:?}, signal {:?}, cargo {:?}", e.ran.code, e.ran.signal, e.cargo)));
                        hist.extend(con.lines().chain(e.ran.log.lines()).take(300).map(J::from));
                    }
                    if let Some(st) = st.as_deref_mut() {
                        st.add("processes", 1);
                        st.add("disk_operations", e.ran.ops.iter().filter(|o| o.is_io()).count() as u64);
                        st.add("programs_run", e.cargo.iter().filter(|c| c.0 == "cargo run").count() as u64);
                        for o in &e.ran.ops {
                            if let Some(m) = o.marker() {
                                st.add(&format!("fault:{} {}", o.what, m), 1);
                            }
                        }
                        for t in [x.cargo, x.trouble] {
                            if !t.is_empty() {
                                st.add(&format!("fault:{}", t), 1);
                            }
                        }
                        for t in &x.damage {
                            st.add(&format!("text:{}", t), 1);
                        }
                        st.state(rng::mix(rng::hash_str(&format!("{:?}{:?}", lines, e.ran.code)), rng::hash_str(&format!("{:?}{}", e.cargo, x.unit))));
                    }
                    if self.prop == "C34" {
                        self.judge_result(x, e, &lines, &src, &mut v, st.as_deref_mut());
                    } else {
                        excused |= self.judge_disk(x, e, tmp_rel, &mut v);
                    }
                }
                if self.prop == "C35" && !excused && v.is_empty() && before != after {
                    let ch: Vec<String> = before
                        .keys()
                        .chain(after.keys())
                        .collect::<BTreeSet<_>>()
                        .into_iter()
                        .filter(|k| before.get(*k) != after.get(*k))
                        .map(|k| match (before.get(k), after.get(k)) {
                            (None, _) => format!("{} was left behind", k),
                            (_, None) => format!("{} is gone", k),
                            _ => format!("{} is changed", k),
                        })
                        .take(4)
                        .collect();
                    v.push(("traces".into(), format!("after the command (status {:?}): {}", a.ran.code, ch.join(", "))));
                }
                if !v.is_empty() {
                    break;
                }
            }
            return (v, digest, hist);
        }
        unreachable!()
    }

    fn judge_result(&self, c: &Cmd, e: &Ended, lines: &[String], src: &str, v: &mut Vec<(String, String)>, st: Option<&mut Stats>) {
        let r = &e.ran;
        if r.killed() && r.signal == Some(9) {
            return;
        }
        if r.hung() {
            if src.len() > HEAVY {
                // slow is not wrong
                return;
            }
            return v.push(("hang".into(), "the command did not end".into()));
        }
        if let Some(s) = r.signal {
            if c.soft() {
                v.push(("crash".into(), format!("the command was ended by signal {}", s)));
            }
            return;
        }
        let said = r.con.lines().any(|l| l.trim_end() == format!("Successfully parsed {}", src));
        let failed = r.con.contains(&format!("Failed to parse {}", src));
        let verdict = self.verdict(c);
        let possible = c.trouble.is_empty() && c.cargo.is_empty();
        if let Some(st) = st {
            let k = match &verdict {
                Verdict::Sentence(_) => "sentences",
                Verdict::Not => "not sentences",
                Verdict::Unknown => "ambiguous or too much work",
            };
            st.add(k, 1);
            st.add(&format!("status {}", r.code.unwrap_or(-1)), 1);
            if c.algo != "glr" {
                st.add("LR commands", 1);
            }
        }
        let quote = || format!("{} {:?}", if c.source.is_empty() { "the empty text" } else { "the text" }, String::from_utf8_lossy(&c.source).chars().take(80).collect::<String>());
        if said && (matches!(verdict, Verdict::Not) || !possible) {
            return v.push(("accepts".into(), format!("{} was called successfully parsed{}", quote(), if possible { "" } else { " although it could not be parsed" })));
        }
        if r.code == Some(0) && !said {
            return v.push(("status".into(), format!("status 0 without a successful parse of {}: {}", quote(), crate::diagsim::tail(&r.con))));
        }
        if let (Verdict::Sentence(want), true) = (&verdict, r.code == Some(0)) {
            if want[..] != *lines {
                let k = want.iter().zip(lines).take_while(|x| x.0 == x.1).count();
                return v.push(("trace".into(), format!("step {} of the parse of {} is {:?}, shown is {:?}", k + 1, quote(), want.get(k), lines.get(k))));
            }
        }
        if !c.soft() {
            return;
        }
        match verdict {
            Verdict::Sentence(_) if r.code != Some(0) => {
                if !self.known_program_error(c, e) {
                    let class = if c.algo == "glr" { "rejects" } else { "debug-lr" };
                    v.push((class.into(), format!("{} is a sentence, the command says (status {:?}): {}", quote(), r.code, crate::diagsim::tail(&r.con))));
                }
            }
            Verdict::Not if !failed => v.push(("no-answer".into(), format!("nothing was said about {}: {}", quote(), crate::diagsim::tail(&r.con)))),
            Verdict::Not if c.algo == "glr" => {
                // what was shifted is the beginning of the text
                let u = &self.units[c.unit];
                let Ok(t) = std::str::from_utf8(&c.source) else { return };
                let shifts: Vec<&String> = lines.iter().filter(|l| is_shift(l)).collect();
                let chars: Vec<char> = t.chars().collect();
                let mut m = u.model.lock().unwrap();
                let mut pos = 0;
                for (i, s) in shifts.iter().enumerate() {
                    match m.scan(&chars, pos) {
                        Scan::Tok(t, l) if **s == format!("shift {}", rust_token_name(&u.cfg.tokens[t])) => pos += l,
                        x => return v.push(("trace".into(), format!("shift {} of {} is {:?}, the text has {:?}", i + 1, quote(), s, x))),
                    }
                }
            }
            _ => {}
        }
    }

    /// Returns whether the disk may look different afterwards.
    fn judge_disk(&self, c: &Cmd, e: &Ended, tmp: &str, v: &mut Vec<(String, String)>) -> bool {
        let _ = c;
        let ops = &e.ran.ops;
        let below = |x: &str, d: &str| x == d || x.starts_with(&format!("{}/", d));
        let mut own: Vec<String> = vec![];
        let mut removing = None;
        let mut late = false;
        for (i, o) in ops.iter().enumerate() {
            if o.what == "ESCAPE" {
                v.push(("escape".into(), format!("{} {} {}", o.what, o.path, o.rest)));
                return true;
            }
            let path = &o.path;
            let mine = own.iter().any(|d| below(path, d));
            if o.what == "mkdir" && o.mutates() && !mine && own.is_empty() && Path::new(path).parent() == Some(Path::new(tmp)) {
                own.push(path.clone());
                continue;
            }
            if o.mutates() && !mine {
                v.push(("outside".into(), format!("{} of {} is not in a directory of the command's own ({:?})", o.what, path, own)));
                return true;
            }
            if mine && (matches!(o.what.as_str(), "unlink" | "rmdir") || o.what == "open" && !o.rest.contains('w')) {
                removing.get_or_insert(i);
            }
            if removing.is_some() && o.marker().map_or(false, |m| !matches!(m, "short" | "intr")) {
                late = true;
            }
        }
        for (what, at) in &e.cargo {
            if !own.iter().any(|d| below(at, d)) {
                v.push(("cargo-elsewhere".into(), format!("{} was run in {}", what, at)));
                return true;
            }
        }
        let aborted = e.ran.signal.is_some();
        late || aborted && (e.ran.killed() || !c.soft())
    }

    fn source(&self, rng: &mut Rng, unit: usize) -> (Vec<u8>, Vec<String>) {
        let u = &self.units[unit];
        let m = u.made.as_ref().unwrap();
        let glr = !m.lr.as_ref().unwrap().lr1;
        for _ in 0..20 {
            let mut t = if rng.pct(88) {
                let budget = match rng.below(20) {
                    0..=14 => rng.range(1, 8),
                    _ => rng.range(6, if glr { 10 } else { 40 }),
                };
                gen::sentence(&m.cfg, &u.best, rng, budget).iter().map(|t| sample_token(u, *t, rng)).collect::<String>()
            } else {
                let n = rng.below(20);
                document(u, rng, n)
            }
            .into_bytes();
            let mut labels = vec![];
            if rng.pct(38) {
                match rng.below(6) {
                    0 => {
                        t.push(b'\n');
                        labels.push("final newline".to_string());
                    }
                    1 => {
                        let k = rng.below(u.terms());
                        t.extend(sample_token(u, k, rng).into_bytes());
                        labels.push("one token more".to_string());
                    }
                    _ => {
                        let other = document(u, rng, 6).into_bytes();
                        let k = if rng.pct(70) { 1 } else { 2 };
                        labels = damage(rng, &mut t, &other, k);
                    }
                }
            }
            let c = Cmd::plain(unit, 0, t.clone());
            if !matches!(self.verdict(&c), Verdict::Unknown) {
                return (t, labels);
            }
        }
        (vec![], vec![])
    }
    fn cmd(&self, rng: &mut Rng, unit: usize) -> Cmd {
        let (s, d) = self.source(rng, unit);
        let mut c = Cmd::plain(unit, rng.next() & 0xffff_ffff, s);
        c.damage = d;
        if rng.pct(35) {
            c.jitter = Some((rng.next() & 0xffff_ffff, *rng.pick(&[1, 3, 7, 50, 1000]), *rng.pick(&[40, 200, 1000, 5000]), *rng.pick(&[0, 10, 40])));
        }
        c
    }
    fn trouble(&self, rng: &mut Rng, c: &mut Cmd) {
        match rng.below(10) {
            0 => c.cargo = *rng.pick(&CARGO[1..]),
            1 => c.trouble = *rng.pick(&TROUBLE[1..]),
            2 => c.console = Some((rng.below(4) as i64, *rng.pick(&[5, 28, 32]))),
            3 => c.full = Some((rng.below(40_000) as i64, *rng.pick(&[28, 122]))),
            4 => c.faults.push(Fault { at: rng.below(90) as i64, kind: "dead", arg: *rng.pick(&[5, 30, 13]) }),
            _ => {
                let top = if rng.pct(50) { 60 } else { 110 };
                c.faults.push(Fault { at: rng.below(top) as i64, kind: "err", arg: *rng.pick(&[5, 28, 13, 12, 17, 2, 11, 24, 1]) })
            }
        }
    }
}

/// (a non-terminal may be called "shift", too)
fn is_shift(l: &str) -> bool {
    l.starts_with("shift ") && !l.contains(" ->")
}

/// The steps of the parse in what was printed.
fn trace(con: &str) -> Vec<String> {
    con.lines()
        .filter(|l| is_shift(l) || l.contains(" ->"))
        .map(|l| if is_shift(l) { l.trim_end().to_string() } else { symbols(l).join(" ") })
        .collect()
}

impl Scenario for DebugScenario {
    type Plan = BPlan;
    fn draw(&self, rng: &mut Rng) -> BPlan {
        let unit = rng.below(self.units.len());
        let mut p = BPlan { style: rng.below(STYLES as usize) as u8, tmp: rng.below(4) as u8, clutter: rng.pct(40), steps: vec![], during: None };
        let mut c = self.cmd(rng, unit);
        let first_lr = self.units.iter().take(4).position(|u| u.made.as_ref().unwrap().lr.as_ref().unwrap().lalr);
        if let (true, Some(u)) = (rng.pct(2), first_lr) {
            c = self.cmd(rng, u);
            c.algo = *rng.pick(&["lr1", "lalr"]);
        }
        let hard = if self.prop == "C34" { 22 } else { 55 };
        if rng.pct(hard) {
            self.trouble(rng, &mut c);
        }
        if rng.pct(if self.prop == "C34" { 6 } else { 25 }) {
            // one before it, that may have died half-way
            let k = if rng.pct(60) { unit } else { rng.below(self.units.len()) };
            let mut a = self.cmd(rng, k);
            if rng.pct(70) {
                a.faults.push(Fault { at: rng.below(100) as i64, kind: "kill", arg: *rng.pick(&[-1, 0, 1, 50]) });
            } else if rng.pct(50) {
                self.trouble(rng, &mut a);
            }
            if a.trouble == "no-tmp" {
                a.trouble = "";
            }
            if rng.pct(60) {
                // the same random names
                a.seed = c.seed;
            }
            p.steps.push(a);
        }
        if !p.steps.is_empty() && c.trouble == "no-tmp" {
            c.trouble = "";
        }
        if c.trouble.is_empty() && rng.pct(15) {
            let mut b = Cmd { damage: vec![], jitter: None, ..c.clone() };
            b.faults.clear();
            b.full = None;
            b.console = None;
            b.cargo = "";
            b.algo = "glr";
            if rng.pct(50) {
                b.seed = rng.next() & 0xffff_ffff;
            }
            p.during = Some((b, *rng.pick(&["init", "run"])));
        }
        p.steps.push(c);
        p
    }
    fn run(&self, p: &BPlan, mut st: Option<&mut Stats>) -> Out {
        if let Some(st) = st.as_deref_mut() {
            st.plan(rng::hash_str(&format!("{:?}", p)));
        }
        let (viols, digest, _) = self.execute(p, st, false);
        Out { viols, digest }
    }
    fn size(&self, p: &BPlan) -> usize {
        let c = |c: &Cmd| {
            200 + c.source.len() * 3
                + c.faults.len() * 40
                + c.jitter.is_some() as usize * 30
                + (c.full.is_some() as usize + c.console.is_some() as usize + !c.cargo.is_empty() as usize + !c.trouble.is_empty() as usize) * 40
                + (c.algo != "glr") as usize * 50
                + self.units[c.unit].text.len()
                + !c.damage.is_empty() as usize
        };
        p.steps.iter().map(c).sum::<usize>() + p.during.as_ref().map_or(0, |d| c(&d.0)) + p.style as usize + p.tmp as usize + p.clutter as usize * 10
    }
    fn shrink(&self, p: &BPlan) -> Vec<BPlan> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut BPlan)| {
            let mut q = p.clone();
            f(&mut q);
            v.push(q);
        };
        if p.during.is_some() {
            push(&|q| q.during = None);
        }
        if p.steps.len() > 1 {
            push(&|q| {
                q.steps.remove(0);
            });
        }
        push(&|q| q.clutter = false);
        push(&|q| q.style = 0);
        push(&|q| q.tmp = 0);
        for i in 0..p.steps.len() {
            let c = &p.steps[i];
            push(&|q| q.steps[i].jitter = None);
            push(&|q| q.steps[i].full = None);
            push(&|q| q.steps[i].console = None);
            push(&|q| q.steps[i].cargo = "");
            push(&|q| q.steps[i].trouble = "");
            push(&|q| q.steps[i].damage.clear());
            for k in 0..c.faults.len() {
                push(&|q| {
                    q.steps[i].faults.remove(k);
                });
            }
            let mut small: Vec<usize> = (0..self.units.len()).filter(|k| self.units[*k].text.len() < self.units[c.unit].text.len()).collect();
            small.sort_by_key(|k| self.units[*k].text.len());
            for k in small.into_iter().take(3) {
                push(&|q| q.steps[i].unit = k);
            }
            let n = c.source.len();
            for part in [1, 2, 4, 8, 16, 40] {
                let w = n.div_ceil(part).max(1);
                for k in 0..part {
                    if k * w < n {
                        push(&|q| {
                            q.steps[i].source.drain(k * w..((k + 1) * w).min(n));
                        });
                    }
                }
            }
        }
        v
    }
    fn replay_json(&self, p: &BPlan) -> J {
        let mut used: Vec<usize> = p.steps.iter().map(|c| c.unit).chain(p.during.iter().map(|d| d.0.unit)).collect();
        used.sort();
        used.dedup();
        let pair = |x: &Option<(i64, i64)>| x.map_or(J::Null, |(a, b)| J::Arr(vec![J::from(a), J::from(b)]));
        let cmd = |c: &Cmd| {
            let faults: Vec<J> = c.faults.iter().map(|f| crate::obj! {"operation" => f.at, "kind" => f.kind, "arg" => f.arg}).collect();
            crate::obj! {
                "unit" => used.iter().position(|x| *x == c.unit).unwrap(), "algorithm" => c.algo, "seed" => c.seed,
                "source_hex" => hex(&c.source), "shown" => printable(&c.source),
                "jitter" => c.jitter.map_or(J::Null, |(a, b, c, d)| J::Arr(vec![J::from(a), J::from(b), J::from(c), J::from(d)])),
                "faults" => faults, "full" => pair(&c.full), "console" => pair(&c.console), "cargo" => c.cargo, "trouble" => c.trouble
            }
        };
        crate::obj! {
            "kind" => "debug", "units" => used.iter().map(|u| J::from(self.units[*u].text.as_str())).collect::<Vec<J>>(),
            "style" => p.style as usize, "tmp" => p.tmp as usize, "clutter" => p.clutter,
            "steps" => p.steps.iter().map(cmd).collect::<Vec<J>>(),
            "during" => p.during.as_ref().map_or(J::Null, |d| cmd(&d.0)), "during_at" => p.during.as_ref().map_or("", |d| d.1)
        }
    }
    fn history(&self, p: &BPlan) -> Vec<J> {
        self.execute(p, None, true).2
    }
    fn sample(&self, p: &BPlan) -> J {
        let c: Vec<J> = p
            .steps
            .iter()
            .map(|c| crate::obj! {"source" => printable(&c.source), "faults" => format!("{:?}", c.faults), "cargo" => c.cargo, "trouble" => c.trouble})
            .collect();
        crate::obj! {"commands" => c, "during" => p.during.as_ref().map_or("", |d| d.1), "grammar" => self.units[p.steps[0].unit].text.as_str()}
    }
    fn repeated(&self) -> u64 {
        60
    }
    fn watchdog(&self) -> u64 {
        60
    }
}

fn plan_from(j: &J) -> BPlan {
    let pair = |x: &J| (!x.is_null()).then(|| (x.arr()[0].int(), x.arr()[1].int()));
    let of = |s: &str, all: &[&'static str]| *all.iter().find(|a| **a == s).unwrap_or_else(|| die("replay: unknown word"));
    let cmd = |x: &J| {
        let jt = x.get("jitter");
        Cmd {
            unit: x.get("unit").u(),
            algo: of(x.get("algorithm").str(), &ALGOS),
            seed: x.get("seed").int() as u64,
            source: unhex(x.get("source_hex").str()),
            damage: vec![],
            jitter: (!jt.is_null()).then(|| (jt.arr()[0].int() as u64, jt.arr()[1].int(), jt.arr()[2].int(), jt.arr()[3].int())),
            faults: x.get("faults").arr().iter().map(|f| Fault { at: f.get("operation").int(), kind: of(f.get("kind").str(), &KINDS), arg: f.get("arg").int() }).collect(),
            full: pair(x.get("full")),
            console: pair(x.get("console")),
            cargo: of(x.get("cargo").str(), &CARGO),
            trouble: of(x.get("trouble").str(), &TROUBLE),
        }
    };
    let d = j.get("during");
    BPlan {
        style: j.get("style").u() as u8,
        tmp: j.get("tmp").u() as u8,
        clutter: j.get("clutter").bool(),
        steps: j.get("steps").arr().iter().map(cmd).collect(),
        during: (!d.is_null()).then(|| (cmd(d), of(j.get("during_at").str(), &["init", "run"]))),
    }
}

fn unit(k: usize, text: String) -> Result<LexUnit, String> {
    let mut u = LexUnit::with_limit(format!("debug-{}", k), "rust", Class::Glr, text, true, 400)?;
    u.skip.iter_mut().for_each(|s| *s = false);
    u.made.as_ref().unwrap().lr.as_ref().ok_or("no automaton")?;
    Ok(u)
}

fn scenario(prop: &str, env: &Env, units: Vec<LexUnit>) -> DebugScenario {
    let m = Machine::build(env, false);
    let base = env.work.clone();
    for d in ["bin", "cache", "nothing"] {
        let _ = std::fs::create_dir_all(base.join(d));
    }
    let mut c = Command::new("gcc");
    c.args(["-O1", "-static", "-w", "-o"]).arg(base.join("bin/cargo")).arg(env.verif.join("simcargo/simcargo.c"));
    let r = run(c, Duration::from_secs(120));
    if !r.ok {
        die(&format!("simcargo: {}", r.out));
    }
    let known = std::fs::read_to_string(env.verif.join("known-findings.txt")).map_or(false, |t| t.lines().any(|l| l.starts_with(LISTED)));
    let s = DebugScenario { prop: prop.into(), m, base, units, known };
    // the programs of all grammars, compiled beforehand
    parallel(s.units.len(), env.jobs, |i| {
        let dir = s.base.join(format!("pre{}", i));
        let root = dir.join("disk");
        std::fs::create_dir_all(&dir).unwrap();
        let p = BPlan { style: 0, tmp: 0, clutter: false, steps: vec![], during: None };
        let (l, _, _) = s.paths(&p, &root);
        setup(&root, &l, "");
        std::fs::create_dir_all(root.join("tmp")).unwrap();
        let c = Cmd::plain(i, 1, vec![]);
        s.place(&c, &l, &root);
        s.one(&dir, &root, &p, &c, None);
        s.compile(&dir);
        let _ = std::fs::remove_dir_all(&dir);
    });
    s
}

pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new(prop);
    let base = rng::mix(seed, rng::hash_str(prop));
    let mut units = vec![];
    let n = if thorough { 700 } else { 110 };
    let mut k = 0u64;
    while units.len() < n {
        let mut r = Rng::new(rng::mix(base, k));
        k += 1;
        let text = if r.pct(25) {
            gen::grammar(&mut r, Class::Glr).text
        } else {
            lexunit::pipeline(&mut r, Class::Glr, k as usize).text
        };
        if text.len() < HEAVY {
            if let Ok(u) = unit(units.len(), text) {
                units.push(u);
            }
        }
    }
    let s = scenario(prop, &env, units);
    let mut rep = Report::new(prop, seed, thorough);
    let what = Search { runs: if thorough { 400_000 } else { 9_000 }, cap_s: if thorough { 600 } else { 80 }, seed, prop: prop.into() };
    let st = explore(&s, &env, &what, &mut rep);
    if rep.ok() && prop == "C34" && s.known {
        // is the listed finding still there?
        let text = "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s = A B;\n";
        let strict = DebugScenario { known: false, units: vec![unit(0, text.into()).unwrap_or_else(|e| die(&e))], prop: prop.into(), m: s.m.clone(), base: s.base.clone() };
        let mut still = vec![];
        for algo in ["lr0", "lr1", "lalr"] {
            let mut c = Cmd::plain(0, 1, b"ab".to_vec());
            c.algo = algo;
            let p = BPlan { style: 0, tmp: 0, clutter: false, steps: vec![c], during: None };
            match probe(&strict, &env, &p) {
                Some((class, _)) if class == "debug-lr" => still.push(algo),
                Some((class, msg)) => {
                    let mut j = strict.replay_json(&p);
                    j.set("property", J::from(prop));
                    j.set("class", J::from(class.as_str()));
                    j.set("message", J::from(msg.as_str()));
                    rep.violation(&j);
                }
                None => {}
            }
        }
        if !still.is_empty() {
            println!("{} debug -a {} never compiles the program it writes and calls every text unparsable", LISTED, still.join("|"));
        }
    }
    let g = |k: &str| st.n.get(k).copied().unwrap_or(0);
    rep.cover("simulated_time", format!("logical: {} disk operations; every process starts at a clock drawn from its seed", g("disk_operations")));
    rep.cover("grammars", s.units.len());
    rep.cover(
        "rule",
        "one evaluation = one simulated history: 1-3 processes of the real `lapex-cli debug` (one after a crashed one, or one while another waits for cargo) on a drawn grammar and source text, with random names, hash seeds, addresses, delivery of reads and writes, interrupted waits, disk errors, full disks, broken consoles, missing files and failing children drawn from the run's seed; distinct = different (commands, disk, faults)",
    );
    rep.cover("real_code", "lapex-cli debug, lapex, the generated front end, lapex-lexer, lapex-parser, the Rust code generators, tempdir, Rust's std; the generated program, compiled by rustc and run");
    rep.cover("stubs", "cargo (simcargo.c), C library calls for files, memory, random bytes, clocks, waiting (simfs.c over a scratch directory)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let env = Env::new("replay");
    let units = j.get("units").arr().iter().enumerate().map(|(k, t)| unit(k, t.str().into()).unwrap_or_else(|e| die(&e))).collect();
    let s = scenario(j.get("property").str(), &env, units);
    let r = probe(&s, &env, &plan_from(j));
    env.clean();
    r
}
