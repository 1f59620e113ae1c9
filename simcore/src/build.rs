//! Builds lapex from the working tree, runs it on grammars and compiles what it generates.
use crate::gen::Class;
use crate::glue;
use crate::judge::Unit;
use crate::rng;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Env {
    pub verif: PathBuf,
    pub repo: PathBuf,
    pub target: PathBuf,
    /// scratch directory of this run, removed at the end
    pub work: PathBuf,
    pub jobs: usize,
}

const SLOW_TO_BUILD: [&str; 11] =
    ["clap", "clap_builder", "syn", "nom", "regex-syntax", "lapex-cli", "lapex-input-bootstrap", "regex", "aho-corasick", "memchr", "anstream"];

pub fn die(msg: &str) -> ! {
    eprintln!("harness error: {}", msg);
    std::process::exit(2)
}

impl Env {
    pub fn new(what: &str) -> Env {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
        let repo = PathBuf::from(std::env::var("LAPEX_REPO").unwrap_or("/repo".into()));
        let mut target = verif.join("target");
        if repo != Path::new("/repo") {
            target = target.join(format!("alt-{:08x}", rng::hash_str(&repo.to_string_lossy()) as u32));
        }
        let base = target.join("work");
        let work = base.join(format!("{}-{}", what, std::process::id()));
        std::fs::create_dir_all(&work).unwrap_or_else(|e| die(&format!("{}: {}", work.display(), e)));
        let jobs = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        Env { verif, repo, target, work, jobs }
    }
    pub fn clean(&self) {
        if std::env::var("SIM_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.work);
        }
    }
    /// Hash of everything lapex is built from.
    pub fn source_hash(&self) -> u64 {
        let mut files = vec![];
        walk(&self.repo, &mut files, 0);
        files.sort();
        let mut h = 0;
        for f in files {
            let b = std::fs::read(&f).unwrap_or_default();
            h = rng::mix(h, rng::mix(rng::hash_str(&f.to_string_lossy()), rng::hash_bytes(&b)));
        }
        h
    }
    /// Builds a cargo package that contains or depends on the repository's crates.
    pub fn cargo(&self, manifest: &Path, dir: &str, args: &[&str], locked: bool) {
        if let Err(e) = self.try_cargo(manifest, dir, args, locked) {
            die(&e);
        }
    }
    pub fn try_cargo(&self, manifest: &Path, dir: &str, args: &[&str], locked: bool) -> Result<(), String> {
        let t = self.target.join(dir);
        let stamp = t.join("source.hash");
        let now = format!("{:016x}", self.source_hash());
        let old = std::fs::read_to_string(&stamp).unwrap_or_default();
        if t.exists() && old != now {
            // never trust time stamps: rebuild every crate of the repository
            for prof in ["debug", "release"] {
                for sub in [".fingerprint", "build"] {
                    if let Ok(d) = std::fs::read_dir(t.join(prof).join(sub)) {
                        for e in d.flatten() {
                            let n = e.file_name().to_string_lossy().to_string();
                            if n.starts_with("lapex") || n.starts_with("sim") {
                                let _ = std::fs::remove_dir_all(e.path());
                            }
                        }
                    }
                }
            }
        }
        let mut c = Command::new("cargo");
        c.arg("build").arg("--offline").arg("--manifest-path").arg(manifest).args(args);
        if locked {
            c.arg("--locked");
        }
        // twice as fast at run time; debug assertions and overflow checks stay on
        c.args(["--config", "profile.dev.opt-level=1"]);
        for p in SLOW_TO_BUILD {
            c.args(["--config", &format!("profile.dev.package.{}.opt-level=0", p)]);
        }
        c.env("CARGO_TARGET_DIR", &t)
            .env("CARGO_NET_OFFLINE", "true")
            .env("CARGO_PROFILE_DEV_DEBUG", "0")
            .env("CARGO_INCREMENTAL", "0")
            .env("CARGO_TERM_COLOR", "never")
            .env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
            .env_remove("RUSTC_WRAPPER")
            .env_remove("RUSTFLAGS");
        let o = c.output().unwrap_or_else(|e| die(&format!("cargo: {}", e)));
        if !o.status.success() {
            return Err(format!("build of {} failed:\n{}", manifest.display(), String::from_utf8_lossy(&o.stderr)));
        }
        let _ = std::fs::write(&stamp, now);
        Ok(())
    }
    pub fn cli(&self) -> PathBuf {
        self.cargo(&self.repo.join("Cargo.toml"), "lapex", &["-p", "lapex-cli", "--bin", "lapex-cli"], true);
        self.target.join("lapex/debug/lapex-cli")
    }
}

fn walk(d: &Path, out: &mut Vec<PathBuf>, depth: usize) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let n = e.file_name();
        let n = n.to_string_lossy();
        if n.starts_with('.') || depth == 0 && (n == "target" || n == "example") || n == "target" {
            continue;
        }
        let p = e.path();
        let Ok(t) = e.file_type() else { continue };
        if t.is_dir() {
            walk(&p, out, depth + 1);
        } else if t.is_file() {
            out.push(p);
        }
    }
}

pub struct Done {
    pub ok: bool,
    pub timed_out: bool,
    pub status: String,
    pub code: Option<i32>,
    pub out: String,
}

/// Runs a command with a wall-clock limit; output is collected (bounded).
pub fn run(mut c: Command, limit: Duration) -> Done {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(x) => x,
        Err(e) => die(&format!("{:?}: {}", c.get_program(), e)),
    };
    let mut o = ch.stdout.take().unwrap();
    let mut e = ch.stderr.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let th2 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let mut timed_out = false;
    let mut nap = 1;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if t0.elapsed() > limit {
            timed_out = true;
            let _ = ch.kill();
            break ch.wait().ok();
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    };
    let mut b = th2.join().unwrap_or_default();
    b.extend(th.join().unwrap_or_default());
    b.truncate(20000);
    Done {
        ok: st.map_or(false, |s| s.success()) && !timed_out,
        timed_out,
        status: st.map(|s| s.to_string()).unwrap_or_default(),
        code: st.and_then(|s| s.code()),
        out: strip_ansi(&String::from_utf8_lossy(&b)),
    }
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Runs `f` for 0..n on several threads.
pub fn parallel(n: usize, jobs: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..jobs.min(n.max(1)) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                f(i);
            });
        }
    });
}

/// Why a unit could not be made.
#[derive(Clone, Debug)]
pub struct Refused {
    pub unit: usize,
    /// "generation", "missing-output" or "compile"
    pub stage: &'static str,
    pub msg: String,
}

/// Grammars that may take long because of their size.
pub const HEAVY: usize = 1200;

pub fn generate(cli: &Path, text: &str, lang: &str, algo: &str, dir: &Path, extra: &[&str]) -> Done {
    std::fs::create_dir_all(dir).unwrap();
    let g = dir.join("grammar.lapex");
    std::fs::write(&g, text).unwrap();
    let mut c = Command::new(cli);
    c.args(["generate", "-l", lang, "-a", algo]).args(extra).arg("--target").arg(dir).arg(&g);
    c.env("RUST_BACKTRACE", "0");
    run(c, Duration::from_secs(90))
}

pub const RUSTC_FLAGS: &[&str] = &[
    "--edition=2021",
    "--crate-type=cdylib",
    "-Cdebuginfo=0",
    "-Copt-level=0",
    "-Coverflow-checks=on",
    "-Cdebug-assertions=on",
    "-Cstrip=symbols",
    "-Cpanic=unwind",
    "--cap-lints=allow",
];
pub const GXX_FLAGS: &[&str] = &[
    "-O0",
    "-fPIC",
    "-fvisibility=hidden",
    "-fno-gnu-unique",
    "-D_GLIBCXX_ASSERTIONS",
    "-fsanitize=undefined",
    "-fno-sanitize=vptr",
    "-fsanitize-trap=all",
    "-w",
];

const PREFIX: &str = "#include <cstdint>\n#include <cstddef>\n#include <cstring>\n#include <exception>\n#include <stdexcept>\n#include <functional>\n#include <utility>\n#include <queue>\n#include <stack>\n#include <deque>\n#include <vector>\n#include <string>\n#include <iostream>\n#include <istream>\n#include <sstream>\n#include <streambuf>\n#include <memory>\n#include <algorithm>\n#include <map>\n#include <set>\n";

pub fn make_pch(env: &Env) {
    let d = env.work.join("pch");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("prefix.h"), PREFIX).unwrap();
    let mut c = Command::new("g++");
    c.args(GXX_FLAGS).arg("-x").arg("c++-header").arg(d.join("prefix.h")).arg("-o").arg(d.join("prefix.h.gch"));
    let r = run(c, Duration::from_secs(120));
    if !r.ok {
        die(&format!("precompiled header: {}", r.out));
    }
}

pub fn rustc(src: &Path, out: &Path) -> Done {
    let mut c = Command::new("rustc");
    c.args(RUSTC_FLAGS).arg(src).arg("-o").arg(out).env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu");
    run(c, Duration::from_secs(200))
}

/// Compiles each file by itself, as a user's build would, and links them.
pub fn gxx(env: &Env, dir: &Path, files: &[&str], out: &Path, pch: bool) -> Done {
    let mut objs = vec![];
    for f in files {
        let o = dir.join(format!("{}.o", f));
        let mut c = Command::new("g++");
        c.args(GXX_FLAGS);
        if pch {
            c.arg("-include").arg(env.work.join("pch/prefix.h"));
        }
        c.arg("-c").arg(dir.join(format!("{}.cpp", f))).arg("-o").arg(&o);
        let r = run(c, Duration::from_secs(300));
        if !r.ok {
            return r;
        }
        objs.push(o);
    }
    let mut c = Command::new("g++");
    c.args(["-shared", "-Wl,-Bsymbolic", "-Wl,-z,defs"]).args(&objs).arg("-o").arg(out);
    run(c, Duration::from_secs(300))
}

/// Generates and compiles parser units; returns the shared objects and the refusals.
pub fn make_parsers(env: &Env, cli: &Path, units: &[Unit], glue_note: &str) -> (Vec<Option<PathBuf>>, Vec<Refused>) {
    let _ = glue_note;
    let out: Mutex<Vec<Option<PathBuf>>> = Mutex::new(vec![None; units.len()]);
    let bad: Mutex<Vec<Refused>> = Mutex::new(vec![]);
    if units.iter().any(|u| u.lang == "cpp") {
        make_pch(env);
    }
    let hung = AtomicBool::new(false);
    let failed = std::sync::atomic::AtomicUsize::new(0);
    // small ones first: compilers take long to complain about big ones
    let mut order: Vec<usize> = (0..units.len()).collect();
    order.sort_by_key(|i| units[*i].made.text.len());
    parallel(units.len(), env.jobs, |k| {
        let i = order[k];
        let u = &units[i];
        if hung.load(Ordering::Relaxed) || failed.load(Ordering::Relaxed) >= 8 && u.made.text.len() > HEAVY / 2 {
            return;
        }
        let dir = env.work.join(format!("u{}", i));
        let r = generate(cli, &u.made.text, u.lang, u.class.flag(), &dir, &[]);
        if r.timed_out && u.made.text.len() > HEAVY {
            // slow is not wrong
            eprintln!("{}: not generated in time, left out", u.name);
            return;
        }
        let refuse = |stage, msg: String| bad.lock().unwrap().push(Refused { unit: i, stage, msg });
        if !r.ok {
            // one such grammar is enough
            hung.fetch_or(r.timed_out, Ordering::Relaxed);
            refuse("generation", if r.timed_out { "generation did not end".into() } else { format!("{}: {}", r.status, r.out) });
            return;
        }
        let so = dir.join("unit.so");
        let r = if u.lang == "rust" {
            let src = dir.join("unit.rs");
            std::fs::write(&src, glue::rust(&u.made.cfg, u.class == Class::Glr, &dir.to_string_lossy())).unwrap();
            rustc(&src, &so)
        } else {
            std::fs::write(dir.join("glue.cpp"), glue::cpp(&u.made.cfg, u.class == Class::Ll1)).unwrap();
            // curated units are compiled without helpful headers
            gxx(env, &dir, &["tokens", "parser", "glue"], &so, !u.curated)
        };
        if !r.ok && r.timed_out && u.made.text.len() > HEAVY {
            eprintln!("{}: not compiled in time, left out", u.name);
            return;
        }
        if !r.ok {
            failed.fetch_add(1, Ordering::Relaxed);
            refuse("compile", r.out);
            // other callbacks than documented; what is accepted can still be told
            let own = glue::visitor_methods(&std::fs::read_to_string(dir.join("parser.rs")).unwrap_or_default());
            if u.lang != "rust" || own == u.made.cfg.rust_names {
                return;
            }
            let src = dir.join("unit.rs");
            std::fs::write(&src, glue::rust_with(&u.made.cfg, u.class == Class::Glr, &dir.to_string_lossy(), own)).unwrap();
            if !rustc(&src, &so).ok {
                return;
            }
        }
        out.lock().unwrap()[i] = Some(so);
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| (units[b.unit].made.text.len(), b.unit));
    (out.into_inner().unwrap(), bad)
}

extern "C" {
    fn dlopen(name: *const std::os::raw::c_char, flags: i32) -> *mut std::os::raw::c_void;
    fn dlsym(h: *mut std::os::raw::c_void, name: *const std::os::raw::c_char) -> *mut std::os::raw::c_void;
    fn dlerror() -> *const std::os::raw::c_char;
}

pub fn load(so: &Path, symbol: &str) -> *mut std::os::raw::c_void {
    let n = std::ffi::CString::new(so.to_string_lossy().as_bytes()).unwrap();
    let s = std::ffi::CString::new(symbol).unwrap();
    unsafe {
        let h = dlopen(n.as_ptr(), 2);
        if h.is_null() {
            die(&format!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy()));
        }
        let p = dlsym(h, s.as_ptr());
        if p.is_null() {
            die(&format!("{}: no symbol {}", so.display(), symbol));
        }
        p
    }
}
