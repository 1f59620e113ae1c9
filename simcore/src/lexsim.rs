//! Simulated executions of generated lexers and of lexer + parser pipelines (C16, C17, C18, C20):
//! documents damaged by storage and transit faults, delivered by stream buffers whose refills and
//! failures the simulator decides, several lexers interleaved.
use crate::build::*;
use crate::driver::*;
use crate::gen::{self, Class};
use crate::host::Sim;
use crate::json::J;
use crate::lexref::Scan;
use crate::lexunit::*;
use crate::lr::Ev;
use crate::report::Report;
use crate::rng::{self, Rng};
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct LSess {
    pub unit: usize,
    pub bytes: Vec<u8>,
    pub faults: Vec<String>,
    /// 0 buffered, 1 own bulk read, 2 unbuffered, 3 std::istringstream
    pub mode: u64,
    /// sizes of the pieces the stream buffer gets, repeated
    pub pieces: Vec<usize>,
    /// the stream buffer throws instead of delivering the byte with this number
    pub broken_at: Option<usize>,
    /// bytes somebody else reads from the stream first
    pub skip: usize,
    /// the stream was never good
    pub unopened: bool,
    /// the stream goes bad before this call
    pub bad_after: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct LPlan {
    pub sessions: Vec<LSess>,
    pub script: Vec<u32>,
    pub sched_seed: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
enum Rec {
    Tok { kind: u32, start: u64, end: u64, slice: Vec<u8> },
    Fill(i64),
    Ev { ev: Ev, start: u64, end: u64, slice: Vec<u8> },
    End { kind: u32, got: u32, at: u64, what: String },
}

pub const ERR: u32 = u32::MAX;
pub const PANIC: u32 = u32::MAX - 1;

pub struct LexSession {
    sim: Arc<Sim>,
    slot: usize,
    plan: LSess,
    limit: usize,
    stop_after: Option<usize>,
    pos: Cell<usize>,
    fills: Cell<usize>,
    calls: Cell<usize>,
    recs: RefCell<Vec<(u64, Rec)>>,
    terms: u32,
    quiet_calls: Cell<usize>,
}

#[repr(C)]
pub struct LexApi {
    text: extern "C" fn(&LexSession, &mut usize) -> *const u8,
    fill: unsafe extern "C" fn(&LexSession, *mut u8, usize) -> i64,
    mode: extern "C" fn(&LexSession, u32) -> u64,
    token: unsafe extern "C" fn(&LexSession, u32, u64, u64, *const u8, usize) -> i32,
    event: unsafe extern "C" fn(&LexSession, u32, u32, u64, u64, *const u8, usize),
    end: unsafe extern "C" fn(&LexSession, u32, u32, u64, *const u8, usize),
}
static API: LexApi = LexApi { text: l_text, fill: l_fill, mode: l_mode, token: l_token, event: l_event, end: l_end };

extern "C" fn l_text(s: &LexSession, n: &mut usize) -> *const u8 {
    *n = s.plan.bytes.len();
    if *n == 0 {
        return std::ptr::NonNull::dangling().as_ptr();
    }
    s.plan.bytes.as_ptr()
}
unsafe extern "C" fn l_fill(s: &LexSession, buf: *mut u8, cap: usize) -> i64 {
    let t = s.sim.step(s.slot);
    let p = s.pos.get();
    let k = s.fills.get();
    s.fills.set(k + 1);
    let stop = s.plan.broken_at.unwrap_or(usize::MAX).min(s.plan.bytes.len());
    let r = if p >= stop {
        if s.plan.broken_at.map_or(false, |b| p >= b) {
            -1
        } else {
            0
        }
    } else {
        let piece = if s.plan.pieces.is_empty() { cap } else { s.plan.pieces[k % s.plan.pieces.len()] };
        let n = piece.max(1).min(cap).min(stop - p);
        std::ptr::copy_nonoverlapping(s.plan.bytes.as_ptr().add(p), buf, n);
        s.pos.set(p + n);
        n as i64
    };
    s.recs.borrow_mut().push((t, Rec::Fill(r)));
    r
}
extern "C" fn l_mode(s: &LexSession, what: u32) -> u64 {
    match what {
        0 => s.plan.mode,
        1 => s.plan.skip as u64,
        2 => s.plan.unopened as u64,
        _ => s.plan.bad_after.map_or(u64::MAX, |x| x as u64),
    }
}
unsafe fn bytes(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 || p.is_null() {
        vec![]
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}
unsafe extern "C" fn l_token(s: &LexSession, kind: u32, start: u64, end: u64, p: *const u8, n: usize) -> i32 {
    let t = s.sim.step(s.slot);
    s.recs.borrow_mut().push((t, Rec::Tok { kind, start, end, slice: bytes(p, n) }));
    let k = s.calls.get() + 1;
    s.calls.set(k);
    if kind == PANIC || k >= s.limit || s.stop_after.map_or(false, |x| k >= x) {
        return 0;
    }
    // a few more calls after the end or an error that does not move
    if kind == s.terms || kind == ERR {
        let q = s.quiet_calls.get() + 1;
        s.quiet_calls.set(q);
        return (q < 4) as i32;
    }
    s.quiet_calls.set(0);
    1
}
unsafe extern "C" fn l_event(s: &LexSession, kind: u32, a: u32, start: u64, end: u64, p: *const u8, n: usize) {
    let t = s.sim.step(s.slot);
    let ev = if kind == 0 { Ev::Shift(a as usize, 0) } else { Ev::Reduce(a as usize) };
    s.recs.borrow_mut().push((t, Rec::Ev { ev, start, end, slice: bytes(p, n) }));
}
unsafe extern "C" fn l_end(s: &LexSession, kind: u32, got: u32, at: u64, p: *const u8, n: usize) {
    let what = String::from_utf8_lossy(&bytes(p, n)).into_owned();
    s.recs.borrow_mut().push((0, Rec::End { kind, got, at, what }));
}

type LexRun = unsafe extern "C" fn(&LexApi, &LexSession);

pub struct LexScenario {
    pub prop: String,
    pub units: Vec<LexUnit>,
    pub live: Vec<usize>,
    pub runs: Vec<Option<LexRun>>,
    pub pipe: bool,
}

// ---------------------------------------------------------------------------------------------
// damage

/// What storage and transit do to the bytes of a document.
pub fn damage(rng: &mut Rng, b: &mut Vec<u8>, other: &[u8], n: usize) -> Vec<String> {
    let mut f: Vec<String> = vec![];
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let len = b.len();
        let i = rng.below(len);
        let reach = if rng.pct(70) { 4 } else { 40 };
        let j = (i + 1 + rng.below(reach)).min(len);
        match rng.below(12) {
            0 => {
                b.drain(i..j);
                f.push("lost-bytes".into());
            }
            1 => {
                b.truncate(i);
                f.push("truncated".into());
            }
            2 => {
                let part = b[i..j].to_vec();
                b.splice(j..j, part);
                f.push("duplicated-bytes".into());
            }
            3 => {
                b[i] ^= 1 << rng.below(8);
                f.push("bit-flip".into());
            }
            4 => {
                b[i] = rng.next() as u8;
                f.push("corrupt-byte".into());
            }
            5 => {
                b[i..j].fill(0);
                f.push("zeroed-block".into());
            }
            6 => {
                if !other.is_empty() {
                    let k = rng.below(other.len());
                    b.truncate(i);
                    b.extend_from_slice(&other[k..]);
                    f.push("torn-write".into());
                }
            }
            7 => {
                if !other.is_empty() {
                    for x in i..j {
                        if let Some(o) = other.get(x) {
                            b[x] = *o;
                        }
                    }
                    f.push("stale-block".into());
                }
            }
            8 => {
                let part: Vec<u8> = b.drain(i..j).collect();
                let at = rng.below(b.len() + 1);
                b.splice(at..at, part);
                f.push("reordered-block".into());
            }
            9 => {
                let x = *rng.pick(&[0u8, 0x80, 0xc0, 0xff, 0xed, 0xf8, 0xfe, b'\n', b'\r', 0x7f]);
                b.insert(i, x);
                f.push("inserted-byte".into());
            }
            10 => {
                // cut a character in half
                let mut k = i;
                while k < b.len() && b[k] & 0xc0 != 0x80 {
                    k += 1;
                }
                if k < b.len() {
                    if rng.pct(50) {
                        b.truncate(k);
                    } else {
                        b.remove(k);
                    }
                    f.push("cut-character".into());
                }
            }
            _ => {
                b.insert(i, 0);
                f.push("inserted-nul".into());
            }
        }
    }
    f
}

/// Characters up to the first bytes that are not UTF-8 (in the first `limit` bytes).
fn decode(b: &[u8]) -> (Vec<char>, bool) {
    match std::str::from_utf8(b) {
        Ok(s) => (s.chars().collect(), true),
        Err(e) => (std::str::from_utf8(&b[..e.valid_up_to()]).unwrap().chars().collect(), false),
    }
}

// ---------------------------------------------------------------------------------------------

impl LexScenario {
    fn text_for(&self, u: &LexUnit, rng: &mut Rng) -> String {
        if self.pipe {
            let m = u.made.as_ref().unwrap();
            let glr = u.class == Class::Glr && !m.lr.as_ref().unwrap().lr1;
            let budget = match rng.below(20) {
                0..=12 => rng.range(1, 10),
                13..=18 => rng.range(8, if glr { 10 } else { 40 }),
                _ => rng.range(30, if glr { 31 } else { 400 }),
            };
            let toks = if !glr && rng.below(1500) == 0 {
                gen::long_sentence(&m.cfg, &u.best, rng, 4000)
            } else if !glr && rng.pct(4) {
                let target = rng.range(30, 300);
                gen::long_sentence(&m.cfg, &u.best, rng, target)
            } else {
                gen::sentence(&m.cfg, &u.best, rng, budget)
            };
            let sep: Vec<usize> = (0..u.terms()).filter(|t| u.skip[*t]).collect();
            let mut o = String::new();
            for (i, t) in toks.iter().enumerate() {
                if !sep.is_empty() && (i > 0 && rng.pct(85) || rng.pct(10)) {
                    for _ in 0..if rng.pct(15) { 2 } else { 1 } {
                        let k = *rng.pick(&sep);
                        o.push_str(&sample_token(u, k, rng));
                    }
                }
                o.push_str(&sample_token(u, *t, rng));
            }
            if !sep.is_empty() && rng.pct(30) {
                let k = *rng.pick(&sep);
                o.push_str(&sample_token(u, k, rng));
            }
            o
        } else {
            let n = match rng.below(100) {
                0..=4 => rng.below(3),
                5..=69 => rng.range(1, 40),
                70..=97 => rng.range(30, 400),
                _ => {
                    let top = if rng.pct(10) { 70_000 } else { 6000 };
                    rng.range(2000, top)
                }
            };
            document(u, rng, n)
        }
    }
    fn execute(&self, p: &LPlan) -> (Vec<Vec<(u64, Rec)>>, Vec<u32>, u64) {
        let n = p.sessions.len();
        let sim = Arc::new(Sim::new(n, p.sched_seed, &p.script));
        let mk = |i: usize| {
            let u = &self.units[p.sessions[i].unit];
            LexSession {
                sim: sim.clone(),
                slot: i,
                plan: p.sessions[i].clone(),
                limit: 2 * p.sessions[i].bytes.len() + 60,
                stop_after: None,
                pos: Cell::new(0),
                fills: Cell::new(0),
                calls: Cell::new(0),
                recs: RefCell::new(vec![]),
                terms: u.terms() as u32,
                quiet_calls: Cell::new(0),
            }
        };
        let mut hist = vec![vec![]; n];
        if n == 1 {
            let s = mk(0);
            unsafe { (self.runs[p.sessions[0].unit].unwrap())(&API, &s) };
            hist[0] = s.recs.into_inner();
        } else {
            sim.start();
            let mut hs = vec![];
            for i in 0..n {
                let s = mk(i);
                let f = self.runs[p.sessions[i].unit].unwrap();
                let b = Box::new(s);
                let addr = Box::into_raw(b) as usize;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn(move || {
                            let s = unsafe { Box::from_raw(addr as *mut LexSession) };
                            s.sim.wait_turn(s.slot);
                            unsafe { f(&API, &s) };
                            s.sim.done(s.slot);
                            s.recs.take()
                        })
                        .unwrap(),
                );
            }
            for (i, h) in hs.into_iter().enumerate() {
                hist[i] = h.join().unwrap();
            }
        }
        let (script, steps) = sim.finish();
        (hist, if p.sched_seed.is_some() { script } else { p.script.clone() }, steps)
    }

    fn judge(&self, s: &LSess, recs: &[(u64, Rec)], st: &mut Option<&mut Stats>) -> Option<(String, String)> {
        let u = &self.units[s.unit];
        if self.pipe {
            self.judge_pipe(u, s, recs, st)
        } else if u.lang == "rust" {
            self.judge_rust(u, s, recs, st)
        } else {
            self.judge_cpp(u, s, recs, st)
        }
    }

    fn judge_rust(&self, u: &LexUnit, s: &LSess, recs: &[(u64, Rec)], st: &mut Option<&mut Stats>) -> Option<(String, String)> {
        let text = std::str::from_utf8(&s.bytes).unwrap();
        let chars: Vec<char> = text.chars().collect();
        let mut off: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        off.push(text.len());
        let mut m = u.model.lock().unwrap();
        let mut pos = 0;
        let mut n = 0;
        for (_, r) in recs {
            let Rec::Tok { kind, start, end, slice } = r else { continue };
            n += 1;
            if *kind == PANIC {
                return Some(("crash".into(), format!("call {}: panic: {}", n, String::from_utf8_lossy(slice))));
            }
            let want = m.scan(&chars, pos);
            let (k, len) = match want {
                Scan::Tok(t, l) => (t as u32, l),
                Scan::Err(l) => (ERR, l),
                Scan::End => (u.terms() as u32, 0),
            };
            let show = |k: u32| if k == ERR { "an error".to_string() } else { u.show(k as usize) };
            if *kind != k {
                let class = if *kind == u.terms() as u32 { "early-end" } else { "kind" };
                return Some((
                    class.into(),
                    format!("call {} at character {}: expected {} of {} characters, got {} ({}..{})", n, pos, show(k), len, show(*kind), start, end),
                ));
            }
            let (a, b) = (off[pos] as u64, off[pos + len] as u64);
            if (*start, *end) != (a, b) {
                return Some(("span".into(), format!("call {}: {} has span {}..{}, expected {}..{}", n, show(k), start, end, a, b)));
            }
            if slice[..] != s.bytes[a as usize..b as usize] {
                return Some(("slice".into(), format!("call {}: slice {:?} differs from the text of its span", n, String::from_utf8_lossy(slice))));
            }
            if let Some(st) = st {
                st.add(if k == ERR { "error_tokens" } else if k == u.terms() as u32 { "end_tokens" } else { "tokens" }, 1);
                st.state(rng::mix(s.unit as u64 * 64 + k.min(63) as u64, chars.get(pos + len).map_or(0, |c| *c as u64)));
            }
            pos += len;
        }
        None
    }

    fn judge_cpp(&self, u: &LexUnit, s: &LSess, recs: &[(u64, Rec)], st: &mut Option<&mut Stats>) -> Option<(String, String)> {
        let limit = if s.mode == 3 { s.bytes.len() } else { s.broken_at.unwrap_or(usize::MAX).min(s.bytes.len()) };
        let broken = s.mode != 3 && s.broken_at.map_or(false, |b| b <= s.bytes.len());
        let from = s.skip.min(limit);
        let (chars, whole) = decode(&s.bytes[from..limit]);
        let dead_start = if s.skip > limit { broken } else { s.unopened };
        // somebody read past the end before the lexer starts: at the end, with the fail bit set
        let past_end = s.skip > limit && !dead_start;
        let clean = whole && !broken && !dead_start;
        let mut m = u.model.lock().unwrap();
        let eof = u.terms() as u32;
        let c18 = self.prop == "C18";
        let mut pos = 0;
        let mut dead = false;
        let mut ended = false;
        let mut n = 0;
        for (_, r) in recs {
            let Rec::Tok { kind, start, end, slice } = r else { continue };
            n += 1;
            if *kind == PANIC {
                return Some(("crash".into(), format!("call {}: {}", n, String::from_utf8_lossy(slice))));
            }
            let show = |k: u32| if k == ERR { "TK_ERR".to_string() } else if k == eof { "TK_EOF".into() } else if k == u32::MAX - 2 { "an undefined token".into() } else { u.show(k as usize) };
            // once the end was reached, a failure of the stream changes nothing
            let went_bad = !ended && (s.bad_after.map_or(false, |b| n > b) || dead_start);
            if dead {
                if *kind == eof {
                    return Some((
                        "early-end".into(),
                        format!("call {}: TK_EOF although the input broke off (character {} of {})", n, pos, chars.len()),
                    ));
                }
                continue;
            }
            let want = m.scan(&chars, pos);
            let (k, len) = match want {
                Scan::Tok(t, l) => (t as u32, l),
                Scan::Err(l) => (ERR, l),
                Scan::End => (if clean { eof } else { ERR }, 0),
            };
            if *kind == eof && (k != eof || went_bad) {
                return Some((
                    "early-end".into(),
                    format!(
                        "call {}: TK_EOF at character {} of {}{}",
                        n,
                        pos,
                        chars.len(),
                        if went_bad { ", on a failed stream" } else if !clean { ", before bytes that could not be read" } else { "" }
                    ),
                ));
            }
            if let Some(st) = st {
                st.add(if *kind == ERR { "error_tokens" } else if *kind == eof { "end_tokens" } else { "tokens" }, 1);
                st.state(rng::mix(s.unit as u64 * 64 + k.min(63) as u64, chars.get(pos + len).map_or(0, |c| *c as u64)));
            }
            let touches = pos + len == chars.len() && !clean || went_bad || past_end;
            if *kind == ERR && touches {
                dead = true;
                continue;
            }
            if c18 {
                // only the end of input is this property's business
                if *kind == ERR && k != ERR || *kind != ERR && *kind != k {
                    return None;
                }
            }
            if *kind != k {
                return Some((
                    "kind".into(),
                    format!("call {} at character {}: expected {} of {} characters, got {} ({}..{})", n, pos, show(k), len, show(*kind), start, end),
                ));
            }
            if k != ERR && k != eof && !c18 && (*start, *end) != (pos as u64, (pos + len) as u64) {
                return Some((
                    "position".into(),
                    format!("call {}: {} at {}..{}, expected {}..{}", n, show(k), start, end, pos, pos + len),
                ));
            }
            pos += len;
            // the scan may have looked ahead as far as the end
            ended |= pos == chars.len() && clean;
        }
        None
    }

    /// The tokens of a document (kind, start, end in bytes) up to its first lexical error.
    fn tokens(&self, u: &LexUnit, text: &str) -> (Vec<(usize, usize, usize)>, Option<usize>) {
        let chars: Vec<char> = text.chars().collect();
        let mut off: Vec<usize> = text.char_indices().map(|x| x.0).collect();
        off.push(text.len());
        let mut toks = vec![];
        let mut m = u.model.lock().unwrap();
        let mut pos = 0;
        loop {
            match m.scan(&chars, pos) {
                Scan::Tok(t, l) => {
                    if !u.skip[t] {
                        toks.push((t, off[pos], off[pos + l]));
                    }
                    pos += l;
                }
                Scan::Err(_) => return (toks, Some(off[pos])),
                Scan::End => return (toks, None),
            }
        }
    }

    /// A GLR parser follows every alternative separately, which is exponential work on some
    /// documents (and endless on cyclic grammars): those are not run.
    fn bounded(&self, u: &LexUnit, b: &[u8]) -> bool {
        let m = u.made.as_ref().unwrap();
        let lr = m.lr.as_ref().unwrap();
        if u.class != Class::Glr || lr.lr1 {
            return true;
        }
        let w: Vec<usize> = self.tokens(u, std::str::from_utf8(b).unwrap()).0.iter().map(|t| t.0).collect();
        lr.alternatives(&m.cfg, &w, crate::stream::GLR_WORK).is_some()
    }

    fn judge_pipe(&self, u: &LexUnit, s: &LSess, recs: &[(u64, Rec)], st: &mut Option<&mut Stats>) -> Option<(String, String)> {
        let text = std::str::from_utf8(&s.bytes).unwrap();
        let (toks, lex_err) = self.tokens(u, text);
        let m = u.made.as_ref().unwrap();
        let lr = m.lr.as_ref().unwrap();
        let w: Vec<usize> = toks.iter().map(|t| t.0).collect();
        let end = recs.iter().find_map(|r| if let Rec::End { kind, got, at, what } = &r.1 { Some((*kind, *got, *at, what.clone())) } else { None });
        let glr = u.class == Class::Glr && !lr.lr1;
        let (accepted, error_at, events): (bool, Option<usize>, Option<Vec<Ev>>) = if glr {
            if lr.alternatives(&m.cfg, &w, crate::stream::GLR_WORK).is_none() {
                return None;
            }
            let input: Vec<crate::cfg::Sym> = w.iter().map(|t| crate::cfg::Sym::T(*t)).collect();
            let c = crate::earley::chart(&m.cfg, &m.an, &input);
            if c.accepted {
                let mut k = crate::earley::Counter::new(&m.cfg, &w);
                if k.total() != 1 {
                    return None;
                }
                (true, None, Some(k.events()))
            } else {
                (false, Some(c.viable), None)
            }
        } else {
            let r = lr.run(&m.cfg, &w);
            (r.accepted, r.error_at, Some(r.events))
        };
        let Some((kind, got, at, what)) = end else {
            return Some(("crash".into(), "the pipeline did not report an outcome".into()));
        };
        if kind == 5 {
            return Some(("crash".into(), format!("panic: {}", what)));
        }
        // an error token is only met when the parser gets that far
        let hits_lex = lex_err.is_some() && error_at.map_or(true, |e| e >= w.len());
        let (ek, eg, epos) = if hits_lex {
            (2u32, 0u32, lex_err.unwrap() as u64)
        } else if accepted {
            (0, 0, 0)
        } else {
            let e = error_at.unwrap();
            let (t, p) = if e < w.len() { (w[e], toks[e].1) } else { (u.terms(), text.len()) };
            (1, t as u32, p as u64)
        };
        let words = |k: u32, g: u32, at: u64| match k {
            0 => "acceptance".to_string(),
            1 => format!("unexpected {}{}", if g == ERR { "tokens of different kinds".into() } else { u.show(g as usize) }, if at == u64::MAX { String::new() } else { format!(" at byte {}", at) }),
            2 => format!("a lexical error at byte {}", at),
            _ => format!("error {:?}", what),
        };
        let same = kind == ek && (kind == 0 || (kind == 1 && got == eg && (at == u64::MAX || at == epos)) || kind == 2 && at == epos);
        if !same {
            let class = if kind == 0 { "accepts" } else if ek == 0 { "rejects" } else { "verdict" };
            return Some((class.into(), format!("the text calls for {}, the pipeline reports {}", words(ek, eg, epos), words(kind, got, at))));
        }
        // the visitor saw the slices of the document, in order, each once
        let mut i = 0;
        let mut got_ev = vec![];
        for (_, r) in recs {
            if let Rec::Ev { ev, start, end, slice } = r {
                if let Ev::Shift(t, _) = ev {
                    match toks.get(i) {
                        Some((wt, a, b)) if *wt == *t && *a as u64 == *start && *b as u64 == *end && slice[..] == s.bytes[*a..*b] => {}
                        x => {
                            return Some((
                                "visitor".into(),
                                format!("shift {} saw {} {:?} ({}..{}), the document has {:?}", i, u.show(*t), String::from_utf8_lossy(slice), start, end, x.map(|x| (u.show(x.0), x.1, x.2))),
                            ))
                        }
                    }
                    got_ev.push(Ev::Shift(*t, i));
                    i += 1;
                } else {
                    got_ev.push(*ev);
                }
            }
        }
        if kind == 0 {
            if i != toks.len() {
                return Some(("visitor".into(), format!("accepted, but the visitor saw {} of {} tokens", i, toks.len())));
            }
            if let Some(e) = events {
                if e != got_ev {
                    return Some(("visitor".into(), "the reductions are not the derivation of the document".into()));
                }
            }
        } else if let Err(e) = crate::earley::replay(&m.cfg, &w, &got_ev) {
            return Some(("visitor".into(), e));
        }
        if let Some(st) = st {
            st.add(match kind { 0 => "accepted", 1 => "rejected", _ => "lexical_errors" }, 1);
            st.add("tokens", w.len() as u64);
            st.state(rng::mix(s.unit as u64, rng::hash_str(&format!("{:?}", w))));
        }
        None
    }
}

pub fn printable(b: &[u8]) -> String {
    let s: String = b.iter().take(300).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 300 {
        format!("{}... ({} bytes)", s, b.len())
    } else {
        s
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

impl Scenario for LexScenario {
    type Plan = LPlan;
    fn draw(&self, rng: &mut Rng) -> LPlan {
        let mut p = LPlan::default();
        let n = match rng.below(100) {
            0..=79 => 1,
            80..=94 => 2,
            _ => 3,
        };
        let first = *rng.pick(&self.live);
        for k in 0..n {
            let unit = if k == 0 || rng.pct(50) { first } else { *rng.pick(&self.live) };
            let u = &self.units[unit];
            let mut b = self.text_for(u, rng).into_bytes();
            let mut s = LSess { unit, ..LSess::default() };
            if rng.pct(if self.pipe { 60 } else { 50 }) {
                let other = self.text_for(u, rng).into_bytes();
                let k = if rng.pct(70) { 1 } else { rng.range(2, 4) };
                s.faults = damage(rng, &mut b, &other, k);
            }
            if u.lang == "rust" {
                // a text is UTF-8: the reader replaced what was not
                if std::str::from_utf8(&b).is_err() {
                    s.faults.push("replaced-invalid-utf8".into());
                    b = String::from_utf8_lossy(&b).into_owned().into_bytes();
                }
            } else {
                s.mode = rng.below(4) as u64;
                let k = rng.range(1, 4);
                s.pieces = (0..k).map(|_| *rng.pick(&[1usize, 1, 2, 3, 4, 5, 7, 16, 64, 1000, 4096])).collect();
                if s.mode < 3 {
                    s.faults.push("piecemeal-delivery".into());
                }
                if rng.pct(8) {
                    s.skip = rng.below(b.len().min(20) + 2);
                }
                let c18 = self.prop == "C18";
                if rng.pct(if c18 { 45 } else { 8 }) && s.mode < 3 {
                    let at = if rng.pct(20) { b.len() } else { rng.below(b.len() + 1) };
                    s.broken_at = Some(at);
                    s.faults.push("stream-failure".into());
                }
                if rng.pct(if c18 { 6 } else { 1 }) {
                    s.unopened = true;
                    s.faults.push("unopened-stream".into());
                }
                if rng.pct(if c18 { 12 } else { 2 }) {
                    s.bad_after = Some(rng.below(6));
                    s.faults.push("stream-marked-bad".into());
                }
                if c18 && rng.pct(30) && !b.is_empty() {
                    let k = rng.below(b.len());
                    b.truncate(k);
                    s.faults.push("truncated".into());
                }
            }
            if self.pipe && !self.bounded(u, &b) {
                b.clear();
                s.faults.clear();
            }
            s.bytes = b;
            p.sessions.push(s);
        }
        if n > 1 {
            p.sched_seed = Some(rng.next());
        }
        p
    }
    fn run(&self, p: &LPlan, mut st: Option<&mut Stats>) -> Out {
        let (hist, script, steps) = self.execute(p);
        let mut viols = vec![];
        for (i, s) in p.sessions.iter().enumerate() {
            if let Some(v) = self.judge(s, &hist[i], &mut st) {
                viols.push(v);
                break;
            }
        }
        if let Some(st) = &mut st {
            st.add("steps", steps);
            st.add("sessions", p.sessions.len() as u64);
            if p.sessions.len() > 1 {
                st.add("runs_with_concurrent_sessions", 1);
            }
            let mut h = 3;
            let mut trivial = p.sessions.len() == 1;
            for s in &p.sessions {
                for f in &s.faults {
                    st.add(&format!("fault:{}", f), 1);
                }
                trivial &= s.faults.is_empty() && s.bytes.len() < 2;
                st.add("bytes", s.bytes.len() as u64);
                h = rng::mix(h, rng::mix(s.unit as u64, rng::hash_str(&format!("{:?}{:?}{}{:?}{}", s.bytes, s.pieces, s.mode, s.broken_at, s.skip))));
            }
            for x in &script {
                h = rng::mix(h, *x as u64 + 1);
            }
            if !trivial {
                st.plan(h);
            }
        }
        Out { viols, digest: rng::hash_str(&format!("{:?}{:?}", hist, script)) }
    }
    fn size(&self, p: &LPlan) -> usize {
        p.script.len()
            + p.sessions
                .iter()
                .map(|s| 10 + 3 * s.bytes.len() + s.pieces.len() + s.skip + s.unopened as usize + s.bad_after.map_or(0, |b| b + 1) + s.broken_at.map_or(0, |_| 2) + (3 - s.mode as usize))
                .sum::<usize>()
    }
    fn shrink(&self, p: &LPlan) -> Vec<LPlan> {
        let mut o = vec![];
        for keep in [0, p.script.len() / 2] {
            if p.script.len() > keep {
                let mut q = p.clone();
                q.script.truncate(keep);
                q.sched_seed = None;
                o.push(q);
            }
        }
        if p.sessions.len() > 1 {
            for i in 0..p.sessions.len() {
                let mut q = p.clone();
                q.sessions.remove(i);
                q.script.clear();
                q.sched_seed = None;
                o.push(q);
            }
        }
        for i in 0..p.sessions.len() {
            let s = &p.sessions[i];
            let mut edit = |f: &dyn Fn(&mut LSess)| {
                let mut q = p.clone();
                f(&mut q.sessions[i]);
                o.push(q);
            };
            edit(&|s| s.bad_after = None);
            edit(&|s| s.unopened = false);
            edit(&|s| s.skip = 0);
            edit(&|s| s.broken_at = None);
            edit(&|s| {
                if s.broken_at.is_none() {
                    s.mode = 3
                }
            });
            edit(&|s| s.pieces = vec![1]);
            let n = s.bytes.len();
            let rust = self.units[s.unit].lang == "rust";
            let mut chunk = n.next_power_of_two();
            let mut cuts = 0;
            while chunk > 0 && cuts < 400 {
                let mut at = 0;
                while at < n && cuts < 400 {
                    let e = (at + chunk).min(n);
                    let mut q = p.clone();
                    q.sessions[i].bytes.drain(at..e);
                    if let Some(b) = &mut q.sessions[i].broken_at {
                        if *b >= e {
                            *b -= e - at;
                        } else if *b > at {
                            *b = at;
                        }
                    }
                    if !rust || std::str::from_utf8(&q.sessions[i].bytes).is_ok() {
                        o.push(q);
                        cuts += 1;
                    }
                    at += chunk;
                }
                chunk /= 2;
            }
        }
        o
    }
    fn settle(&self, p: &LPlan) -> LPlan {
        if p.sched_seed.is_none() {
            return p.clone();
        }
        // executed in this process: the run is known not to crash or hang
        let (_, script, _) = self.execute(p);
        LPlan { script, sched_seed: None, ..p.clone() }
    }
    fn replay_json(&self, p: &LPlan) -> J {
        let mut used: Vec<usize> = p.sessions.iter().map(|s| s.unit).collect();
        used.sort();
        used.dedup();
        let ss: Vec<J> = p
            .sessions
            .iter()
            .map(|s| {
                crate::obj! {
                    "unit" => used.iter().position(|x| *x == s.unit).unwrap(),
                    "bytes_hex" => hex(&s.bytes), "shown" => printable(&s.bytes),
                    "faults" => s.faults.iter().map(|f| J::from(f.as_str())).collect::<Vec<J>>(),
                    "mode" => s.mode, "pieces" => s.pieces.iter().map(|f| J::from(*f)).collect::<Vec<J>>(),
                    "broken_at" => s.broken_at.map_or(J::Null, J::from), "skip" => s.skip, "unopened" => s.unopened,
                    "bad_after" => s.bad_after.map_or(J::Null, J::from)
                }
            })
            .collect();
        crate::obj! {
            "kind" => if self.pipe { "pipeline" } else { "lexer" },
            "units" => used.iter().map(|i| self.unit_json(*i)).collect::<Vec<J>>(),
            "sessions" => ss,
            "schedule" => p.script.iter().map(|x| J::from(*x)).collect::<Vec<J>>()
        }
    }
    fn history(&self, p: &LPlan) -> Vec<J> {
        let (hist, _, _) = self.execute(p);
        let mut o = vec![];
        for (i, s) in p.sessions.iter().enumerate() {
            let u = &self.units[s.unit];
            for (q, r) in &hist[i] {
                let t = match r {
                    Rec::Tok { kind, start, end, slice } => format!(
                        "next -> {} {}..{} {}",
                        match *kind {
                            ERR => "error".into(),
                            PANIC => "panic".into(),
                            k => u.show(k as usize),
                        },
                        start,
                        end,
                        printable(slice)
                    ),
                    Rec::Fill(n) => format!("refill -> {}", n),
                    Rec::Ev { ev, slice, .. } => format!("visitor {:?} {}", ev, printable(slice)),
                    Rec::End { kind, got, at, what } => format!("outcome {} {} {} {}", kind, got, at, what),
                };
                o.push((*q, J::from(format!("[{}] session {}: {}", q, i, t))));
            }
        }
        o.sort_by_key(|x| x.0);
        o.truncate(300);
        o.into_iter().map(|x| x.1).collect()
    }
    fn sample(&self, p: &LPlan) -> J {
        let ss: Vec<J> = p
            .sessions
            .iter()
            .map(|s| {
                crate::obj! {
                    "unit" => self.units[s.unit].name.as_str(), "bytes" => printable(&s.bytes),
                    "faults" => s.faults.iter().map(|f| J::from(f.as_str())).collect::<Vec<J>>(),
                    "pieces" => s.pieces.iter().map(|f| J::from(*f)).collect::<Vec<J>>(), "mode" => s.mode
                }
            })
            .collect();
        crate::obj! {"sessions" => ss, "grammar" => self.units[p.sessions[0].unit].text.as_str()}
    }
}

impl LexScenario {
    fn unit_json(&self, i: usize) -> J {
        let u = &self.units[i];
        crate::obj! {"name" => u.name.as_str(), "grammar" => u.text.as_str(), "language" => u.lang, "algorithm" => u.class.flag()}
    }
}

fn draw_units(prop: &str, seed: u64, thorough: bool) -> Vec<LexUnit> {
    let base = rng::mix(seed, rng::hash_str(prop));
    let mut v = vec![];
    let count = |q: usize, t: usize| if thorough { t } else { q };
    match prop {
        "C16" => {
            v.extend(large_sets("rust"));
            for k in 0..count(340, 1600) {
                v.push(token_set(&mut Rng::new(rng::mix(base, k as u64)), "rust", k));
            }
        }
        "C17" | "C18" => {
            v.extend(large_sets("cpp"));
            for k in 0..count(180, 800) {
                v.push(token_set(&mut Rng::new(rng::mix(base, k as u64)), "cpp", k));
            }
        }
        _ => {
            for (c, q, t) in [(Class::Lr0, 14, 120), (Class::Lalr, 50, 450), (Class::Lr1, 36, 300), (Class::Glr, 40, 350)] {
                for k in 0..count(q, t) {
                    v.push(pipeline(&mut Rng::new(rng::mix(base, rng::mix(rng::hash_str(c.flag()), k as u64))), c, k));
                }
            }
        }
    }
    v
}

fn scenario(prop: &str, env: &Env, units: Vec<LexUnit>, pipe: bool) -> (LexScenario, Vec<Refused>) {
    let cli = env.cli();
    let (sos, refused) = make(env, &cli, &units, pipe);
    let runs: Vec<Option<LexRun>> = sos.iter().map(|s| s.as_ref().map(|p| unsafe { std::mem::transmute::<_, LexRun>(load(p, "unit_run")) })).collect();
    let live = (0..units.len()).filter(|i| runs[*i].is_some()).collect();
    (LexScenario { prop: prop.into(), units, live, runs, pipe }, refused)
}

pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new(prop);
    let units = draw_units(prop, seed, thorough);
    let n = units.len();
    let (s, refused) = scenario(prop, &env, units, prop == "C20");
    let mut rep = Report::new(prop, seed, thorough);
    if let Some(r) = refused.first() {
        let j = crate::obj! {
            "property" => prop, "kind" => "lexer-unit", "seed" => seed, "class" => r.stage,
            "message" => format!("{}: {}", if r.stage == "generation" { "valid token rules were not generated" } else { "the generated code does not compile" }, r.msg.chars().take(1500).collect::<String>()),
            "pipe" => s.pipe, "units" => vec![s.unit_json(r.unit)]
        };
        rep.violation(&j);
    }
    if rep.ok() {
        let runs = match prop {
            "C16" => 400_000,
            "C20" => 250_000,
            _ => 300_000,
        };
        let what = Search { runs: if thorough { runs * 40 } else { runs }, cap_s: if thorough { 500 } else { 100 }, seed, prop: prop.into() };
        explore(&s, &env, &what, &mut rep);
    } else {
        rep.cover("evaluations", 0u64);
    }
    rep.cover("token_sets", n);
    rep.cover(
        "rule",
        "one evaluation = one simulated execution: 1-3 generated lexers (token set drawn by seed, generated by the real lapex CLI, compiled) over documents drawn from their tokens and damaged by storage and transit faults, with scheduled calls and, for C++, seeded stream delivery; distinct = different (lexers, bytes, delivery, schedule); non-trivial = a fault, several sessions, or at least two bytes",
    );
    rep.cover("simulated_time", "logical: one tick per call of next(), stream refill or visitor call, see counts.steps");
    rep.cover("real_code", "lapex front end, automaton construction and code generation through lapex-cli; the generated lexer (and parser), compiled by rustc/g++; libstdc++ streams");
    rep.cover("stubs", "document source, std::streambuf, visitor (simulator)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let prop = j.get("property").str().to_string();
    let env = Env::new("replay");
    let pipe = j.get("kind").str() == "pipeline" || j.get("pipe").bool();
    let units: Vec<LexUnit> = j
        .get("units")
        .arr()
        .iter()
        .map(|u| {
            let lang = if u.get("language").str() == "rust" { "rust" } else { "cpp" };
            let class = Class::parse(u.get("algorithm").str()).unwrap_or_else(|| die("replay: algorithm"));
            LexUnit::new(u.get("name").str().into(), lang, class, u.get("grammar").str().into(), pipe).unwrap_or_else(|e| die(&e))
        })
        .collect();
    let (s, refused) = scenario(&prop, &env, units, pipe);
    let r = if let Some(r) = refused.first() {
        Some((r.stage.to_string(), r.msg.clone()))
    } else if j.get("kind").str() == "lexer-unit" {
        None
    } else {
        let mut p = LPlan::default();
        for x in j.get("sessions").arr() {
            p.sessions.push(LSess {
                unit: x.get("unit").u(),
                bytes: unhex(x.get("bytes_hex").str()),
                faults: vec![],
                mode: x.get("mode").u() as u64,
                pieces: x.get("pieces").arr().iter().map(|p| p.u()).collect(),
                broken_at: (!x.get("broken_at").is_null()).then(|| x.get("broken_at").u()),
                skip: x.get("skip").u(),
                unopened: x.get("unopened").bool(),
                bad_after: (!x.get("bad_after").is_null()).then(|| x.get("bad_after").u()),
            });
        }
        p.script = j.get("schedule").arr().iter().map(|x| x.int() as u32).collect();
        probe(&s, &env, &p)
    };
    env.clean();
    r
}
