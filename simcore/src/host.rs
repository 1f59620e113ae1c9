//! Runs sessions of generated parsers under a scheduler the simulator owns, plays the token
//! source and the visitor, injects their failures and records the history.
use crate::lr::Ev;
use crate::plan::*;
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex};

/// The simulator gave up on a parse that runs away.
const RUNAWAY: u64 = u64::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Accept,
    Unexpected { got: usize, data: Option<u64>, expected: Vec<usize> },
    /// the error value of the source came back
    SourceError(u64),
    /// the failure with this payload reached the caller
    Unwound(u64),
    /// the parser's own failure without details (C++ std::runtime_error)
    Error(String),
    Panic(String),
    Runaway,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Pull(usize),
    Ev(Ev),
    /// a failure with this number was injected here
    Inject(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct EpHist {
    pub recs: Vec<(u64, Rec)>,
    pub outcome: Outcome,
    pub pulls_after_end: usize,
}

impl EpHist {
    pub fn events(&self) -> Vec<Ev> {
        self.recs.iter().filter_map(|r| if let Rec::Ev(e) = &r.1 { Some(*e) } else { None }).collect()
    }
    pub fn pulls(&self) -> usize {
        self.recs.iter().filter(|r| matches!(r.1, Rec::Pull(_))).count()
    }
    /// Same behaviour, regardless of when it happened.
    pub fn same(&self, o: &EpHist) -> bool {
        self.outcome == o.outcome
            && self.recs.len() == o.recs.len()
            && self.recs.iter().zip(&o.recs).all(|(a, b)| a.1 == b.1)
    }
}

/// Entry point of a compiled unit: one generated parser with its glue.
pub type RunFn = unsafe extern "C" fn(&Api, &Session);

struct St {
    current: usize,
    alive: Vec<bool>,
    seq: u64,
    script: Vec<u32>,
    at: usize,
    rng: Option<Rng>,
    pub switches: u64,
}

pub struct Sim {
    st: Mutex<St>,
    cv: Condvar,
}

impl Sim {
    pub fn new(slots: usize, seed: Option<u64>, script: &[u32]) -> Sim {
        Sim {
            st: Mutex::new(St {
                current: 0,
                alive: vec![true; slots],
                seq: 0,
                script: if seed.is_some() { vec![] } else { script.to_vec() },
                at: 0,
                rng: seed.map(Rng::new),
                switches: 0,
            }),
            cv: Condvar::new(),
        }
    }
    /// Chooses who goes first.
    pub fn start(&self) {
        let mut st = self.st.lock().unwrap();
        let f = Sim::choose(&mut st, 0);
        st.current = f;
    }
    /// The schedule taken and the number of steps.
    pub fn finish(&self) -> (Vec<u32>, u64) {
        let st = self.st.lock().unwrap();
        (st.script.clone(), st.seq)
    }
    fn choose(st: &mut St, me: usize) -> usize {
        let v: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i]).collect();
        if v.is_empty() {
            return me;
        }
        if v.len() == 1 {
            return v[0];
        }
        let k = if let Some(r) = &mut st.rng {
            // stay with the same session half of the time
            let k = if st.alive[me] && r.pct(50) {
                v.iter().position(|x| *x == me).unwrap()
            } else {
                r.below(v.len())
            };
            st.script.push(k as u32);
            k
        } else {
            let k = st.script.get(st.at).map(|x| *x as usize % v.len());
            st.at += 1;
            k.unwrap_or_else(|| v.iter().position(|x| *x == me).unwrap_or(0))
        };
        v[k]
    }
    pub fn step(&self, slot: usize) -> u64 {
        let mut st = self.st.lock().unwrap();
        st.seq += 1;
        let n = Sim::choose(&mut st, slot);
        if n != slot {
            st.switches += 1;
            st.current = n;
            self.cv.notify_all();
            while st.current != slot {
                st = self.cv.wait(st).unwrap();
            }
        }
        st.seq
    }
    pub fn wait_turn(&self, slot: usize) {
        let mut st = self.st.lock().unwrap();
        while st.current != slot {
            st = self.cv.wait(st).unwrap();
        }
    }
    pub fn done(&self, slot: usize) {
        let mut st = self.st.lock().unwrap();
        st.alive[slot] = false;
        let n = Sim::choose(&mut st, slot);
        st.current = n;
        self.cv.notify_all();
    }
}

pub struct Session {
    sim: Arc<Sim>,
    slot: usize,
    id: usize,
    plan: Arc<Plan>,
    terms: usize,
    run: RunFn,
    units: Arc<Vec<(RunFn, usize)>>,
    ep: Cell<usize>,
    pos: Cell<usize>,
    events: Cell<usize>,
    steps: Cell<usize>,
    after_end: Cell<usize>,
    dead: Cell<bool>,
    recs: RefCell<Vec<(u64, Rec)>>,
    pub hist: RefCell<Vec<EpHist>>,
    nested_hist: Arc<Mutex<Vec<(usize, Vec<EpHist>)>>>,
}

/// What pull or an event callback asks its caller to do.
#[derive(Debug)]
pub enum Order {
    Go,
    /// fail with this payload
    Unwind(u64),
    /// return an error with this payload
    Err(u64),
}

impl Session {
    fn episode(&self) -> &Episode {
        &self.plan.sessions[self.id].episodes[self.ep.get() - 1]
    }
    /// Starts the next episode.
    pub fn begin(&self) -> bool {
        if self.dead.get() || self.ep.get() >= self.plan.sessions[self.id].episodes.len() {
            return false;
        }
        self.ep.set(self.ep.get() + 1);
        self.pos.set(0);
        self.events.set(0);
        self.after_end.set(0);
        self.recs.borrow_mut().clear();
        true
    }
    pub fn end(&self, o: Outcome) {
        let o = match o {
            Outcome::Unwound(RUNAWAY) => Outcome::Runaway,
            o => o,
        };
        if o == Outcome::Runaway {
            self.dead.set(true);
        }
        self.hist.borrow_mut().push(EpHist {
            recs: self.recs.borrow().clone(),
            outcome: o,
            pulls_after_end: self.after_end.get(),
        });
    }
    fn tick(&self) -> u64 {
        let s = self.sim.step(self.slot);
        let k = self.steps.get();
        self.steps.set(k + 1);
        for (o, at, i) in &self.plan.nested {
            if *o == self.id && *at == k {
                let inner = Session::new(self.sim.clone(), self.slot, *i, self.plan.clone(), self.units.clone(), self.nested_hist.clone());
                unsafe { (inner.run)(&API, &inner) };
                let h = inner.hist.borrow().clone();
                self.nested_hist.lock().unwrap().push((*i, h));
            }
        }
        s
    }
    fn note(&self, s: u64, r: Rec) {
        self.recs.borrow_mut().push((s, r));
    }
    fn fail(&self, source: bool, index: usize, s: u64) -> Option<Order> {
        if let Some(i) = &self.episode().inject {
            if i.source == source && i.index == index {
                let id = 1000 * self.id as u64 + self.ep.get() as u64;
                self.note(s, Rec::Inject(id));
                return Some(if i.as_err { Order::Err(id) } else { Order::Unwind(id) });
            }
        }
        None
    }
    /// The token source: terminal index (number of terminals = end marker) and token data.
    pub fn pull(&self) -> (usize, u64, Order) {
        let s = self.tick();
        let p = self.pos.get();
        let len = self.episode().tokens.len();
        self.note(s, Rec::Pull(p));
        if p > len {
            self.after_end.set(self.after_end.get() + 1);
        }
        if p > len + 3 {
            return (self.terms, p as u64, Order::Unwind(RUNAWAY));
        }
        self.pos.set(p + 1);
        if let Some(o) = self.fail(true, p, s) {
            return (self.terms, p as u64, o);
        }
        (self.episode().tokens.get(p).copied().unwrap_or(self.terms), p as u64, Order::Go)
    }
    pub fn event(&self, e: Ev) -> Order {
        let s = self.tick();
        let n = self.events.get();
        self.events.set(n + 1);
        if n > 200 * (self.episode().tokens.len() + 40) {
            return Order::Unwind(RUNAWAY);
        }
        if let Some(o) = self.fail(false, n, s) {
            return o;
        }
        self.note(s, Rec::Ev(e));
        Order::Go
    }
    fn new(
        sim: Arc<Sim>,
        slot: usize,
        id: usize,
        plan: Arc<Plan>,
        units: Arc<Vec<(RunFn, usize)>>,
        nested_hist: Arc<Mutex<Vec<(usize, Vec<EpHist>)>>>,
    ) -> Session {
        let (run, terms) = units[plan.sessions[id].unit];
        Session {
            sim,
            slot,
            id,
            plan,
            terms,
            run,
            units,
            ep: Cell::new(0),
            pos: Cell::new(0),
            events: Cell::new(0),
            steps: Cell::new(0),
            after_end: Cell::new(0),
            dead: Cell::new(false),
            recs: RefCell::new(vec![]),
            hist: RefCell::new(vec![]),
            nested_hist,
        }
    }
}

pub struct RunResult {
    /// per session; None when the session never started (nested at a step that never came)
    pub hist: Vec<Option<Vec<EpHist>>>,
    /// schedule that was taken
    pub script: Vec<u32>,
    pub steps: u64,
    pub switches: u64,
}

/// Executes a plan.
pub fn execute(plan: &Plan, units: &Arc<Vec<(RunFn, usize)>>) -> RunResult {
    let n = plan.sessions.len();
    let plan = Arc::new(plan.clone());
    let top: Vec<usize> = (0..n).filter(|i| !plan.nested.iter().any(|x| x.2 == *i)).collect();
    let sim = Arc::new(Sim::new(top.len(), plan.sched_seed, &plan.script));
    let nested = Arc::new(Mutex::new(vec![]));
    let mut hist: Vec<Option<Vec<EpHist>>> = vec![None; n];
    if top.len() == 1 {
        let s = Session::new(sim.clone(), 0, top[0], plan.clone(), units.clone(), nested.clone());
        unsafe { (s.run)(&API, &s) };
        hist[top[0]] = Some(s.hist.into_inner());
    } else {
        sim.start();
        let mut hs = vec![];
        for (slot, id) in top.iter().enumerate() {
            let (sim, plan, units, nested, id) = (sim.clone(), plan.clone(), units.clone(), nested.clone(), *id);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        sim.wait_turn(slot);
                        let s = Session::new(sim.clone(), slot, id, plan, units, nested);
                        unsafe { (s.run)(&API, &s) };
                        let h = s.hist.take();
                        sim.done(slot);
                        (id, h)
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            let (id, x) = h.join().unwrap();
            hist[id] = Some(x);
        }
    }
    for (id, h) in nested.lock().unwrap().drain(..) {
        hist[id] = Some(h);
    }
    let st = sim.st.lock().unwrap();
    RunResult { hist, script: if plan.sched_seed.is_some() { st.script.clone() } else { plan.script.clone() }, steps: st.seq, switches: st.switches }
}

// ---------------------------------------------------------------------------------------------
// C interface for the glue of generated parsers. None of these unwinds.

#[repr(C)]
pub struct Api {
    pub begin: extern "C" fn(&Session) -> i32,
    pub pull: extern "C" fn(&Session, &mut u32, &mut u64, &mut u64) -> i32,
    pub event: extern "C" fn(&Session, u32, u32, u64, &mut u64) -> i32,
    pub end: unsafe extern "C" fn(&Session, &End),
}

pub static API: Api = Api { begin: c_begin, pull: c_pull, event: c_event, end: c_end };

#[repr(C)]
pub struct End {
    /// 0 accept, 1 unexpected token, 2 error value of the source, 3 injected failure, 4 error
    /// without details, 5 anything else
    pub kind: u32,
    pub got: u32,
    pub has_data: u32,
    pub count: u32,
    pub payload: u64,
    pub expected: *const u32,
    pub what: *const u8,
    pub what_len: usize,
}

extern "C" fn c_begin(s: &Session) -> i32 {
    s.begin() as i32
}
/// 0: go on, 1: fail by unwinding with *fail, 2: return an error with *fail
extern "C" fn c_pull(s: &Session, tok: &mut u32, data: &mut u64, fail: &mut u64) -> i32 {
    let (t, d, o) = s.pull();
    *tok = t as u32;
    *data = d;
    order(o, fail)
}
fn order(o: Order, fail: &mut u64) -> i32 {
    match o {
        Order::Go => 0,
        Order::Unwind(x) => {
            *fail = x;
            1
        }
        Order::Err(x) => {
            *fail = x;
            2
        }
    }
}
/// kind: 0 shift, 1 reduce, 2 enter, 3 exit
extern "C" fn c_event(s: &Session, kind: u32, a: u32, b: u64, fail: &mut u64) -> i32 {
    let a = a as usize;
    order(
        s.event(match kind {
            0 => Ev::Shift(a, b as usize),
            1 => Ev::Reduce(a),
            2 => Ev::Enter(a),
            _ => Ev::Exit(a),
        }),
        fail,
    )
}
unsafe extern "C" fn c_end(s: &Session, e: &End) {
    let what = || {
        let b = if e.what.is_null() { &[][..] } else { std::slice::from_raw_parts(e.what, e.what_len) };
        String::from_utf8_lossy(b).into_owned()
    };
    s.end(match e.kind {
        0 => Outcome::Accept,
        1 => Outcome::Unexpected {
            got: e.got as usize,
            data: (e.has_data != 0).then_some(e.payload),
            expected: if e.count == 0 {
                vec![]
            } else {
                std::slice::from_raw_parts(e.expected, e.count as usize).iter().map(|x| *x as usize).collect()
            },
        },
        2 => Outcome::SourceError(e.payload),
        3 => Outcome::Unwound(e.payload),
        4 => Outcome::Error(what()),
        _ => Outcome::Panic(what()),
    })
}
