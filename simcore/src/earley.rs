//! Recognition, viable prefixes, derivation counting and replay for arbitrary grammars.
use crate::analysis::{Analysis, TSet};
use crate::cfg::{Cfg, Sym};
use crate::lr::Ev;
use std::collections::{BTreeSet, HashMap, HashSet};

type Item = (usize, usize, usize); // rule, dot, origin

/// Earley chart over a mixed string of terminals and non-terminals.
pub struct Chart {
    sets: Vec<Vec<Item>>,
    /// number of symbols that form a viable prefix (sets is one longer)
    pub viable: usize,
    pub accepted: bool,
}

pub fn chart(cfg: &Cfg, a: &Analysis, input: &[Sym]) -> Chart {
    let mut sets: Vec<Vec<Item>> = vec![];
    let mut seen: Vec<HashSet<Item>> = vec![];
    let mut cur: Vec<Item> = cfg.by_nt[cfg.start].iter().map(|r| (*r, 0, 0)).collect();
    let mut viable = 0;
    for k in 0..=input.len() {
        let mut set: Vec<Item> = vec![];
        let mut in_set: HashSet<Item> = HashSet::new();
        for it in cur.drain(..) {
            if in_set.insert(it) {
                set.push(it);
            }
        }
        let mut i = 0;
        while i < set.len() {
            let (r, d, o) = set[i];
            i += 1;
            let mut add = |it: Item, set: &mut Vec<Item>| {
                if in_set.insert(it) {
                    set.push(it);
                }
            };
            match cfg.rules[r].rhs.get(d) {
                Some(Sym::N(x)) => {
                    for q in &cfg.by_nt[*x] {
                        add((*q, 0, k), &mut set);
                    }
                    if a.nullable[*x] {
                        add((r, d + 1, o), &mut set);
                    }
                }
                Some(Sym::T(_)) => {}
                None => {
                    let lhs = cfg.rules[r].lhs;
                    let parents: Vec<Item> = if o == k { set.clone() } else { sets[o].clone() };
                    for (pr, pd, po) in parents {
                        if cfg.rules[pr].rhs.get(pd) == Some(&Sym::N(lhs)) {
                            add((pr, pd + 1, po), &mut set);
                        }
                    }
                }
            }
        }
        sets.push(set);
        seen.push(in_set);
        if k < input.len() {
            for (r, d, o) in &sets[k] {
                if cfg.rules[*r].rhs.get(*d) == Some(&input[k]) {
                    cur.push((*r, d + 1, *o));
                }
            }
            if cur.is_empty() {
                break;
            }
            viable = k + 1;
        }
    }
    let accepted = viable == input.len()
        && (sets[input.len()]
            .iter()
            .any(|(r, d, o)| cfg.rules[*r].lhs == cfg.start && *d == cfg.rules[*r].rhs.len() && *o == 0)
            || input == [Sym::N(cfg.start)]);
    Chart { sets, viable, accepted }
}

impl Chart {
    /// terminals (and the end marker) that can come after the first `k` symbols
    pub fn expected(&self, cfg: &Cfg, k: usize) -> TSet {
        let mut o = TSet::new();
        for (r, d, org) in &self.sets[k] {
            match cfg.rules[*r].rhs.get(*d) {
                Some(Sym::T(t)) => {
                    o.insert(*t);
                }
                None if cfg.rules[*r].lhs == cfg.start && *org == 0 => {
                    o.insert(cfg.tokens.len());
                }
                _ => {}
            }
        }
        o
    }
}

pub fn terms(v: &[usize]) -> Vec<Sym> {
    v.iter().map(|x| Sym::T(*x)).collect()
}

/// Counts derivations of a terminal string, saturating at `cap`. The grammar must be acyclic.
pub struct Counter<'a> {
    cfg: &'a Cfg,
    input: &'a [usize],
    memo: HashMap<(usize, usize, usize, usize), u64>,
    min_len: Vec<usize>,
}

impl<'a> Counter<'a> {
    pub fn new(cfg: &'a Cfg, input: &'a [usize]) -> Self {
        Counter { cfg, input, memo: HashMap::new(), min_len: min_lengths(cfg) }
    }
    fn min_of(&self, s: &[Sym]) -> usize {
        s.iter().fold(0usize, |a, x| {
            a.saturating_add(match x {
                Sym::T(_) => 1,
                Sym::N(n) => self.min_len[*n],
            })
        })
    }
    pub fn total(&mut self) -> u64 {
        self.nt(self.cfg.start, 0, self.input.len())
    }
    fn nt(&mut self, n: usize, i: usize, j: usize) -> u64 {
        let mut t = 0u64;
        for r in self.cfg.by_nt[n].clone() {
            t = t.saturating_add(self.rest(r, 0, i, j));
        }
        t.min(1000)
    }
    fn rest(&mut self, r: usize, d: usize, i: usize, j: usize) -> u64 {
        let body = &self.cfg.rules[r].rhs;
        if d == body.len() {
            return (i == j) as u64;
        }
        if self.min_of(&body[d..]) > j - i {
            return 0;
        }
        if let Some(x) = self.memo.get(&(r, d, i, j)) {
            return *x;
        }
        let v = match body[d] {
            Sym::T(t) => {
                if i < j && self.input[i] == t {
                    self.rest(r, d + 1, i + 1, j)
                } else {
                    0
                }
            }
            Sym::N(n) => {
                let mut t = 0u64;
                // a piece shorter than its symbol's shortest string would only recurse without end
                let from = i.saturating_add(self.min_len[n]);
                for k in from..=j {
                    let b = self.rest(r, d + 1, k, j);
                    if b > 0 {
                        let a = self.nt(n, i, k);
                        t = t.saturating_add(a.saturating_mul(b));
                    }
                }
                t.min(1000)
            }
        };
        self.memo.insert((r, d, i, j), v);
        v
    }
    /// Events of the only derivation (call when `total()` is 1).
    pub fn events(&mut self) -> Vec<Ev> {
        let mut o = vec![];
        self.walk(self.cfg.start, 0, self.input.len(), &mut o);
        o
    }
    fn walk(&mut self, n: usize, i: usize, j: usize, o: &mut Vec<Ev>) {
        for r in self.cfg.by_nt[n].clone() {
            if self.rest(r, 0, i, j) > 0 {
                let body = self.cfg.rules[r].rhs.clone();
                let mut p = i;
                for (d, s) in body.iter().enumerate() {
                    match s {
                        Sym::T(t) => {
                            o.push(Ev::Shift(*t, p));
                            p += 1;
                        }
                        Sym::N(x) => {
                            let mut found = None;
                            for k in p + self.min_len[*x]..=j {
                                if self.rest(r, d + 1, k, j) > 0 && self.nt(*x, p, k) > 0 {
                                    found = Some(k);
                                    break;
                                }
                            }
                            let k = found.unwrap();
                            self.walk(*x, p, k, o);
                            p = k;
                        }
                    }
                }
                o.push(Ev::Reduce(r));
                return;
            }
        }
        unreachable!()
    }
}

pub fn min_lengths(cfg: &Cfg) -> Vec<usize> {
    let mut m = vec![usize::MAX / 4; cfg.nts.len()];
    let mut changed = true;
    while changed {
        changed = false;
        for r in &cfg.rules {
            let l = r.rhs.iter().fold(0usize, |a, s| {
                a.saturating_add(match s {
                    Sym::T(_) => 1,
                    Sym::N(n) => m[*n],
                })
            });
            if l < m[r.lhs] {
                m[r.lhs] = l;
                changed = true;
            }
        }
    }
    m
}

/// Replays events on a symbol stack; Err describes the first event that is not a step of a
/// bottom-up derivation of the stream.
pub fn replay(cfg: &Cfg, input: &[usize], ev: &[Ev]) -> Result<Vec<Sym>, String> {
    let mut st: Vec<Sym> = vec![];
    let mut pos = 0;
    for (i, e) in ev.iter().enumerate() {
        match e {
            Ev::Shift(t, p) => {
                if *p != pos || input.get(pos) != Some(t) {
                    return Err(format!(
                        "event {}: shift of token {} (data {}) but the next token of the stream is {:?} (data {})",
                        i, t, p, input.get(pos), pos
                    ));
                }
                st.push(Sym::T(*t));
                pos += 1;
            }
            Ev::Reduce(r) => {
                let b = &cfg.rules[*r].rhs;
                if st.len() < b.len() || st[st.len() - b.len()..] != b[..] {
                    return Err(format!(
                        "event {}: reduction {} without its right-hand side on the stack",
                        i, cfg.rust_names[*r]
                    ));
                }
                st.truncate(st.len() - b.len());
                st.push(Sym::N(cfg.rules[*r].lhs));
            }
            _ => return Err(format!("event {}: not a bottom-up event", i)),
        }
    }
    Ok(st)
}

/// Symbols a viable mixed prefix may be checked with.
pub fn viable_form(cfg: &Cfg, a: &Analysis, form: &[Sym]) -> bool {
    form == [Sym::N(cfg.start)] || chart(cfg, a, form).viable == form.len()
}

/// Shortest terminal strings, used to finish sentences.
pub fn shortest(cfg: &Cfg) -> Vec<usize> {
    let m = min_lengths(cfg);
    let mut best = vec![0; cfg.nts.len()];
    let size = |r: usize| {
        cfg.rules[r].rhs.iter().fold(0usize, |a, s| {
            a.saturating_add(match s {
                Sym::T(_) => 1,
                Sym::N(n) => m[*n],
            })
        })
    };
    // depth-minimal choice to guarantee termination
    let mut depth = vec![usize::MAX; cfg.nts.len()];
    let mut changed = true;
    while changed {
        changed = false;
        for n in 0..cfg.nts.len() {
            for r in &cfg.by_nt[n] {
                let d = cfg.rules[*r]
                    .rhs
                    .iter()
                    .map(|s| match s {
                        Sym::T(_) => 0,
                        Sym::N(x) => depth[*x],
                    })
                    .max()
                    .unwrap_or(0)
                    .saturating_add(1);
                if d < depth[n] || d == depth[n] && size(*r) < size(best[n]) {
                    depth[n] = d;
                    best[n] = *r;
                    changed = true;
                }
            }
        }
    }
    best
}

pub fn all_terms(cfg: &Cfg) -> BTreeSet<usize> {
    (0..cfg.tokens.len()).collect()
}
