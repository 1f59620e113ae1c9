//! Canonical LR(1) construction, class membership tests and the reference shift-reduce machine.
use crate::analysis::{first_of, Analysis, TSet};
use crate::cfg::{Cfg, Sym};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// (rule, dot, lookahead); the rule index `rules.len()` is the start rule S' -> S
type Item = (usize, usize, usize);

pub struct Lr1 {
    pub states: Vec<Vec<Item>>,
    pub goto_: Vec<BTreeMap<Sym, usize>>,
    pub lr1: bool,
    pub lalr: bool,
    pub lr0: bool,
    pub lalr_states: usize,
    /// action[state][terminal]
    pub action: Vec<BTreeMap<usize, Act>>,
}

/// Decisions one state leaves open under some lookahead.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Clash {
    /// rules that could be reduced
    pub reduce: BTreeSet<usize>,
    /// tokens (the end marker included) that could be shifted instead
    pub shift: BTreeSet<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

fn rhs<'a>(cfg: &'a Cfg, start: &'a [Sym], r: usize) -> &'a [Sym] {
    if r == cfg.rules.len() {
        start
    } else {
        &cfg.rules[r].rhs
    }
}

fn closure(cfg: &Cfg, a: &Analysis, start: &[Sym], kernel: BTreeSet<Item>) -> Vec<Item> {
    let mut set = kernel.clone();
    let mut todo: Vec<Item> = kernel.into_iter().collect();
    while let Some((r, d, la)) = todo.pop() {
        let body = rhs(cfg, start, r);
        if let Some(Sym::N(x)) = body.get(d) {
            let (mut f, null) = first_of(cfg, a, &body[d + 1..]);
            if null {
                f.insert(la);
            }
            for q in &cfg.by_nt[*x] {
                for l in &f {
                    let it = (*q, 0, *l);
                    if set.insert(it) {
                        todo.push(it);
                    }
                }
            }
        }
    }
    set.into_iter().collect()
}

/// None when the automaton gets bigger than `limit` states.
pub fn build(cfg: &Cfg, a: &Analysis, limit: usize) -> Option<Lr1> {
    let end = cfg.tokens.len();
    let start = [Sym::N(cfg.start)];
    let mut states = vec![closure(cfg, a, &start, [(cfg.rules.len(), 0, end)].into_iter().collect())];
    let mut index: HashMap<Vec<Item>, usize> = HashMap::new();
    index.insert(states[0].clone(), 0);
    let mut goto_: Vec<BTreeMap<Sym, usize>> = vec![];
    let mut i = 0;
    while i < states.len() {
        let mut next: BTreeMap<Sym, BTreeSet<Item>> = BTreeMap::new();
        for (r, d, la) in &states[i] {
            if let Some(s) = rhs(cfg, &start, *r).get(*d) {
                next.entry(*s).or_default().insert((*r, d + 1, *la));
            }
        }
        let mut g = BTreeMap::new();
        for (s, k) in next {
            let c = closure(cfg, a, &start, k);
            let id = match index.get(&c) {
                Some(x) => *x,
                None => {
                    states.push(c.clone());
                    index.insert(c, states.len() - 1);
                    states.len() - 1
                }
            };
            g.insert(s, id);
        }
        goto_.push(g);
        i += 1;
        if states.len() > limit {
            return None;
        }
    }
    let mut lr = Lr1 {
        states,
        goto_,
        lr1: true,
        lalr: true,
        lr0: true,
        lalr_states: 0,
        action: vec![],
    };
    for (i, st) in lr.states.iter().enumerate() {
        let (act, ok) = actions(cfg, &start, &lr.goto_[i], st.iter().copied());
        lr.lr1 &= ok;
        lr.action.push(act);
    }
    // LALR(1): merge states with the same core
    let mut cores: BTreeMap<BTreeSet<(usize, usize)>, Vec<usize>> = BTreeMap::new();
    for (i, st) in lr.states.iter().enumerate() {
        cores.entry(st.iter().map(|x| (x.0, x.1)).collect()).or_default().push(i);
    }
    lr.lalr_states = cores.len();
    for (core, members) in &cores {
        let items: BTreeSet<Item> = members.iter().flat_map(|m| lr.states[*m].iter().copied()).collect();
        let (_, ok) = actions(cfg, &start, &lr.goto_[members[0]], items.into_iter());
        lr.lalr &= ok;
        // LR(0): the end marker after the start symbol is an ordinary shift
        let complete: Vec<usize> = core
            .iter()
            .filter(|(r, d)| *r < cfg.rules.len() && *d == rhs(cfg, &start, *r).len())
            .map(|x| x.0)
            .collect();
        let others = core
            .iter()
            .filter(|(r, d)| {
                *r == cfg.rules.len() && *d == 1 || matches!(rhs(cfg, &start, *r).get(*d), Some(Sym::T(_)))
            })
            .count();
        if complete.len() > 1 || complete.len() == 1 && others > 0 {
            lr.lr0 = false;
        }
    }
    lr.lalr &= lr.lr1;
    lr.lr0 &= lr.lalr;
    Some(lr)
}

fn actions(
    cfg: &Cfg,
    start: &[Sym],
    g: &BTreeMap<Sym, usize>,
    items: impl Iterator<Item = Item>,
) -> (BTreeMap<usize, Act>, bool) {
    let mut act = BTreeMap::new();
    let mut ok = true;
    for (s, t) in g {
        if let Sym::T(x) = s {
            act.insert(*x, Act::Shift(*t));
        }
    }
    for (r, d, la) in items {
        if d == rhs(cfg, start, r).len() {
            let n = if r == cfg.rules.len() { Act::Accept } else { Act::Reduce(r) };
            if let Some(o) = act.insert(la, n) {
                if o != n {
                    ok = false;
                }
            }
        }
    }
    (act, ok)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ev {
    /// terminal, position in the stream
    Shift(usize, usize),
    Reduce(usize),
    /// non-terminal entered / left (LL parsers)
    Enter(usize),
    Exit(usize),
}

/// What an LR(1) parser does on a stream (without end marker).
pub struct RefRun {
    pub accepted: bool,
    pub events: Vec<Ev>,
    /// position of the first token (or end marker) that cannot continue a sentence
    pub error_at: Option<usize>,
    pub expected: TSet,
    /// (state, lookahead) pairs visited
    pub pairs: Vec<(usize, usize)>,
}

impl Lr1 {
    /// All clashes of the automaton of an algorithm.
    pub fn clashes(&self, cfg: &Cfg, algo: &str) -> Vec<Clash> {
        let start = [Sym::N(cfg.start)];
        let end = cfg.tokens.len();
        let mut groups: Vec<BTreeSet<Item>> = vec![];
        if algo == "lr1" {
            groups.extend(self.states.iter().map(|s| s.iter().copied().collect::<BTreeSet<Item>>()));
        } else {
            let mut cores: BTreeMap<BTreeSet<(usize, usize)>, BTreeSet<Item>> = BTreeMap::new();
            for st in &self.states {
                cores.entry(st.iter().map(|x| (x.0, x.1)).collect()).or_default().extend(st.iter().copied());
            }
            groups.extend(cores.into_values());
        }
        let mut out = vec![];
        for g in groups {
            let mut shift = BTreeSet::new();
            let mut by_la: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
            for (r, d, la) in &g {
                match rhs(cfg, &start, *r).get(*d) {
                    Some(Sym::T(t)) => {
                        shift.insert(*t);
                    }
                    Some(Sym::N(_)) => {}
                    None if *r == cfg.rules.len() => {
                        shift.insert(end);
                    }
                    None => {
                        by_la.entry(if algo == "lr0" { 0 } else { *la }).or_default().insert(*r);
                    }
                }
            }
            for (la, reduce) in by_la {
                let shift: BTreeSet<usize> = shift.iter().copied().filter(|t| algo == "lr0" || *t == la).collect();
                if reduce.len() > 1 || !shift.is_empty() {
                    out.push(Clash { reduce, shift });
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }
    /// How much work following every alternative parse of `input` takes (stacks looked at), when
    /// that is at most `cap`: the number of alternatives can grow exponentially with the input.
    pub fn alternatives(&self, cfg: &Cfg, input: &[usize], cap: usize) -> Option<usize> {
        let end = cfg.tokens.len();
        let mut work = 0;
        let mut alive: Vec<Vec<usize>> = vec![vec![0]];
        for pos in 0..=input.len() {
            let la = input.get(pos).copied().unwrap_or(end);
            let mut next = vec![];
            let mut todo = alive;
            while let Some(st) = todo.pop() {
                work += 1;
                if work > cap {
                    return None;
                }
                let top = *st.last().unwrap();
                if let Some(t) = self.goto_[top].get(&Sym::T(la)) {
                    let mut n = st.clone();
                    n.push(*t);
                    next.push(n);
                }
                for (r, d, l) in &self.states[top] {
                    if *l == la && *r < cfg.rules.len() && *d == cfg.rules[*r].rhs.len() {
                        let mut n = st[..st.len() - d].to_vec();
                        n.push(self.goto_[*n.last().unwrap()][&Sym::N(cfg.rules[*r].lhs)]);
                        todo.push(n);
                    }
                }
            }
            alive = next;
        }
        Some(work)
    }
    pub fn run(&self, cfg: &Cfg, input: &[usize]) -> RefRun {
        let mut pairs = vec![];
        let end = cfg.tokens.len();
        let mut stack = vec![0usize];
        let mut ev = vec![];
        let mut pos = 0;
        loop {
            let la = if pos < input.len() { input[pos] } else { end };
            let st = *stack.last().unwrap();
            pairs.push((st, la));
            match self.action[st].get(&la) {
                Some(Act::Shift(t)) => {
                    stack.push(*t);
                    ev.push(Ev::Shift(la, pos));
                    pos += 1;
                }
                Some(Act::Reduce(r)) => {
                    let n = cfg.rules[*r].rhs.len();
                    stack.truncate(stack.len() - n);
                    let top = *stack.last().unwrap();
                    stack.push(self.goto_[top][&Sym::N(cfg.rules[*r].lhs)]);
                    ev.push(Ev::Reduce(*r));
                }
                Some(Act::Accept) => {
                    return RefRun { accepted: true, events: ev, error_at: None, expected: TSet::new(), pairs }
                }
                None => {
                    return RefRun {
                        accepted: false,
                        events: ev,
                        error_at: Some(pos),
                        expected: self.action[st].keys().copied().collect(),
                        pairs,
                    }
                }
            }
        }
    }
}
