//! Reference lexer: maximal scans over the union of all token expressions.
use crate::frontend::RuleSet;
use crate::gram::*;
use crate::re::{self, Re};
use std::collections::{BTreeSet, HashMap};

#[derive(Default)]
struct St {
    eps: Vec<usize>,
    trans: Vec<(u32, u32, usize)>,
    accept: Option<usize>,
}

pub struct LexModel {
    st: Vec<St>,
    pub prec: Vec<usize>,
    pub res: Vec<Re>,
    dfa: Vec<Vec<usize>>,
    acc: Vec<Option<usize>>,
    index: HashMap<Vec<usize>, usize>,
    next: HashMap<(usize, u32), Option<usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scan {
    /// token kind, length in characters
    Tok(usize, usize),
    /// characters tried
    Err(usize),
    End,
}

pub fn tok_re(t: &Tok) -> Result<Re, String> {
    match &t.body {
        TokBody::Lit(s) => Ok(Re::Cat(s.chars().map(Re::Char).collect())),
        TokBody::Re(s) => re::parse(s),
    }
}

pub fn precedence(t: &Tok, r: &Re) -> usize {
    match (&t.prec, &t.body) {
        (Some(p), _) => *p as usize,
        (None, TokBody::Lit(s)) => 2 * s.chars().count(),
        _ => re::min_len(r),
    }
}

impl LexModel {
    pub fn new(rs: &RuleSet) -> Result<LexModel, String> {
        let mut m = LexModel {
            st: vec![St::default()],
            prec: vec![],
            res: vec![],
            dfa: vec![],
            acc: vec![],
            index: HashMap::new(),
            next: HashMap::new(),
        };
        for (i, t) in rs.tokens.iter().enumerate() {
            let r = tok_re(t)?;
            m.prec.push(precedence(t, &r));
            let s = m.state();
            let e = m.state();
            m.st[0].eps.push(s);
            m.st[e].accept = Some(i);
            m.build(&r, s, e);
            m.res.push(r);
        }
        let start = m.eps_close(vec![0]);
        m.dfa_state(start);
        Ok(m)
    }
    /// One expression on its own.
    pub fn single(r: &Re) -> LexModel {
        let mut m = LexModel {
            st: vec![St::default()],
            prec: vec![0],
            res: vec![r.clone()],
            dfa: vec![],
            acc: vec![],
            index: HashMap::new(),
            next: HashMap::new(),
        };
        let e = m.state();
        m.st[e].accept = Some(0);
        m.build(r, 0, e);
        let start = m.eps_close(vec![0]);
        m.dfa_state(start);
        m
    }
    fn state(&mut self) -> usize {
        self.st.push(St::default());
        self.st.len() - 1
    }
    fn build(&mut self, r: &Re, s: usize, e: usize) {
        match r {
            Re::Char(_) | Re::Dot | Re::Class(..) => {
                for (a, b) in re::ranges(r) {
                    self.st[s].trans.push((a, b, e));
                }
            }
            Re::Cat(v) => {
                let mut p = s;
                for x in v {
                    let n = self.state();
                    self.build(x, p, n);
                    p = n;
                }
                self.st[p].eps.push(e);
            }
            Re::Alt(v) => {
                for x in v {
                    let a = self.state();
                    let b = self.state();
                    self.st[s].eps.push(a);
                    self.build(x, a, b);
                    self.st[b].eps.push(e);
                }
            }
            Re::Rep(x, n, m) => {
                let mut p = self.state();
                self.st[s].eps.push(p);
                for _ in 0..*n {
                    let q = self.state();
                    self.build(x, p, q);
                    p = q;
                }
                match m {
                    None => {
                        let a = self.state();
                        let b = self.state();
                        self.st[p].eps.push(a);
                        self.st[p].eps.push(e);
                        self.build(x, a, b);
                        self.st[b].eps.push(a);
                        self.st[b].eps.push(e);
                    }
                    Some(m) => {
                        for _ in *n..*m {
                            self.st[p].eps.push(e);
                            let q = self.state();
                            self.build(x, p, q);
                            p = q;
                        }
                        self.st[p].eps.push(e);
                    }
                }
            }
        }
    }
    fn eps_close(&self, v: Vec<usize>) -> Vec<usize> {
        let mut set: BTreeSet<usize> = v.iter().copied().collect();
        let mut todo = v;
        while let Some(x) = todo.pop() {
            for y in &self.st[x].eps {
                if set.insert(*y) {
                    todo.push(*y);
                }
            }
        }
        set.into_iter().collect()
    }
    fn dfa_state(&mut self, set: Vec<usize>) -> usize {
        if let Some(i) = self.index.get(&set) {
            return *i;
        }
        let best = set
            .iter()
            .filter_map(|s| self.st[*s].accept)
            .max_by_key(|t| (self.prec[*t], std::cmp::Reverse(*t)));
        self.acc.push(best);
        self.dfa.push(set.clone());
        self.index.insert(set, self.dfa.len() - 1);
        self.dfa.len() - 1
    }
    fn step(&mut self, d: usize, c: u32) -> Option<usize> {
        if let Some(x) = self.next.get(&(d, c)) {
            return *x;
        }
        let mut v: Vec<usize> = vec![];
        for s in &self.dfa[d] {
            for (a, b, t) in &self.st[*s].trans {
                if *a <= c && c <= *b {
                    v.push(*t);
                }
            }
        }
        let r = if v.is_empty() {
            None
        } else {
            let set = self.eps_close(v);
            Some(self.dfa_state(set))
        };
        self.next.insert((d, c), r);
        r
    }
    /// One scan from `pos`; an incomplete or impossible token is an error.
    pub fn scan(&mut self, text: &[char], pos: usize) -> Scan {
        if pos >= text.len() {
            return Scan::End;
        }
        let mut d = 0;
        let mut i = pos;
        while i < text.len() {
            match self.step(d, text[i] as u32) {
                Some(x) => d = x,
                None => break,
            }
            i += 1;
        }
        match self.acc[d] {
            Some(t) if i > pos => Scan::Tok(t, i - pos),
            _ => Scan::Err(i - pos),
        }
    }
    /// Some token matches the empty text.
    pub fn matches_empty(&self) -> bool {
        self.acc[0].is_some()
    }
    /// Characters at which any class of this token set starts, ends, or stops.
    pub fn boundaries(&self) -> Vec<u32> {
        let mut s = BTreeSet::new();
        for st in &self.st {
            for (a, b, _) in &st.trans {
                s.insert(*a);
                s.insert(*b);
                if *a > 0 {
                    s.insert(*a - 1);
                }
                s.insert(b + 1);
            }
        }
        s.insert(0);
        s.insert(re::MAXC);
        s.into_iter().filter(|c| char::from_u32(*c).is_some()).collect()
    }
    /// Explores the automaton; None if it is too big, Some(true) if two tokens of equal, highest
    /// precedence match a common text.
    pub fn has_ties(&mut self, limit: usize) -> Option<bool> {
        let b = self.boundaries();
        let mut i = 0;
        let mut ties = false;
        while i < self.dfa.len() {
            let accs: Vec<usize> = self.dfa[i].iter().filter_map(|s| self.st[*s].accept).collect();
            if let Some(m) = accs.iter().map(|t| self.prec[*t]).max() {
                if accs.iter().filter(|t| self.prec[**t] == m).count() > 1 {
                    ties = true;
                }
            }
            for c in &b {
                self.step(i, *c);
            }
            if self.dfa.len() > limit {
                return None;
            }
            i += 1;
        }
        Some(ties)
    }
    pub fn states(&self) -> usize {
        self.dfa.len()
    }
    /// Sets of tokens that match a common text with the highest precedence there; None if the
    /// automaton is too big.
    pub fn ties(&mut self, limit: usize) -> Option<Vec<BTreeSet<usize>>> {
        self.has_ties(limit)?;
        let mut v = vec![];
        for d in &self.dfa {
            let accs: BTreeSet<usize> = d.iter().filter_map(|s| self.st[*s].accept).collect();
            if let Some(m) = accs.iter().map(|t| self.prec[*t]).max() {
                let best: BTreeSet<usize> = accs.into_iter().filter(|t| self.prec[*t] == m).collect();
                if best.len() > 1 {
                    v.push(best);
                }
            }
        }
        v.sort();
        v.dedup();
        Some(v)
    }
}

/// Do two expressions match the same texts? Some(text) that only one of them matches; None: no
/// difference found within `limit` pairs of states (the flag tells whether all were seen).
pub fn difference(a: &Re, b: &Re, limit: usize) -> (Option<String>, bool) {
    let (mut x, mut y) = (LexModel::single(a), LexModel::single(b));
    let mut cs: BTreeSet<u32> = x.boundaries().into_iter().collect();
    cs.extend(y.boundaries());
    let mut seen: HashMap<(Option<usize>, Option<usize>), usize> = HashMap::new();
    let mut todo = vec![(Some(0), Some(0), 0usize, 0u32)];
    seen.insert((Some(0), Some(0)), 0);
    let mut i = 0;
    while i < todo.len() {
        let (p, q, _, _) = todo[i];
        let acc = |m: &LexModel, d: Option<usize>| d.map_or(false, |d| m.acc[d].is_some());
        if acc(&x, p) != acc(&y, q) {
            let mut t = vec![];
            let mut k = i;
            while k != 0 {
                t.push(char::from_u32(todo[k].3).unwrap_or('?'));
                k = todo[k].2;
            }
            t.reverse();
            return (Some(t.into_iter().collect()), true);
        }
        if todo.len() > limit {
            return (None, false);
        }
        for c in &cs {
            let n = (p.and_then(|d| x.step(d, *c)), q.and_then(|d| y.step(d, *c)));
            if n != (None, None) && !seen.contains_key(&n) {
                seen.insert(n, i);
                todo.push((n.0, n.1, i, *c));
            }
        }
        i += 1;
    }
    (None, true)
}
