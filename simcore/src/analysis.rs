//! Classical grammar analyses.
use crate::cfg::{Cfg, Sym};
use std::collections::BTreeSet;

/// Set of terminals; the index `tokens.len()` stands for the end marker.
pub type TSet = BTreeSet<usize>;

pub struct Analysis {
    pub nullable: Vec<bool>,
    pub first: Vec<TSet>,
    pub follow: Vec<TSet>,
    pub reduced: bool,
    pub cyclic: bool,
    pub hidden_left_rec: bool,
    pub left_rec: bool,
}

pub fn first_of(cfg: &Cfg, a: &Analysis, s: &[Sym]) -> (TSet, bool) {
    let _ = cfg;
    let mut o = TSet::new();
    for x in s {
        match x {
            Sym::T(t) => {
                o.insert(*t);
                return (o, false);
            }
            Sym::N(n) => {
                o.extend(a.first[*n].iter());
                if !a.nullable[*n] {
                    return (o, false);
                }
            }
        }
    }
    (o, true)
}

pub fn analyse(cfg: &Cfg) -> Analysis {
    let n = cfg.nts.len();
    let end = cfg.tokens.len();
    let mut a = Analysis {
        nullable: vec![false; n],
        first: vec![TSet::new(); n],
        follow: vec![TSet::new(); n],
        reduced: true,
        cyclic: false,
        hidden_left_rec: false,
        left_rec: false,
    };
    let mut changed = true;
    while changed {
        changed = false;
        for r in &cfg.rules {
            let (f, null) = first_of(cfg, &a, &r.rhs);
            let l = a.first[r.lhs].len();
            a.first[r.lhs].extend(f);
            if a.first[r.lhs].len() != l {
                changed = true;
            }
            if null && !a.nullable[r.lhs] {
                a.nullable[r.lhs] = true;
                changed = true;
            }
        }
    }
    a.follow[cfg.start].insert(end);
    changed = true;
    while changed {
        changed = false;
        for r in &cfg.rules {
            for (i, s) in r.rhs.iter().enumerate() {
                if let Sym::N(x) = s {
                    let (f, null) = first_of(cfg, &a, &r.rhs[i + 1..]);
                    let l = a.follow[*x].len();
                    a.follow[*x].extend(f);
                    if null {
                        let fl = a.follow[r.lhs].clone();
                        a.follow[*x].extend(fl);
                    }
                    if a.follow[*x].len() != l {
                        changed = true;
                    }
                }
            }
        }
    }
    // productive and reachable
    let mut productive = vec![false; n];
    changed = true;
    while changed {
        changed = false;
        for r in &cfg.rules {
            if !productive[r.lhs]
                && r.rhs.iter().all(|s| match s {
                    Sym::T(_) => true,
                    Sym::N(x) => productive[*x],
                })
            {
                productive[r.lhs] = true;
                changed = true;
            }
        }
    }
    let mut reach = vec![false; n];
    reach[cfg.start] = true;
    let mut todo = vec![cfg.start];
    while let Some(x) = todo.pop() {
        for r in &cfg.by_nt[x] {
            for s in &cfg.rules[*r].rhs {
                if let Sym::N(y) = s {
                    if !reach[*y] {
                        reach[*y] = true;
                        todo.push(*y);
                    }
                }
            }
        }
    }
    a.reduced = productive.iter().all(|x| *x) && reach.iter().all(|x| *x);
    // A -> alpha B beta with alpha, beta nullable: unit edge (cycle = cyclic grammar)
    let mut unit = vec![vec![false; n]; n];
    let mut left = unit.clone();
    let mut hidden = unit.clone();
    for r in &cfg.rules {
        for (i, s) in r.rhs.iter().enumerate() {
            if let Sym::N(x) = s {
                let pre = r.rhs[..i].iter().all(|s| matches!(s, Sym::N(y) if a.nullable[*y]));
                let post = r.rhs[i + 1..].iter().all(|s| matches!(s, Sym::N(y) if a.nullable[*y]));
                if pre && post {
                    unit[r.lhs][*x] = true;
                }
                if pre {
                    left[r.lhs][*x] = true;
                    if i > 0 {
                        hidden[r.lhs][*x] = true;
                    }
                }
            }
        }
    }
    close(&mut unit);
    let mut lc = left.clone();
    close(&mut lc);
    for x in 0..n {
        if unit[x][x] {
            a.cyclic = true;
        }
        if lc[x][x] {
            a.left_rec = true;
        }
        for y in 0..n {
            // x -> (nullable) y ... and y reaches x at its left edge
            if hidden[x][y] && (y == x || lc[y][x]) {
                a.hidden_left_rec = true;
            }
        }
    }
    a
}

fn close(m: &mut [Vec<bool>]) {
    let n = m.len();
    for k in 0..n {
        for i in 0..n {
            if m[i][k] {
                for j in 0..n {
                    if m[k][j] {
                        m[i][j] = true;
                    }
                }
            }
        }
    }
}

/// Prediction table: for each non-terminal the rule chosen for each lookahead, or None when the
/// grammar is not LL(1).
pub fn ll1_table(cfg: &Cfg, a: &Analysis) -> Option<Vec<Vec<Option<usize>>>> {
    let end = cfg.tokens.len();
    let mut t = vec![vec![None; end + 1]; cfg.nts.len()];
    for (i, r) in cfg.rules.iter().enumerate() {
        let (mut f, null) = first_of(cfg, a, &r.rhs);
        if null {
            f.extend(a.follow[r.lhs].iter());
        }
        for x in f {
            if t[r.lhs][x].is_some() {
                return None;
            }
            t[r.lhs][x] = Some(i);
        }
    }
    Some(t)
}
