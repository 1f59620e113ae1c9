//! Reference LL(1) machine.
use crate::cfg::{Cfg, Sym};
use crate::lr::Ev;

pub struct LlRun {
    pub accepted: bool,
    pub events: Vec<Ev>,
    pub error_at: Option<usize>,
}

enum E {
    S(Sym),
    End,
    Exit(usize),
}

/// Anonymous non-terminals have no callbacks.
pub fn run(cfg: &Cfg, table: &[Vec<Option<usize>>], input: &[usize]) -> LlRun {
    let end = cfg.tokens.len();
    let mut stack = vec![E::End, E::S(Sym::N(cfg.start))];
    let mut pos = 0;
    let mut ev = vec![];
    while let Some(e) = stack.pop() {
        let la = input.get(pos).copied().unwrap_or(end);
        match e {
            E::Exit(n) => ev.push(Ev::Exit(n)),
            E::End | E::S(Sym::T(_)) => {
                let want = if let E::S(Sym::T(t)) = e { t } else { end };
                if want != la {
                    return LlRun { accepted: false, events: ev, error_at: Some(pos) };
                }
                ev.push(Ev::Shift(la, pos));
                pos += 1;
            }
            E::S(Sym::N(n)) => match table[n][la] {
                None => return LlRun { accepted: false, events: ev, error_at: Some(pos) },
                Some(r) => {
                    if cfg.nts[n].name.is_some() {
                        ev.push(Ev::Enter(n));
                        stack.push(E::Exit(n));
                    }
                    for s in cfg.rules[r].rhs.iter().rev() {
                        stack.push(E::S(*s));
                    }
                }
            },
        }
    }
    LlRun { accepted: true, events: ev, error_at: None }
}
