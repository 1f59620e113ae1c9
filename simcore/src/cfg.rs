//! Plain context-free grammar obtained from a rule set, with lapex' symbol numbering and the
//! names of the visitor callbacks.
use crate::frontend::RuleSet;
use crate::gram::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Debug)]
pub struct Nt {
    pub index: usize,
    pub name: Option<String>,
}

#[derive(Clone, Debug)]
pub struct CRule {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    pub tag: Option<String>,
    /// the production (in the rule set's order) it comes from
    pub origin: usize,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub tokens: Vec<String>,
    pub nts: Vec<Nt>,
    pub rules: Vec<CRule>,
    pub start: usize,
    pub by_nt: Vec<Vec<usize>>,
    /// name of the callback of each rule
    pub rust_names: Vec<String>,
    pub cpp_names: Vec<String>,
}

struct B<'a> {
    rs: &'a RuleSet,
    nts: Vec<Nt>,
    rules: Vec<CRule>,
    next_index: usize,
    origin: usize,
}

impl<'a> B<'a> {
    fn sym(&self, n: &str) -> Result<Sym, String> {
        if let Some(i) = self.rs.tokens.iter().position(|t| t.name == n) {
            return Ok(Sym::T(i));
        }
        self.nts
            .iter()
            .position(|t| t.name.as_deref() == Some(n))
            .map(Sym::N)
            .ok_or_else(|| format!("undefined symbol {}", n))
    }
    fn fresh(&mut self) -> usize {
        self.nts.push(Nt { index: self.next_index, name: None });
        self.next_index += 1;
        self.nts.len() - 1
    }
    fn push(&mut self, lhs: usize, rhs: Vec<Sym>) {
        self.rules.push(CRule { lhs, rhs, tag: None, origin: self.origin });
    }
    fn pat(&mut self, p: &Pat) -> Result<Vec<Sym>, String> {
        Ok(match p {
            Pat::Eps => vec![],
            Pat::Sym(n) => vec![self.sym(n)?],
            Pat::Seq(v) => {
                let mut o = vec![];
                for e in v {
                    o.extend(self.pat(e)?);
                }
                o
            }
            Pat::Alt(v) => {
                let a = self.fresh();
                for e in v {
                    let r = self.pat(e)?;
                    self.push(a, r);
                }
                vec![Sym::N(a)]
            }
            Pat::Opt(e) => {
                let a = self.fresh();
                let r = self.pat(e)?;
                self.push(a, r);
                self.push(a, vec![]);
                vec![Sym::N(a)]
            }
            Pat::Star(e) => {
                let a = self.fresh();
                let mut r = self.pat(e)?;
                r.push(Sym::N(a));
                self.push(a, vec![]);
                self.push(a, r);
                vec![Sym::N(a)]
            }
            Pat::Plus(e) => {
                let a = self.fresh();
                let mut r = self.pat(e)?;
                self.push(a, r.clone());
                r.push(Sym::N(a));
                self.push(a, r);
                vec![Sym::N(a)]
            }
        })
    }
}

pub fn build(rs: &RuleSet) -> Result<Cfg, String> {
    let mut max = 0;
    for (i, t) in rs.tokens.iter().enumerate() {
        if rs.tokens[..i].iter().any(|o| o.name == t.name) {
            return Err(format!("token {} defined twice", t.name));
        }
        max = max.max(i);
    }
    let mut nts: Vec<Nt> = vec![];
    for (i, p) in rs.prods.iter().enumerate() {
        if rs.tokens.iter().any(|t| t.name == p.name) {
            return Err(format!("{} is a token and a production", p.name));
        }
        if !nts.iter().any(|n| n.name.as_ref() == Some(&p.name)) {
            nts.push(Nt { index: i, name: Some(p.name.clone()) });
            max = max.max(i);
        }
    }
    let named = nts.len();
    let mut b = B { rs, nts, rules: vec![], next_index: max + 1, origin: 0 };
    for (origin, p) in rs.prods.iter().enumerate() {
        b.origin = origin;
        let lhs = match b.sym(&p.name)? {
            Sym::N(n) => n,
            _ => unreachable!(),
        };
        let rhs = b.pat(&p.pat)?;
        b.rules.push(CRule { lhs, rhs, tag: p.tag.clone(), origin });
    }
    let start = match b.sym(&rs.entry)? {
        Sym::N(n) => n,
        Sym::T(_) => return Err("the entry symbol is a token".into()),
    };
    let mut by_nt = vec![vec![]; b.nts.len()];
    for (i, r) in b.rules.iter().enumerate() {
        by_nt[r.lhs].push(i);
    }
    let mut rust_names = vec![String::new(); b.rules.len()];
    let mut cpp_names = rust_names.clone();
    for (n, rs) in by_nt.iter().enumerate() {
        let base = match &b.nts[n].name {
            Some(s) => s.clone(),
            None => format!("anon{}", b.nts[n].index),
        };
        for (i, r) in rs.iter().enumerate() {
            if rs.len() == 1 {
                rust_names[*r] = format!("reduce_{}", base);
                cpp_names[*r] = format!("reduce_{}", base);
            } else {
                cpp_names[*r] = format!("reduce_{}_{}", base, i + 1);
                rust_names[*r] = match (&b.rules[*r].tag, n < named) {
                    (Some(t), true) => format!("reduce_{}_{}", base, t),
                    _ => cpp_names[*r].clone(),
                };
            }
        }
    }
    Ok(Cfg {
        tokens: rs.tokens.iter().map(|t| t.name.clone()).collect(),
        nts: b.nts,
        rules: b.rules,
        start,
        by_nt,
        rust_names,
        cpp_names,
    })
}

pub fn rust_token_name(n: &str) -> String {
    let mut o = String::from("Tk");
    for part in n.split('_') {
        let mut c = part.chars();
        if let Some(h) = c.next() {
            o.push(h.to_ascii_uppercase());
            o.push_str(&c.as_str().to_ascii_lowercase());
        } else {
            o.push('_');
        }
    }
    o
}

impl Cfg {
    pub fn from_text(text: &str) -> Result<Cfg, String> {
        build(&crate::frontend::parse(text)?)
    }
    pub fn nt_name(&self, n: usize) -> String {
        match &self.nts[n].name {
            Some(s) => s.clone(),
            None => format!("anon{}", self.nts[n].index),
        }
    }
    pub fn sym_name(&self, s: Sym) -> String {
        match s {
            Sym::T(t) if t == self.tokens.len() => "<end>".into(),
            Sym::T(t) => self.tokens[t].clone(),
            Sym::N(n) => self.nt_name(n),
        }
    }
    /// Names are usable in generated code: no clashes after conversion to enum variants, no
    /// empty name parts, no reserved names.
    pub fn names_ok(&self) -> bool {
        let mut seen = std::collections::BTreeSet::new();
        for t in &self.tokens {
            if !seen.insert(rust_token_name(t))
                || ["ERR", "EOF"].contains(&t.as_str())
            {
                return false;
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        let mut seen_cpp = std::collections::BTreeSet::new();
        for n in 0..self.nts.len() {
            let name = self.nt_name(n);
            if !seen.insert(rust_token_name(&name))
                || !seen_cpp.insert(name.to_ascii_uppercase())
            {
                return false;
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        let mut seen2 = std::collections::BTreeSet::new();
        self.rust_names.iter().all(|n| seen.insert(n)) && self.cpp_names.iter().all(|n| seen2.insert(n))
    }
}
