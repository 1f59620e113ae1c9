//! What the generator says about a grammar (C30 conflicts, C31 positions, C32 token overlaps, C33 the
//! parser table): the real command as a simulated process — hash seeds, addresses, clocks and the
//! delivery of reads and writes come from the run's seed — against independent constructions.
use crate::analysis::{self, Analysis};
use crate::build::*;
use crate::cfg::{self, Cfg, Sym};
use crate::driver::*;
use crate::earley;
use crate::frontend;
use crate::gen::{self, Class};
use crate::gensim::*;
use crate::gram::*;
use crate::json::J;
use crate::lexunit;
use crate::lexref::LexModel;
use crate::lr::{self, Clash, Ev, Lr1};
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct DPlan {
    pub origin: String,
    pub text: String,
    pub lang: &'static str,
    pub algo: &'static str,
    pub table: bool,
    pub lexer: bool,
    pub seed: u64,
    pub jitter: Option<(u64, i64, i64, i64)>,
    pub style: u8,
    /// what the table is run on
    pub feeds: Vec<Vec<usize>>,
}

pub struct DiagScenario {
    prop: String,
    m: Machine,
    base: PathBuf,
}

const ALGOS: [(&str, Class); 5] = [("ll1", Class::Ll1), ("lr0", Class::Lr0), ("lr1", Class::Lr1), ("lalr", Class::Lalr), ("glr", Class::Glr)];

/// Everything known about a grammar text.
struct Model {
    /// first character, the one after the last: of productions and tokens (in the rule set's order)
    prods: Vec<(usize, usize)>,
    tokens: Vec<(usize, usize)>,
    cfg: Cfg,
    an: Analysis,
    lr: Lr1,
    /// sets of tokens that leave it open which of them a text is
    ties: Vec<BTreeSet<usize>>,
}

const STATES: usize = 260;

fn model(text: &str) -> Option<Model> {
    let spans = frontend::parse_spans(text).ok()?;
    let rs = frontend::parse(text).ok()?;
    let cfg = cfg::build(&rs).ok()?;
    // symbols without a sentence: which items there are depends on the construction
    let productive = earley::min_lengths(&cfg).iter().all(|x| *x < usize::MAX / 4);
    if !cfg.names_ok() || cfg.rules.len() > 120 || !productive {
        return None;
    }
    let an = analysis::analyse(&cfg);
    let lr = lr::build(&cfg, &an, STATES)?;
    let mut lx = LexModel::new(&rs).ok()?;
    let ties = lx.ties(1500)?;
    let pick = |f: &dyn Fn(&Rule) -> bool| spans.iter().rev().filter(|s| f(&s.0)).map(|s| s.1).collect::<Vec<_>>();
    let prods = pick(&|r| matches!(r, Rule::Prod(_)));
    let tokens = pick(&|r| matches!(r, Rule::Tok(_)));
    Some(Model { prods, tokens, cfg, an, lr, ties })
}

/// What has to come of it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Due {
    Success,
    Conflicts,
    Overlap,
    /// refused, in whatever way
    Refusal,
    Unknown,
}

impl Model {
    fn clashes(&self, algo: &str) -> Vec<Clash> {
        match algo {
            "ll1" => vec![],
            "glr" => self.lr.clashes(&self.cfg, "lalr"),
            a => self.lr.clashes(&self.cfg, a),
        }
    }
    fn due(&self, algo: &str, lexer: bool) -> Due {
        if lexer && !self.ties.is_empty() {
            return Due::Overlap;
        }
        match algo {
            "ll1" => {
                let t = analysis::ll1_table(&self.cfg, &self.an).is_some();
                if !self.an.reduced || self.an.cyclic {
                    Due::Unknown
                } else if !t {
                    Due::Refusal
                } else if self.lr.lr1 {
                    Due::Success
                } else {
                    Due::Unknown
                }
            }
            "glr" => Due::Success,
            a => {
                if self.lr.clashes(&self.cfg, a).is_empty() {
                    Due::Success
                } else {
                    Due::Conflicts
                }
            }
        }
    }
    fn shown(&self, r: usize) -> Vec<String> {
        shown(&self.cfg, r)
    }
}

/// The symbols of a rule as the generator displays them, without their numbers.
pub fn shown(cfg: &Cfg, r: usize) -> Vec<String> {
    let x = &cfg.rules[r];
    let name = |s: Sym| match s {
        Sym::N(n) => cfg.nts[n].name.clone().unwrap_or("<anon>".into()),
        s => cfg.sym_name(s),
    };
    let mut v = vec![name(Sym::N(x.lhs)), "->".to_string()];
    v.extend(x.rhs.iter().map(|s| name(*s)));
    v
}

/// "a(3) -> B(0) <eps> c(2) •" without numbers, epsilons and the dot.
pub fn symbols(s: &str) -> Vec<String> {
    s.split_whitespace()
        .filter(|w| *w != "•" && *w != "<eps>")
        .map(|w| match w.rfind('(') {
            Some(p) if w.ends_with(')') && w[p + 1..w.len() - 1].bytes().all(|c| c.is_ascii_digit()) => w[..p].to_string(),
            _ => w.to_string(),
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// reports

#[derive(Clone, Debug)]
struct Section {
    file: String,
    line: usize,
    col: usize,
    /// what follows the location, one string per line
    body: Vec<String>,
}

#[derive(Clone, Debug)]
struct Note {
    kind: String,
    sections: Vec<Section>,
}

fn notes(con: &str) -> Result<Vec<Note>, String> {
    let mut v: Vec<Note> = vec![];
    for l in con.lines() {
        if let Some(k) = l.strip_prefix("error: ") {
            v.push(Note { kind: k.trim().into(), sections: vec![] });
        } else if let Some(x) = l.strip_prefix(" --> ") {
            let n = v.last_mut().ok_or("a location without an error")?;
            let mut w = x.rsplitn(3, ':');
            let (c, r, f) = (w.next(), w.next(), w.next());
            let num = |s: Option<&str>| s.and_then(|s| s.trim().parse::<usize>().ok()).ok_or(format!("{:?} is no location", x));
            n.sections.push(Section { file: f.unwrap_or("").into(), line: num(r)?, col: num(c)?, body: vec![] });
        } else if let Some(x) = l.strip_prefix("  |") {
            let s = v.last_mut().and_then(|n| n.sections.last_mut()).ok_or("text without a location")?;
            s.body.push(x.strip_prefix("  ").unwrap_or(x.trim_start()).to_string());
        }
    }
    Ok(v)
}

impl Section {
    /// The line after one that starts with `head`.
    fn below(&self, head: &str) -> Option<&str> {
        let p = self.body.iter().position(|l| l.starts_with(head))?;
        self.body.get(p + 1).map(|l| l.trim())
    }
}

/// Offset of the character at a line and column (from 1).
fn offset(text: &[char], line: usize, col: usize) -> Option<usize> {
    let mut l = 1;
    let mut at = 0;
    while l < line {
        at += text[at..].iter().position(|c| *c == '\n')? + 1;
        l += 1;
    }
    let rest = text[at..].iter().position(|c| *c == '\n').unwrap_or(text.len() - at);
    (col >= 1 && col <= rest + 1).then(|| at + col - 1)
}

// ---------------------------------------------------------------------------------------------
// the table

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cell {
    Shift(usize),
    Reduce(usize),
    Accept,
    Error,
    Several,
}

struct Table {
    /// left and right side, symbols as displayed
    rules: BTreeMap<usize, (String, Vec<String>)>,
    columns: Vec<String>,
    rows: Vec<Vec<Cell>>,
}

fn parse_table(t: &str) -> Result<Table, String> {
    let mut l = t.lines();
    if l.next().map(|x| x.trim()) != Some("Rules:") {
        return Err("does not begin with the rules".into());
    }
    let mut rules = BTreeMap::new();
    for x in l.by_ref() {
        if x.trim().is_empty() {
            break;
        }
        let (n, r) = x.split_once(": ").ok_or(format!("{:?} is no rule", x))?;
        let n: usize = n.trim().parse().map_err(|_| format!("{:?} has no number", x))?;
        let (a, b) = r.split_once(" -> ").ok_or(format!("{:?} is no rule", x))?;
        if rules.insert(n, (a.trim().to_string(), b.split_whitespace().filter(|s| *s != "<eps>").map(|s| s.to_string()).collect())).is_some() {
            return Err(format!("two rules {}", n));
        }
    }
    let cells = |x: &str| -> Vec<String> {
        let v: Vec<&str> = x.split('|').collect();
        v[1..v.len().saturating_sub(1).max(1)].iter().map(|s| s.trim().to_string()).collect()
    };
    let columns = cells(l.next().ok_or("no header")?);
    let mut rows = vec![];
    for x in l {
        if x.trim().is_empty() {
            continue;
        }
        let n: usize = x.split('|').next().unwrap_or("").trim().parse().map_err(|_| format!("row {:?} has no number", x))?;
        if n != rows.len() {
            return Err(format!("row {} in place of {}", n, rows.len()));
        }
        let c = cells(x);
        if c.len() != columns.len() {
            return Err(format!("row {} has {} cells under {} columns", n, c.len(), columns.len()));
        }
        let mut row = vec![];
        for c in c {
            let num = |s: &str| s.parse::<usize>().map_err(|_| format!("cell {:?} in row {}", c, n));
            row.push(match c.as_str() {
                "" | "e" => Cell::Error,
                "a" => Cell::Accept,
                "c" => Cell::Several,
                s if s.starts_with('s') => Cell::Shift(num(&s[1..])?),
                s if s.starts_with('r') => Cell::Reduce(num(&s[1..])?),
                s => return Err(format!("cell {:?} in row {}", s, n)),
            });
        }
        rows.push(row);
    }
    Ok(Table { rules, columns, rows })
}

#[derive(PartialEq, Debug)]
enum End {
    /// rules in the order of their reductions
    Accepted(Vec<usize>),
    Error(usize),
    /// came to a cell with several actions
    Open,
}

impl Table {
    fn run(&self, col: &BTreeMap<&str, usize>, end: usize, input: &[usize]) -> Result<End, String> {
        let mut stack = vec![0usize];
        let mut reds = vec![];
        let mut pos = 0;
        let mut fuel = 2000 + 200 * input.len();
        loop {
            if fuel == 0 {
                return Err("does not come to an end".into());
            }
            fuel -= 1;
            let st = *stack.last().unwrap();
            let c = if pos < input.len() { input[pos] } else { end };
            let row = self.rows.get(st).ok_or(format!("state {} has no row", st))?;
            match row[c] {
                Cell::Shift(t) => {
                    if pos == input.len() {
                        return Err(format!("state {} shifts the end of the input", st));
                    }
                    stack.push(t);
                    pos += 1;
                }
                Cell::Reduce(r) => {
                    let (lhs, rhs) = self.rules.get(&r).ok_or(format!("state {} reduces by rule {}, which is not listed", st, r))?;
                    if stack.len() <= rhs.len() {
                        return Err(format!("state {} reduces by rule {}: not that many symbols", st, r));
                    }
                    stack.truncate(stack.len() - rhs.len());
                    let top = *stack.last().unwrap();
                    let g = *col.get(lhs.as_str()).ok_or(format!("no column {}", lhs))?;
                    match self.rows.get(top).map(|x| x[g]) {
                        Some(Cell::Shift(t)) => stack.push(t),
                        x => return Err(format!("after a reduction to {} state {} has {:?}", lhs, top, x)),
                    }
                    reds.push(r);
                }
                Cell::Accept => {
                    if pos != input.len() {
                        return Err(format!("state {} accepts before the end of the input", st));
                    }
                    return Ok(End::Accepted(reds));
                }
                Cell::Error => return Ok(End::Error(pos)),
                Cell::Several => return Ok(End::Open),
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// drawing

/// Rules lost, duplicated or changed, tokens that get into each other's way.
fn damage(g: &mut Gram, rng: &mut Rng) -> &'static str {
    let prods: Vec<usize> = (0..g.rules.len()).filter(|i| matches!(g.rules[*i], Rule::Prod(_))).collect();
    let toks: Vec<usize> = (0..g.rules.len()).filter(|i| matches!(g.rules[*i], Rule::Tok(_))).collect();
    let names = gen::names(g);
    if prods.is_empty() || toks.is_empty() || names.is_empty() {
        return "none";
    }
    fn leaves(p: &mut Pat, f: &mut dyn FnMut(&mut Pat)) {
        match p {
            Pat::Seq(v) | Pat::Alt(v) => v.iter_mut().for_each(|e| leaves(e, f)),
            Pat::Opt(e) | Pat::Star(e) | Pat::Plus(e) => leaves(e, f),
            Pat::Eps => {}
            Pat::Sym(_) => f(p),
        }
    }
    let p = *rng.pick(&prods);
    let t = *rng.pick(&toks);
    match rng.below(11) {
        0 => {
            g.rules.remove(p);
            "lost production"
        }
        1 => {
            let mut c = g.rules[p].clone();
            if let Rule::Prod(c) = &mut c {
                c.tag = rng.pct(50).then(|| "twin".to_string());
            }
            let at = rng.below(g.rules.len() + 1);
            g.rules.insert(at, c);
            "repeated production"
        }
        2 | 3 => {
            // one symbol becomes another, or disappears
            if let Rule::Prod(x) = &mut g.rules[p] {
                let mut n = 0;
                leaves(&mut x.pat, &mut |_| n += 1);
                if n > 0 {
                    let (k, to, how) = (rng.below(n), rng.pick(&names).clone(), rng.below(6));
                    let mut i = 0;
                    leaves(&mut x.pat, &mut |e| {
                        if i == k {
                            *e = match how {
                                0 => Pat::Opt(Box::new(e.clone())),
                                1 => Pat::Star(Box::new(e.clone())),
                                2 => Pat::Plus(Box::new(e.clone())),
                                _ => sym(&to),
                            };
                        }
                        i += 1;
                    });
                }
            }
            "changed symbol"
        }
        4 => {
            // two left sides with one right side
            let q = *rng.pick(&prods);
            if let (Rule::Prod(a), Rule::Prod(b)) = (g.rules[p].clone(), &mut g.rules[q]) {
                b.pat = a.pat;
            }
            "copied right side"
        }
        5 => {
            if let Rule::Prod(x) = g.rules[p].clone() {
                let k = rng.below(3);
                let me = sym(&x.name);
                let pat = match k {
                    0 => Pat::Eps,
                    1 => seq(vec![me.clone(), me]),
                    _ => seq(vec![me.clone(), sym(rng.pick(&names)), me]),
                };
                g.rules.push(Rule::Prod(Prod { name: x.name.clone(), tag: None, pat }));
            }
            "added production"
        }
        6 => {
            let q = *rng.pick(&toks);
            if let (Rule::Tok(a), Rule::Tok(b)) = (g.rules[t].clone(), &mut g.rules[q]) {
                b.body = a.body;
                if rng.pct(40) {
                    b.prec = a.prec;
                }
            }
            "copied token body"
        }
        7 => {
            let body = *rng.pick(&["[a-z]+", "[a-zA-Z_]+", ".+", "[^ab]", "[a-z0-9]", "(ab|a|b)+", "[0-9]+", "[a-f]", "[\u{e4}-\u{fc}]+", "..", "a?b"]);
            let name = format!("WIDE{}", rng.below(3));
            let prec = if rng.pct(40) { Some(rng.below(5) as u16) } else { None };
            if !names.contains(&name) {
                let at = rng.below(g.rules.len() + 1);
                g.rules.insert(at, Rule::Tok(Tok { name, prec, body: TokBody::Re(body.into()) }));
            }
            "wide token"
        }
        8 => {
            if let Rule::Tok(x) = &mut g.rules[t] {
                x.prec = match x.prec {
                    Some(_) if rng.pct(50) => None,
                    _ => Some(rng.below(4) as u16),
                };
            }
            "changed precedence"
        }
        9 => {
            // text of more than one byte per character, more than one line
            if let Rule::Tok(x) = &mut g.rules[t] {
                x.body = match rng.below(6) {
                    0 => TokBody::Lit("grö\u{df}e \u{1f600}".into()),
                    1 => TokBody::Lit("two\nlines".into()),
                    2 => TokBody::Re("\u{20ac}|\u{e4}[\u{e0}-\u{ff}]".into()),
                    3 => TokBody::Lit("\u{2028}e\u{301}\r".into()),
                    4 => TokBody::Lit("\u{feff}\u{85}\t\u{b}".into()),
                    _ => TokBody::Lit("\u{3042}\n\u{3044}".into()),
                };
            }
            "wide characters"
        }
        _ => {
            rng.shuffle(&mut g.rules);
            "shuffled"
        }
    }
}

fn tear(text: &str, rng: &mut Rng) -> String {
    let c: Vec<char> = text.chars().collect();
    if c.len() < 4 {
        return text.into();
    }
    let a = rng.below(c.len());
    let n = *rng.pick(&[1, 1, 2, 3, 5, 8, 20]).min(&(c.len() - a));
    let mut o = c[..a].to_vec();
    match rng.below(4) {
        0 => o.extend(&c[a + n..]),
        1 => {
            o.extend(&c[a..a + n]);
            o.extend(&c[a..]);
        }
        2 => {
            o.push(*rng.pick(&['!', '?', '*', '+', '|', ' ', '\n', ';', '\u{e9}', 'a', 'x']));
            o.extend(&c[a..]);
        }
        _ => {
            o.push(*rng.pick(&['!', '?', '*', '+', '|', ' ', '\n', ';', '\u{e9}', 'a', 'x']));
            o.extend(&c[a + n..]);
        }
    }
    o.into_iter().collect()
}

impl DiagScenario {
    fn candidate(&self, rng: &mut Rng) -> DPlan {
        let (mut algo, mut class) = *rng.pick(&ALGOS);
        if self.prop == "C33" && algo == "ll1" {
            (algo, class) = ("lalr", Class::Lalr);
        }
        // a grammar for this algorithm, or for one that takes more
        let from = if rng.pct(if self.prop == "C33" { 75 } else { 45 }) { class } else { Class::Glr };
        let kind = if rng.pct(60) { Some(rng.below(gen::kinds())) } else { None };
        let m = gen::grammar_of(rng, from, kind);
        let mut origin = m.origin.clone();
        let mut text = m.text;
        let rounds = if self.prop == "C33" { *rng.pick(&[0, 0, 0, 1]) } else { *rng.pick(&[0, 0, 1, 1, 2, 3, 4]) };
        let rivals = rng.pct(match self.prop.as_str() {
            "C32" => 40,
            "C31" => 12,
            _ => 0,
        });
        if rounds > 0 || rivals || rng.pct(40) {
            if let Ok(mut g) = frontend::parse_gram(&text) {
                for _ in 0..rounds {
                    origin = format!("{}, {}", origin, damage(&mut g, rng));
                }
                if rivals {
                    let have = gen::names(&g);
                    for (i, (prec, body)) in lexunit::rivals(rng).into_iter().enumerate() {
                        let name = format!("{}{}", rng.pick(&["RIVAL", "A_TOKEN", "zz"]), i);
                        if !have.contains(&name) {
                            let at = rng.below(g.rules.len() + 1);
                            g.rules.insert(at, Rule::Tok(Tok { name, prec, body }));
                        }
                    }
                    origin.push_str(", rival tokens");
                }
                text = if rng.pct(60) { g.text_styled(rng) } else { g.text() };
            }
        }
        if rng.pct(20) {
            let n = rng.range(1, 3);
            for _ in 0..n {
                let t = tear(&text, rng);
                if frontend::parse(&t).is_ok() {
                    text = t;
                    origin.push_str(", torn");
                }
            }
        }
        let lang = match algo {
            "ll1" => "cpp",
            "glr" => "rust",
            _ => *rng.pick(&["rust", "cpp"]),
        };
        DPlan {
            origin,
            text,
            lang,
            algo,
            table: self.prop == "C33" || rng.pct(15),
            lexer: match self.prop.as_str() {
                "C32" => rng.pct(90),
                "C30" | "C33" => rng.pct(25),
                _ => rng.pct(50),
            },
            seed: rng.next() >> 1,
            jitter: rng.pct(40).then(|| (rng.next() & 0xffff_ffff, *rng.pick(&[1, 2, 3, 7, 64, 4096]), *rng.pick(&[1, 5, 100, 4096]), *rng.pick(&[0, 10, 40]))),
            style: rng.below(STYLES as usize) as u8,
            feeds: vec![],
        }
    }
    /// Is the plan one the property says something about?
    fn fits(&self, p: &DPlan, m: &Model) -> bool {
        let d = m.due(p.algo, p.lexer);
        match self.prop.as_str() {
            "C30" => matches!(d, Due::Success | Due::Conflicts | Due::Refusal),
            "C31" => matches!(d, Due::Conflicts | Due::Overlap),
            "C32" => d != Due::Unknown,
            _ => d == Due::Success && p.algo != "ll1",
        }
    }
    fn feeds(&self, m: &Model, rng: &mut Rng) -> Vec<Vec<usize>> {
        let best = earley::shortest(&m.cfg);
        let n = m.cfg.tokens.len();
        let mut v = vec![vec![]];
        for _ in 0..12 {
            let budget = *rng.pick(&[1, 3, 6, 12, 25]);
            let mut w = gen::sentence(&m.cfg, &best, rng, budget);
            if w.len() > 150 {
                continue;
            }
            if rng.pct(50) && n > 0 {
                for _ in 0..rng.range(1, 3) {
                    let at = rng.below(w.len() + 1);
                    match rng.below(4) {
                        0 if at < w.len() => {
                            w.remove(at);
                        }
                        1 if at < w.len() => w[at] = rng.below(n),
                        2 => w.truncate(at),
                        _ => w.insert(at, rng.below(n)),
                    }
                }
            }
            v.push(w);
        }
        v
    }
    fn execute(&self, p: &DPlan, mut st: Option<&mut Stats>, keep: bool) -> (Vec<(String, String)>, u64, Vec<J>) {
        let mut v: Vec<(String, String)> = vec![];
        let Some(m) = model(&p.text) else { return (v, 0, vec![]) };
        if !self.fits(p, &m) {
            return (v, 0, vec![]);
        }
        let dir = self.base.join(format!("w{:08}", unsafe { sys::getpid() }));
        let root = dir.join("disk");
        let l = layout(p.style, &root);
        setup(&root, &l, &p.text);
        let u = Gu::new(String::new(), p.text.clone(), p.lang, p.algo, p.table, p.lexer, Expect::Good);
        let s = Step { jitter: p.jitter, ..Step::plain(0, p.seed) };
        let ran = run_step(&self.m, &dir, &root, &u, &s, &l);
        let due = m.due(p.algo, p.lexer);
        let table = std::fs::read(root.join(l.out_rel).join("table")).ok();
        let con = ran.con.replace(&root.display().to_string(), "ROOT");
        let digest = [rng::hash_str(&con), rng::hash_str(&ran.log), rng::hash_str(&format!("{:?}{:?}", ran.code, ran.signal)), rng::hash_bytes(table.as_deref().unwrap_or(b""))]
            .iter()
            .fold(0, |a, b| rng::mix(a, *b));
        let mut hist = vec![];
        if keep {
            hist.push(J::from(format!("due: {:?}; status {:?}, signal {:?}", due, ran.code, ran.signal)));
            for x in con.lines().chain(ran.log.lines()).take(400) {
                hist.push(J::from(x));
            }
        }
        if let Some(st) = st.as_deref_mut() {
            st.add("processes", 1);
            st.add(&format!("due: {:?}", due), 1);
            st.add("disk_operations", ran.ops.iter().filter(|o| o.is_io()).count() as u64);
            if p.jitter.is_some() {
                st.add("runs with short and interrupted reads and writes", 1);
            }
            for o in &ran.ops {
                if let Some(m) = o.marker() {
                    st.add(&format!("fault:{} {}", o.what, m), 1);
                }
            }
            st.state(rng::mix(rng::hash_str(&con), rng::hash_bytes(table.as_deref().unwrap_or(b""))));
        }
        if ran.signal == Some(24) && (p.text.len() > crate::build::HEAVY || m.lr.states.len() > 120) {
            // slow is not wrong
            if let Some(st) = st {
                st.add("grammars left out because generation takes long", 1);
            }
            return (v, digest, hist);
        }
        if ran.hung() || ran.signal.is_some() {
            v.push(("hang".into(), format!("the generator ended with signal {:?}", ran.signal)));
            return (v, digest, hist);
        }
        match self.prop.as_str() {
            "C33" => {
                if ran.code == Some(0) {
                    self.judge_table(p, &m, table.as_deref(), &mut v, st);
                }
            }
            _ => {
                let ns = match notes(&con) {
                    Ok(n) => n,
                    Err(e) => {
                        v.push(("unreadable".into(), e));
                        return (v, digest, hist);
                    }
                };
                let say = |class: &str, m: String, v: &mut Vec<(String, String)>| v.push((class.into(), m));
                match (due, ran.code) {
                    (Due::Success, Some(0)) => {}
                    (Due::Success, c) => {
                        // what else could be in the way is another property's
                        let overlap = ns.iter().any(|n| n.kind.starts_with("conflicting token"));
                        if self.prop == "C30" && !overlap || self.prop == "C32" && overlap {
                            say("refused", format!("refused although nothing is left open: status {:?}: {}", c, tail(&con)), &mut v)
                        }
                    }
                    (Due::Refusal, Some(0)) if self.prop == "C30" => say("accepted", "accepted although it is not LL(1)".into(), &mut v),
                    (Due::Conflicts, Some(0)) if self.prop == "C30" => say("accepted", format!("accepted although {} decisions are open", m.clashes(p.algo).len()), &mut v),
                    (Due::Overlap, Some(0)) if self.prop == "C32" => say("accepted", format!("accepted although tokens overlap: {:?}", m.named(&m.ties[0])), &mut v),
                    (Due::Conflicts | Due::Overlap, Some(1)) => self.judge_notes(p, &m, due, &ns, &l.grammar.replace(&root.display().to_string(), "ROOT"), &mut v, st),
                    (Due::Conflicts | Due::Overlap, Some(0)) => {}
                    (Due::Conflicts | Due::Overlap, c) => {
                        if due == Due::Overlap || self.prop != "C32" {
                            say("no-report", format!("status {:?} instead of a report: {}", c, tail(&con)), &mut v)
                        }
                    }
                    _ => {}
                }
            }
        }
        (v, digest, hist)
    }
    fn judge_notes(&self, p: &DPlan, m: &Model, due: Due, ns: &[Note], file: &str, v: &mut Vec<(String, String)>, st: Option<&mut Stats>) {
        let text: Vec<char> = p.text.chars().collect();
        let clashes = m.clashes(p.algo);
        let mut covered = vec![false; clashes.len()];
        let (mut sr, mut rr, mut ov) = (0, 0, 0);
        let mut say = |class: &str, m: String| v.push((class.into(), m));
        let shown: Vec<Vec<String>> = (0..m.cfg.rules.len()).map(|r| m.shown(r)).collect();
        for n in ns {
            let wanted = if n.kind.starts_with("conflicting token") { "Token has identical precedence" } else { "item" };
            if n.kind.starts_with("conflicting token") {
                ov += 1;
            } else if n.kind.starts_with("shift-reduce") {
                sr += 1;
            } else if n.kind.starts_with("reduce-reduce") {
                rr += 1;
            } else {
                say("unreadable", format!("an error {:?}", n.kind));
                continue;
            }
            let token = wanted != "item";
            // rules the sections can be about
            let mut about: Vec<Vec<usize>> = vec![];
            let mut names: Vec<String> = vec![];
            for s in &n.sections {
                let at = offset(&text, s.line, s.col);
                let spans = if token { &m.tokens } else { &m.prods };
                let here = spans.iter().position(|x| Some(x.0) == at);
                if self.prop == "C31" {
                    if s.file != file {
                        say("file", format!("the report is about {:?} instead of {:?}", s.file, file));
                    }
                    match here {
                        None => say("position", format!("line {}, column {} is not the beginning of a {}", s.line, s.col, if token { "token rule" } else { "production" })),
                        Some(k) => {
                            let t: String = text[spans[k].0..spans[k].1].iter().collect();
                            let lines: Vec<&str> = t.lines().collect();
                            let got: Vec<&str> = s.body.iter().map(|x| x.as_str()).skip_while(|l| l.is_empty()).take(lines.len()).collect();
                            let next = s.body.iter().skip_while(|l| l.is_empty()).nth(lines.len());
                            if got != lines || next.map_or(true, |x| !x.is_empty() && !x.trim().chars().all(|c| c == '~')) {
                                say("excerpt", format!("the excerpt for line {}, column {} is {:?} instead of {:?}", s.line, s.col, s.body, lines));
                            }
                        }
                    }
                }
                if token {
                    match s.below("Token has identical precedence") {
                        Some(x) => {
                            names.push(x.to_string());
                            if self.prop == "C31" && here.map_or(false, |k| m.cfg.tokens[k] != x) {
                                say("rule", format!("line {}, column {} is not where {} is defined", s.line, s.col, x));
                            }
                        }
                        None => say("unreadable", format!("no token in {:?}", s.body)),
                    }
                } else {
                    let Some(x) = s.below("Or reduce item").or(s.below("Could reduce this item")) else {
                        say("unreadable", format!("no item in {:?}", s.body));
                        continue;
                    };
                    let w = symbols(x);
                    let mut can: Vec<usize> = (0..shown.len()).filter(|r| shown[*r] == w).collect();
                    if can.is_empty() {
                        if self.prop != "C32" {
                            say("item", format!("{:?} is no rule of the grammar", x));
                        }
                        continue;
                    }
                    if let Some(k) = here {
                        let there: Vec<usize> = can.iter().copied().filter(|r| m.cfg.rules[*r].origin == k).collect();
                        if there.is_empty() {
                            if self.prop == "C31" {
                                say("rule", format!("line {}, column {} is not where {:?} comes from", s.line, s.col, x));
                            }
                        } else {
                            can = there;
                        }
                    }
                    about.push(can);
                }
            }
            if n.sections.is_empty() {
                say("unreadable", format!("{:?} without a location", n.kind));
                continue;
            }
            if self.prop == "C30" && n.kind.starts_with("shift-reduce") {
                let Some(t) = n.sections[0].below("Could shift token") else {
                    say("unreadable", format!("no token in {:?}", n.sections[0].body));
                    continue;
                };
                let t = if t == "<end>" { Some(m.cfg.tokens.len()) } else { m.cfg.tokens.iter().position(|x| x == t).or_else(|| m.cfg.tokens.iter().position(|x| symbols(t) == [x.clone()])) };
                let real: Vec<usize> = (0..clashes.len()).filter(|k| t.map_or(false, |t| clashes[*k].shift.contains(&t)) && about.iter().flatten().any(|r| clashes[*k].reduce.contains(r))).collect();
                if real.is_empty() {
                    say("invented", format!("no such shift-reduce conflict: {:?}", n.sections[0].body));
                }
                real.iter().for_each(|k| covered[*k] = true);
            }
            if self.prop == "C30" && n.kind.starts_with("reduce-reduce") {
                let real: Vec<usize> = (0..clashes.len()).filter(|k| clashes[*k].reduce.len() > 1 && about.len() > 1 && about.iter().all(|a| a.iter().any(|r| clashes[*k].reduce.contains(r)))).collect();
                if real.is_empty() {
                    say("invented", format!("no such reduce-reduce conflict: {:?}", n.sections.iter().map(|s| &s.body).collect::<Vec<_>>()));
                }
                // every rule that could be reduced there is named
                let all = |k: usize| clashes[k].reduce.iter().all(|r| about.iter().any(|a| a.contains(r)));
                real.iter().for_each(|k| covered[*k] |= all(*k));
            }
            if self.prop == "C32" && token {
                let set: BTreeSet<usize> = names.iter().filter_map(|x| m.cfg.tokens.iter().position(|y| y == x)).collect();
                if set.len() < 2 || set.len() != names.len() || !m.ties.contains(&set) {
                    say("invented", format!("{:?} are not the tokens that tie for some text; {:?} are", names, m.named(m.ties.first().unwrap_or(&BTreeSet::new()))));
                }
            }
        }
        if self.prop == "C30" && due == Due::Conflicts {
            if ov > 0 {
                // the lexer is off or has nothing to complain about
                say("invented", "a token conflict instead of the grammar's".into());
            } else if let Some(k) = covered.iter().position(|c| !*c) {
                let c = &clashes[k];
                say("unreported", format!("not (or not completely) reported: {:?} against shifting {:?}", c.reduce.iter().map(|r| shown[*r].join(" ")).collect::<Vec<_>>(), m.named(&c.shift)));
            }
        }
        if self.prop == "C32" {
            if due == Due::Overlap && ov == 0 {
                say("unreported", format!("the overlap of {:?} is not reported", m.named(&m.ties[0])));
            }
            if due != Due::Overlap && ov > 0 {
                say("invented", "a report of overlapping tokens that do not".into());
            }
        }
        if let Some(st) = st {
            st.add("reported shift-reduce conflicts", sr);
            st.add("reported reduce-reduce conflicts", rr);
            st.add("reported token overlaps", ov);
        }
    }
    fn judge_table(&self, p: &DPlan, m: &Model, table: Option<&[u8]>, v: &mut Vec<(String, String)>, st: Option<&mut Stats>) {
        let mut say = |class: &str, m: String| v.push((class.into(), m));
        let Some(t) = table else { return say("missing", "no table was written".into()) };
        let t = match parse_table(&String::from_utf8_lossy(t)) {
            Ok(t) => t,
            Err(e) => return say("unreadable", format!("the table: {}", e)),
        };
        // columns
        let col: BTreeMap<&str, usize> = t.columns.iter().enumerate().map(|(i, c)| (c.as_str(), i)).collect();
        let plain: Vec<String> = t.columns.iter().map(|c| symbols(c).join(" ")).collect();
        let mut tok = vec![];
        for name in &m.cfg.tokens {
            let at: Vec<usize> = (0..plain.len()).filter(|i| plain[*i] == *name).collect();
            if at.len() != 1 {
                return say("columns", format!("{} columns for token {}", at.len(), name));
            }
            tok.push(at[0]);
        }
        let Some(end) = plain.iter().position(|c| c == "<end>") else { return say("columns", "no column for the end of the input".into()) };
        // rules
        let rules: BTreeMap<usize, Vec<String>> = t.rules.iter().map(|(n, (l, r))| (*n, symbols(&format!("{} -> {}", l, r.join(" "))))).collect();
        let mut want: Vec<Vec<String>> = (0..m.cfg.rules.len()).map(|r| m.shown(r)).collect();
        let mut got: Vec<Vec<String>> = rules.values().cloned().collect();
        want.sort();
        got.sort();
        if want != got {
            let d = want.iter().find(|w| !got.contains(w)).or(got.iter().find(|w| !want.contains(w)));
            return say("rules", format!("the listed rules are not the grammar's: {:?}", d.map(|x| x.join(" "))));
        }
        let several = t.rows.iter().flatten().any(|c| *c == Cell::Several);
        if several != !m.clashes(p.algo).is_empty() {
            return say("conflicts", format!("cells with several actions: {}, open decisions: {}", several, m.clashes(p.algo).len()));
        }
        let (mut decided, mut open, mut accepted) = (0, 0, 0);
        for w in &p.feeds {
            if w.iter().any(|x| *x >= tok.len()) {
                continue;
            }
            let show = || w.iter().map(|t| m.cfg.tokens[*t].as_str()).collect::<Vec<_>>().join(" ");
            let cols: Vec<usize> = w.iter().map(|x| tok[*x]).collect();
            let e = match t.run(&col, end, &cols) {
                Ok(e) => e,
                Err(e) => {
                    say("run", format!("on {:?}: {}", show(), e));
                    continue;
                }
            };
            if e == End::Open {
                open += 1;
                continue;
            }
            decided += 1;
            if several {
                // no single reference parse; the language is all that is known
                let ch = earley::chart(&m.cfg, &m.an, &earley::terms(w));
                let at = (!ch.accepted).then_some(ch.viable);
                match (&e, at) {
                    (End::Accepted(_), None) => accepted += 1,
                    (End::Error(x), Some(y)) if *x == y => {}
                    (e, y) => say("verdict", format!("on {:?}: {:?} instead of {:?}", show(), e, y)),
                }
                continue;
            }
            let r = m.lr.run(&m.cfg, w);
            match (&e, r.accepted) {
                (End::Accepted(reds), true) => {
                    accepted += 1;
                    let a: Vec<&Vec<String>> = reds.iter().map(|r| &rules[r]).collect();
                    let b: Vec<Vec<String>> = r.events.iter().filter_map(|e| if let Ev::Reduce(r) = e { Some(m.shown(*r)) } else { None }).collect();
                    if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| **a != *b) {
                        let k = a.iter().zip(&b).take_while(|(a, b)| **a == *b).count();
                        say("reductions", format!("on {:?}: reduction {} is by {:?} instead of {:?}", show(), k, a.get(k), b.get(k)));
                    }
                }
                (End::Error(x), false) if r.error_at == Some(*x) => {}
                (e, ok) => say("verdict", format!("on {:?}: {:?} instead of {}", show(), e, if ok { "accepting".to_string() } else { format!("an error at {:?}", r.error_at) })),
            }
        }
        if let Some(st) = st {
            st.add("token streams decided by the table", decided);
            st.add("token streams accepted by the table", accepted);
            st.add("token streams that reach a cell with several actions", open);
        }
    }
}

impl Model {
    fn named(&self, s: &BTreeSet<usize>) -> Vec<String> {
        s.iter().map(|t| self.cfg.sym_name(Sym::T(*t))).collect()
    }
}

pub fn tail(s: &str) -> String {
    s.chars().take(250).collect::<String>().replace('\n', " ")
}

impl Scenario for DiagScenario {
    type Plan = DPlan;
    fn draw(&self, rng: &mut Rng) -> DPlan {
        let wanted = rng.below(100);
        for tries in 0.. {
            let mut p = self.candidate(rng);
            let Some(m) = model(&p.text) else { continue };
            if !self.fits(&p, &m) {
                continue;
            }
            // a fair share of every outcome
            let d = m.due(p.algo, p.lexer);
            let ok = match self.prop.as_str() {
                "C30" if wanted < 60 => d == Due::Conflicts,
                "C30" if wanted < 65 => d == Due::Refusal,
                "C31" => (d == Due::Conflicts) == (wanted < 65),
                "C32" if wanted < 60 => d == Due::Overlap,
                _ => true,
            };
            if !ok && tries < 60 {
                continue;
            }
            if self.prop == "C33" {
                p.feeds = self.feeds(&m, rng);
            }
            return p;
        }
        unreachable!()
    }
    fn run(&self, p: &DPlan, mut st: Option<&mut Stats>) -> Out {
        if let Some(st) = st.as_deref_mut() {
            st.plan(rng::hash_str(&format!("{}/{}/{}/{}/{:?}", p.text, p.lang, p.algo, p.lexer, p.feeds)));
        }
        let (viols, digest, _) = self.execute(p, st, false);
        Out { viols, digest }
    }
    fn size(&self, p: &DPlan) -> usize {
        p.text.chars().count() * 4
            + p.text.chars().filter(|c| !c.is_ascii()).count() * 4
            + p.text.matches("\n\n").count()
            + p.jitter.is_some() as usize * 30
            + p.style as usize
            + p.table as usize
            + p.feeds.iter().map(|f| 10 + f.len()).sum::<usize>()
    }
    fn shrink(&self, p: &DPlan) -> Vec<DPlan> {
        let mut v = vec![];
        let mut push = |f: &dyn Fn(&mut DPlan)| {
            let mut q = p.clone();
            f(&mut q);
            v.push(q);
        };
        if p.feeds.len() > 1 {
            for k in 0..p.feeds.len() {
                push(&|q| q.feeds = vec![p.feeds[k].clone()]);
            }
        } else if let Some(f) = p.feeds.first() {
            for k in 0..f.len() {
                push(&|q| {
                    q.feeds[0].remove(k);
                });
            }
        }
        push(&|q| q.jitter = None);
        push(&|q| q.style = 0);
        if let (Ok(spans), Ok(g)) = (frontend::parse_spans(&p.text), frontend::parse_gram(&p.text)) {
            let c: Vec<char> = p.text.chars().collect();
            // token numbers are used by the streams
            for (r, (a, b)) in spans.iter().rev() {
                if p.feeds.is_empty() || !matches!(r, Rule::Tok(_)) {
                    push(&|q| q.text = c[..*a].iter().chain(&c[*b..]).collect());
                }
            }
            push(&|q| q.text = g.text());
            for k in 0..g.rules.len() {
                let Rule::Prod(x) = &g.rules[k] else { continue };
                if let Pat::Seq(e) | Pat::Alt(e) = &x.pat {
                    for i in 0..e.len() {
                        let mut h = g.clone();
                        if let Rule::Prod(y) = &mut h.rules[k] {
                            let mut e = e.clone();
                            e.remove(i);
                            y.pat = if e.len() == 1 { e.remove(0) } else { match &x.pat { Pat::Alt(_) => Pat::Alt(e), _ => Pat::Seq(e) } };
                        }
                        push(&|q| q.text = h.text());
                    }
                }
                if x.tag.is_some() {
                    let mut h = g.clone();
                    if let Rule::Prod(y) = &mut h.rules[k] {
                        y.tag = None;
                    }
                    push(&|q| q.text = h.text());
                }
            }
        }
        v
    }
    fn replay_json(&self, p: &DPlan) -> J {
        let feeds: Vec<J> = p.feeds.iter().map(|f| J::Arr(f.iter().map(|x| J::from(*x)).collect())).collect();
        let j = p.jitter.map(|(a, b, c, d)| J::Arr(vec![J::from(a as i64), J::from(b), J::from(c), J::from(d)]));
        crate::obj! {
            "kind" => "diagnostics", "origin" => p.origin.as_str(), "grammar" => p.text.as_str(), "language" => p.lang, "algorithm" => p.algo,
            "table" => p.table, "lexer" => p.lexer, "seed_process" => format!("{}", p.seed), "style" => p.style as usize,
            "jitter" => j.unwrap_or(J::Arr(vec![])), "streams" => J::Arr(feeds)
        }
    }
    fn history(&self, p: &DPlan) -> Vec<J> {
        self.execute(p, None, true).2
    }
    fn sample(&self, p: &DPlan) -> J {
        crate::obj! {"origin" => p.origin.as_str(), "grammar" => p.text.as_str(), "algorithm" => p.algo, "lexer" => p.lexer, "streams" => p.feeds.len()}
    }
    fn repeated(&self) -> u64 {
        60
    }
    fn watchdog(&self) -> u64 {
        60
    }
}

impl DPlan {
    fn from_json(j: &J) -> DPlan {
        let jit: Vec<i64> = j.get("jitter").arr().iter().map(|x| x.int()).collect();
        let u = |k: &str, all: &[&'static str]| *all.iter().find(|a| **a == j.get(k).str()).unwrap_or_else(|| die(&format!("replay: {}", k)));
        DPlan {
            origin: j.get("origin").str().into(),
            text: j.get("grammar").str().into(),
            lang: u("language", &["rust", "cpp"]),
            algo: u("algorithm", &["ll1", "lr0", "lr1", "lalr", "glr"]),
            table: j.get("table").bool(),
            lexer: j.get("lexer").bool(),
            seed: j.get("seed_process").str().parse().unwrap_or(0),
            jitter: (jit.len() == 4).then(|| (jit[0] as u64, jit[1], jit[2], jit[3])),
            style: j.get("style").u() as u8,
            feeds: j.get("streams").arr().iter().map(|f| f.arr().iter().map(|x| x.u()).collect()).collect(),
        }
    }
}

fn scenario(prop: &str, env: &Env) -> DiagScenario {
    DiagScenario { prop: prop.into(), m: Machine::build(env, false), base: env.work.clone() }
}

pub fn check(prop: &str, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new(prop);
    let s = scenario(prop, &env);
    let mut rep = Report::new(prop, seed, thorough);
    let what = Search { runs: if thorough { 400_000 } else { 10_000 }, cap_s: if thorough { 600 } else { 90 }, seed, prop: prop.into() };
    let st = explore(&s, &env, &what, &mut rep);
    let g = |k: &str| st.n.get(k).copied().unwrap_or(0);
    rep.cover("simulated_time", format!("logical: {} disk operations; every process starts at a clock drawn from its seed", g("disk_operations")));
    rep.cover(
        "rule",
        "one evaluation = one simulated process of the real command on a drawn (and usually damaged) grammar, with hash seeds, addresses, clock, process id, paths and the delivery of reads and writes drawn from the run's seed; what it reports (or the table it writes, run on sentences and damaged sentences) is compared with an independent LR/LL/lexer construction; distinct = different (grammar, options, streams)",
    );
    rep.cover("real_code", "lapex-cli, lapex (errors.rs included), the generated grammar front end, lapex-lexer, lapex-parser, the code generators, Rust's std");
    rep.cover("stubs", "C library calls for files, memory, random bytes, clocks (simfs.c over a scratch directory)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let env = Env::new("replay");
    let s = scenario(j.get("property").str(), &env);
    let r = probe(&s, &env, &DPlan::from_json(j));
    env.clean();
    r
}
