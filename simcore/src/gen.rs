//! Seeded grammar generator: random grammars and families that stress particular mechanisms,
//! filtered by the class an algorithm promises to handle.
use crate::analysis::{self, Analysis};
use crate::cfg::{self, Cfg, Sym};
use crate::frontend;
use crate::gram::*;
use crate::lr::{self, Lr1};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Lr0,
    Lalr,
    Lr1,
    Ll1,
    Glr,
}

impl Class {
    pub fn flag(self) -> &'static str {
        match self {
            Class::Lr0 => "lr0",
            Class::Lalr => "lalr",
            Class::Lr1 => "lr1",
            Class::Ll1 => "ll1",
            Class::Glr => "glr",
        }
    }
    pub fn parse(s: &str) -> Option<Class> {
        [Class::Lr0, Class::Lalr, Class::Lr1, Class::Ll1, Class::Glr].into_iter().find(|c| c.flag() == s)
    }
}

pub struct Made {
    pub text: String,
    pub cfg: Cfg,
    pub an: Analysis,
    pub lr: Option<Lr1>,
    pub origin: String,
}

/// Everything the oracles need about a grammar text, or why it is outside the class.
pub fn examine(text: &str, class: Class, limit: usize) -> Result<Made, String> {
    let rs = frontend::parse(text)?;
    let cfg = cfg::build(&rs)?;
    if !cfg.names_ok() {
        return Err("names".into());
    }
    let an = analysis::analyse(&cfg);
    if !productive(&cfg) {
        return Err("unproductive symbol".into());
    }
    if an.cyclic {
        return Err("cyclic".into());
    }
    let lr = lr::build(&cfg, &an, limit);
    let ok = match (class, &lr) {
        (Class::Lr0, Some(l)) => l.lr0,
        (Class::Lalr, Some(l)) => l.lalr,
        (Class::Lr1, Some(l)) => l.lr1,
        (Class::Ll1, Some(l)) => l.lr1 && an.reduced && analysis::ll1_table(&cfg, &an).is_some(),
        (Class::Glr, Some(_)) => !an.hidden_left_rec,
        (_, None) => false,
    };
    if !ok {
        return Err(format!("not {}", class.flag()));
    }
    Ok(Made { text: text.to_string(), cfg, an, lr, origin: String::new() })
}

fn productive(cfg: &Cfg) -> bool {
    crate::earley::min_lengths(cfg).iter().all(|x| *x < usize::MAX / 4)
}

/// Draws grammars until one is in the class.
pub fn grammar(rng: &mut Rng, class: Class) -> Made {
    grammar_of(rng, class, None)
}

/// Number of ways to start a grammar.
pub fn kinds() -> usize {
    FAMILIES.len() + 20
}

/// The same, starting from one way to start a grammar where that leads anywhere.
pub fn grammar_of(rng: &mut Rng, class: Class, kind: Option<usize>) -> Made {
    for tries in 0.. {
        let kind = kind.filter(|_| tries < 30);
        let (g, origin) = draw(rng, class, kind);
        let text = if rng.pct(30) { g.text_styled(rng) } else { g.text() };
        let limit = if rng.pct(10) { 700 } else { 160 };
        if let Ok(mut m) = examine(&text, class, limit) {
            let l = m.lr.as_ref().unwrap();
            // prefer grammars that really need the algorithm
            let plain = match class {
                Class::Lalr => l.lr0,
                Class::Lr1 => l.lalr,
                Class::Glr => l.lr1,
                _ => false,
            };
            if plain && rng.pct(70) {
                continue;
            }
            if m.cfg.rules.len() < 3 && rng.pct(90) {
                continue;
            }
            m.origin = origin;
            return m;
        }
    }
    unreachable!()
}

fn draw(rng: &mut Rng, class: Class, kind: Option<usize>) -> (Gram, String) {
    let n = FAMILIES.len();
    let k = kind.unwrap_or_else(|| rng.below(kinds()));
    let (mut g, mut o) = if k >= n + 12 {
        (layered(rng), "layered".into())
    } else if k < n {
        (FAMILIES[k].1(rng), FAMILIES[k].0.to_string())
    } else if k < n + 6 {
        (random(rng, false), "random".into())
    } else if k < n + 10 {
        (random(rng, true), "random-ebnf".into())
    } else {
        let parts = rng.range(2, 3);
        compose(rng, parts)
    };
    if rng.pct(25) {
        mutate(rng, &mut g);
        o.push_str("+mutated");
    }
    if rng.pct(12) {
        surround(rng, &mut g);
        o.push_str("+surrounded");
    }
    if rng.pct(35) {
        tag(rng, &mut g);
    }
    if rng.pct(30) {
        extra_tokens(rng, &mut g);
    }
    if rng.pct(60) {
        rng.shuffle(&mut g.rules);
    }
    if rng.pct(30) {
        rename(rng, &mut g);
    }
    let _ = class;
    (g, o)
}

const FAMILIES: &[(&str, fn(&mut Rng) -> Gram)] = &[
    ("expr", expr),
    ("list", list),
    ("statements", statements),
    ("wide", wide),
    ("long-rhs", long_rhs),
    ("chain", chain),
    ("lr1-not-lalr", lr1_not_lalr),
    ("lalr-not-slr", lalr_not_slr),
    ("nullable", nullable),
    ("optionals", optionals),
    ("brackets", brackets),
    ("unbounded-lookahead", unbounded),
    ("palindrome", palindrome),
    ("ambiguous-expr", ambiguous_expr),
    ("dangling-else", dangling),
    ("right-recursion", right_rec),
    ("deep-nesting", deep),
    ("shared-prefix", shared_prefix),
    ("lr0", lr0_fam),
    ("same-core", same_core),
    ("mixed-ops", mixed_ops),
    ("modifiers", modifiers),
    ("tower", tower),
    ("operators", operators),
];

fn toks(g: &mut Gram, names: &[&str]) {
    for n in names {
        let t = format!("<{}>", n.to_ascii_lowercase());
        g.lit(n, &t);
    }
}

fn alts(rng: &mut Rng, g: &mut Gram, name: &str, v: Vec<Pat>) {
    // alternatives either as separate rules or as one rule with `|`
    if v.len() > 1 && rng.pct(25) && !v.iter().any(|p| *p == Pat::Eps) {
        g.prod(name, None, Pat::Alt(v));
    } else {
        for p in v {
            g.prod(name, None, p);
        }
    }
}

fn ss(v: &[&str]) -> Pat {
    if v.is_empty() {
        Pat::Eps
    } else if v.len() == 1 {
        sym(v[0])
    } else {
        Pat::Seq(v.iter().map(|s| sym(s)).collect())
    }
}

fn expr(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let levels = rng.range(1, 5);
    g.lit("NUM", "n");
    g.lit("LP", "(");
    g.lit("RP", ")");
    for i in 0..levels {
        let ops = rng.range(1, 2);
        let (me, sub) = (format!("e{}", i), format!("e{}", i + 1));
        let mut v = vec![];
        for o in 0..ops {
            let t = format!("OP{}X{}", i, o);
            g.lit(&t, &format!("o{}.{}", i, o));
            v.push(match rng.below(6) {
                0 | 1 | 2 => ss(&[&me, &t, &sub]),
                3 => ss(&[&sub, &t, &me]),
                4 => ss(&[&t, &me]),
                _ => ss(&[&me, &t]),
            });
        }
        v.push(ss(&[&sub]));
        alts(rng, &mut g, &me, v);
    }
    let last = format!("e{}", levels);
    let mut v = vec![ss(&["NUM"]), ss(&["LP", "e0", "RP"])];
    if rng.pct(40) {
        toks(&mut g, &["ID", "COMMA"]);
        v.push(ss(&["ID", "LP", "args", "RP"]));
        v.push(ss(&["ID"]));
        if rng.pct(50) {
            g.prod("args", None, ss(&["e0"]));
            g.prod("args", None, ss(&["args", "COMMA", "e0"]));
        } else {
            g.prod("args", None, Pat::Opt(Box::new(Pat::Seq(vec![
                sym("e0"),
                Pat::Star(Box::new(ss(&["COMMA", "e0"]))),
            ]))));
        }
    }
    alts(rng, &mut g, &last, v);
    g.entry_rule("e0");
    g
}

fn list(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "SEP", "OPEN", "CLOSE"]);
    let el = match rng.below(3) {
        0 => ss(&["A"]),
        1 => ss(&["A", "B"]),
        _ => Pat::Alt(vec![ss(&["A"]), ss(&["B"]), ss(&["OPEN", "list", "CLOSE"])]),
    };
    g.prod("item", None, el);
    match rng.below(6) {
        0 => {
            g.prod("list", None, ss(&["list", "SEP", "item"]));
            g.prod("list", None, ss(&["item"]));
        }
        1 => {
            g.prod("list", None, ss(&["list", "item"]));
            g.prod("list", None, Pat::Eps);
        }
        2 => {
            g.prod("list", None, Pat::Seq(vec![sym("item"), Pat::Star(Box::new(ss(&["SEP", "item"])))]));
        }
        3 => g.prod("list", None, Pat::Plus(Box::new(sym("item")))),
        4 => {
            g.prod("list", None, ss(&["item", "SEP", "list"]));
            g.prod("list", None, ss(&["item"]));
        }
        _ => {
            g.prod("list", None, Pat::Seq(vec![
                Pat::Star(Box::new(ss(&["item", "SEP"]))),
                Pat::Opt(Box::new(sym("CLOSE"))),
            ]));
        }
    }
    if rng.pct(40) {
        g.prod("top", None, ss(&["OPEN", "list", "CLOSE"]));
        g.entry_rule("top");
    } else {
        g.entry_rule("list");
    }
    g
}

fn statements(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["KW_IF", "KW_ELSE", "KW_WHILE", "ID", "ASSIGN", "NUM", "LB", "RB", "LP", "RP", "SEMI", "PLUS"]);
    g.entry_rule("program");
    g.prod("program", None, match rng.below(3) {
        0 => Pat::Star(Box::new(sym("stmt"))),
        1 => Pat::Plus(Box::new(sym("stmt"))),
        _ => ss(&["stmts"]),
    });
    if rng.pct(60) {
        g.prod("stmts", None, ss(&["stmts", "stmt"]));
    } else {
        g.prod("stmts", None, ss(&["stmt", "stmts"]));
    }
    g.prod("stmts", None, if rng.pct(50) { Pat::Eps } else { ss(&["stmt"]) });
    let mut v = vec![
        ss(&["ID", "ASSIGN", "expr", "SEMI"]),
        ss(&["KW_WHILE", "LP", "expr", "RP", "block"]),
    ];
    if rng.pct(50) {
        v.push(Pat::Seq(vec![
            sym("KW_IF"), sym("LP"), sym("expr"), sym("RP"), sym("block"),
            Pat::Opt(Box::new(ss(&["KW_ELSE", "block"]))),
        ]));
    } else {
        v.push(ss(&["KW_IF", "LP", "expr", "RP", "block", "tail"]));
        g.prod("tail", None, Pat::Eps);
        g.prod("tail", None, ss(&["KW_ELSE", "block"]));
    }
    if rng.pct(50) {
        v.push(ss(&["block"]));
    }
    alts(rng, &mut g, "stmt", v);
    g.prod("block", None, ss(&["LB", "stmts", "RB"]));
    match rng.below(3) {
        0 => {
            g.prod("expr", None, ss(&["expr", "PLUS", "atom"]));
            g.prod("expr", None, ss(&["atom"]));
        }
        1 => g.prod("expr", None, Pat::Seq(vec![sym("atom"), Pat::Star(Box::new(ss(&["PLUS", "atom"])))])),
        _ => {
            g.prod("expr", None, ss(&["atom", "rest"]));
            g.prod("rest", None, ss(&["PLUS", "atom", "rest"]));
            g.prod("rest", None, Pat::Eps);
        }
    }
    alts(rng, &mut g, "atom", vec![ss(&["NUM"]), ss(&["ID"]), ss(&["LP", "expr", "RP"])]);
    g
}

fn wide(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(12, 66);
    let m = rng.range(2, 9);
    for i in 0..n {
        g.lit(&format!("T{}", i), &format!("t{:02}", i));
    }
    let per = n / m;
    for j in 0..m {
        let name = format!("w{}", j);
        for i in j * per..(j + 1) * per {
            let t = format!("T{}", i);
            g.prod(&name, None, match rng.below(8) {
                0 => Pat::Seq(vec![sym(&t), Pat::Opt(Box::new(sym(&format!("T{}", rng.below(n)))))]),
                1 => ss(&[&t, "w0"]),
                _ => ss(&[&t]),
            });
        }
    }
    g.entry_rule("top");
    let names: Vec<String> = (0..m).map(|j| format!("w{}", j)).collect();
    g.prod("top", None, Pat::Seq(names.iter().map(|s| sym(s)).collect()));
    if rng.pct(50) {
        g.prod("top", None, ss(&["top", "T0", "w1"]));
    }
    g
}

fn long_rhs(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(3, 7);
    for i in 0..n {
        g.lit(&format!("T{}", i), &format!("t{}", i));
    }
    let len = rng.range(8, 30);
    g.entry_rule("s");
    let mut v = vec![];
    for i in 0..len {
        v.push(match rng.below(5) {
            0 => sym("x"),
            1 => sym("y"),
            2 if i > 0 => Pat::Opt(Box::new(sym("T0"))),
            _ => sym(&format!("T{}", rng.below(n))),
        });
    }
    let k = rng.range(1, len - 1);
    let mut w = v[..k].to_vec();
    w.push(sym(&format!("T{}", rng.below(n))));
    g.prod("s", None, Pat::Seq(v));
    g.prod("s", None, Pat::Seq(w));
    g.prod("x", None, ss(&["T1", "T2"]));
    g.prod("x", None, ss(&["T2"]));
    g.prod("y", None, ss(&["x", "T1"]));
    g.prod("y", None, ss(&["T2", "y"]));
    g.prod("y", None, if rng.pct(50) { Pat::Eps } else { ss(&["T0", "T0"]) });
    g
}

fn chain(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(4, 24);
    toks(&mut g, &["A", "B", "C"]);
    g.entry_rule("n0");
    for i in 0..n {
        let (me, next) = (format!("n{}", i), format!("n{}", i + 1));
        let extra = rng.pct(30);
        g.prod(&me, None, if extra { ss(&[&next, "A"]) } else { ss(&[&next]) });
        if rng.pct(20) {
            g.lit(&format!("D{}", i), &format!("d{}", i));
            g.prod(&me, None, ss(&[&format!("D{}", i), &next]));
        }
    }
    let last = format!("n{}", n);
    g.prod(&last, None, ss(&["B"]));
    g.prod(&last, None, ss(&["C", "n0", "C"]));
    g
}

/// What begins or follows something is known only many rules further down.
fn tower(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let (n, m) = (rng.range(3, 14), rng.range(0, 9));
    toks(&mut g, &["A", "B", "L", "R", "T", "V", "W", "Z"]);
    let mut rules: Vec<(String, Vec<Pat>)> = vec![];
    let mut fresh = vec![];
    // runs that end where the tower begins
    let head = match rng.below(4) {
        0 => vec![Pat::Star(Box::new(sym("A")))],
        1 => vec![sym("B"), sym("run")],
        2 => vec![sym("run"), sym("run2")],
        _ => vec![sym("run")],
    };
    if head.contains(&sym("run")) {
        let v = if rng.pct(50) { ss(&["A", "run"]) } else { ss(&["run", "A"]) };
        rules.push(("run".into(), vec![v, Pat::Eps]));
    }
    if head.contains(&sym("run2")) {
        rules.push(("run2".into(), vec![ss(&["B", "run2"]), Pat::Eps]));
    }
    let mut s = head;
    s.push(sym("c0"));
    if rng.pct(70) {
        s.extend([sym("v0"), sym("Z")]);
    } else {
        s.push(sym("v0"));
    }
    rules.push(("s".into(), vec![Pat::Seq(s)]));
    for i in 0..n {
        let next = sym(&format!("c{}", i + 1));
        let mut v = vec![next.clone()];
        if rng.pct(35) {
            let t = format!("K{}", i);
            fresh.push(t.clone());
            match rng.below(3) {
                0 => v.push(Pat::Seq(vec![sym(&t), next])),
                1 => v[0] = Pat::Seq(vec![Pat::Opt(Box::new(sym(&t))), next]),
                _ => {
                    v[0] = Pat::Seq(vec![sym(&format!("o{}", i)), next]);
                    rules.push((format!("o{}", i), vec![sym(&t), Pat::Eps]));
                }
            }
        }
        rules.push((format!("c{}", i), v));
    }
    let mut last = vec![sym("T")];
    if rng.pct(60) {
        last.push(ss(&["L", "c0", "R"]));
    }
    rules.push((format!("c{}", n), last));
    for i in 0..m {
        let next = sym(&format!("v{}", i + 1));
        rules.push((format!("v{}", i), vec![if rng.pct(50) { Pat::Seq(vec![sym("V"), next]) } else { next }]));
    }
    rules.push((format!("v{}", m), if rng.pct(50) { vec![Pat::Star(Box::new(sym("W")))] } else { vec![ss(&["W", &format!("v{}", m)]), Pat::Eps] }));
    for t in fresh {
        g.lit(&t, &t.to_ascii_lowercase());
    }
    if rng.pct(50) {
        rules.reverse();
    }
    g.entry_rule("s");
    for (name, v) in rules {
        alts(rng, &mut g, &name, v);
    }
    g
}

fn lr1_not_lalr(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let k = rng.range(2, 3);
    toks(&mut g, &["C", "D"]);
    let left = ["A", "B", "K"];
    let right = ["X", "Y", "Z"];
    toks(&mut g, &left[..k]);
    toks(&mut g, &right[..k]);
    g.entry_rule("s");
    let body = match rng.below(3) {
        0 => ss(&["C"]),
        1 => ss(&["C", "D"]),
        _ => ss(&["C", "q"]),
    };
    g.prod("q", None, ss(&["D"]));
    g.prod("q", None, Pat::Eps);
    for i in 0..k {
        for j in 0..k {
            // e if (i + j) mod k == 0 ...
            let r = format!("r{}", (i + j) % k);
            g.prod("s", None, ss(&[left[i], &r, right[j]]));
        }
    }
    for i in 0..k {
        g.prod(&format!("r{}", i), None, body.clone());
    }
    if rng.pct(40) {
        toks(&mut g, &["SEP"]);
        g.prod("top", None, ss(&["s"]));
        g.prod("top", None, ss(&["top", "SEP", "s"]));
        g.rules.retain(|r| !matches!(r, Rule::Entry(_)));
        g.entry_rule("top");
    }
    g
}

fn lalr_not_slr(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["EQ", "STAR", "ID", "SEP"]);
    g.entry_rule("s");
    match rng.below(3) {
        0 => {
            g.prod("s", None, ss(&["l", "EQ", "r"]));
            g.prod("s", None, ss(&["r"]));
            g.prod("l", None, ss(&["STAR", "r"]));
            g.prod("l", None, ss(&["ID"]));
            g.prod("r", None, ss(&["l"]));
        }
        1 => {
            g.prod("s", None, ss(&["a", "EQ", "b", "STAR"]));
            g.prod("s", None, ss(&["b", "ID", "a", "SEP"]));
            g.prod("a", None, Pat::Eps);
            g.prod("b", None, Pat::Eps);
            g.prod("a", None, ss(&["STAR", "STAR"]));
        }
        _ => {
            g.prod("s", None, ss(&["STAR", "a", "EQ"]));
            g.prod("s", None, ss(&["a", "SEP"]));
            g.prod("s", None, ss(&["b", "EQ"]));
            g.prod("s", None, ss(&["STAR", "b", "SEP"]));
            g.prod("a", None, ss(&["ID"]));
            g.prod("b", None, ss(&["ID"]));
        }
    }
    g
}

fn nullable(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(2, 6);
    g.entry_rule("s");
    let mut v = vec![];
    for i in 0..n {
        let (nt, t) = (format!("x{}", i), format!("T{}", i));
        g.lit(&t, &format!("t{}", i));
        match rng.below(4) {
            0 => {
                g.prod(&nt, None, Pat::Eps);
                g.prod(&nt, None, ss(&[&t]));
            }
            1 => {
                g.prod(&nt, None, Pat::Eps);
                g.prod(&nt, None, ss(&[&nt, &t]));
            }
            2 => {
                g.prod(&nt, None, ss(&[&t, &nt]));
                g.prod(&nt, None, Pat::Eps);
            }
            _ => {
                let e = format!("z{}", i);
                g.prod(&e, None, Pat::Eps);
                g.prod(&nt, None, ss(&[&e, &t]));
                g.prod(&nt, None, ss(&[&e]));
            }
        }
        v.push(sym(&nt));
    }
    g.prod("s", None, Pat::Seq(v));
    if rng.pct(40) {
        toks(&mut g, &["LP", "RP"]);
        g.prod("s", None, ss(&["LP", "s", "RP"]));
    }
    g
}

/// The same piece under several operators.
fn operators(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    g.entry_rule("s");
    toks(&mut g, &["A", "B", "C", "END"]);
    let mut pieces = vec![ss(&["A"]), ss(&["A", "B"]), Pat::Alt(vec![sym("A"), sym("B")]), ss(&["item"]), Pat::Alt(vec![ss(&["A", "B"]), sym("C")]), Pat::Alt(vec![ss(&["A", "B", "C"]), ss(&["A", "B", "A"]), ss(&["A", "C"])])];
    rng.shuffle(&mut pieces);
    pieces.truncate(rng.range(1, 2));
    let one = |rng: &mut Rng, p: &Pat| {
        let b = Box::new(p.clone());
        match rng.below(6) {
            0 => p.clone(),
            1 | 2 => Pat::Star(b),
            3 => Pat::Opt(b),
            _ => Pat::Plus(b),
        }
    };
    let n = rng.range(3, 7);
    let mut v = vec![];
    for i in 0..n {
        let k = format!("K{}", i);
        g.lit(&k, &format!("k{}", i));
        let mut w = vec![sym(&k)];
        let m = if rng.pct(30) { 2 } else { 1 };
        for j in 0..m {
            if j > 0 {
                w.push(sym("END"));
            }
            let p = rng.pick(&pieces).clone();
            w.push(one(rng, &p));
        }
        if rng.pct(50) {
            w.push(sym("END"));
        }
        v.push(Pat::Seq(w));
    }
    let mut t = String::new();
    pat_syms(&mut Pat::Seq(v.clone()), &mut |x| {
        if let Pat::Sym(s) = x {
            t += s;
            t += " ";
        }
    });
    if t.contains("item ") {
        g.prod("item", None, ss(&["A", "B"]));
        g.prod("item", None, sym("C"));
    }
    match rng.below(3) {
        0 => g.prod("s", None, Pat::Alt(v)),
        1 => alts(rng, &mut g, "s", v),
        _ => {
            let mut w = vec![];
            for (i, p) in v.into_iter().enumerate() {
                let c = format!("c{}", i);
                g.prod(&c, None, p);
                w.push(sym(&c));
            }
            g.prod("s", None, if rng.pct(50) { Pat::Seq(w) } else { Pat::Alt(w) })
        }
    }
    g
}

fn optionals(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(3, 8);
    g.entry_rule("s");
    let mut v = vec![];
    for i in 0..n {
        let t = format!("T{}", i);
        g.lit(&t, &format!("t{}", i));
        let a = sym(&t);
        let more: Vec<Pat> = (0..2)
            .map(|k| {
                let u = format!("{}{}", ["U", "W"][k], i);
                sym(&u)
            })
            .collect();
        let (u, w) = (more[0].clone(), more[1].clone());
        let opt = |p: Pat| Pat::Opt(Box::new(p));
        let star = |p: Pat| Pat::Star(Box::new(p));
        let plus = |p: Pat| Pat::Plus(Box::new(p));
        let p = match rng.below(24) {
            0..=2 => a,
            3 | 4 => opt(a),
            5 | 6 => star(a),
            7 | 8 => plus(a),
            9 => star(Pat::Alt(vec![a, u])),
            10 => opt(Pat::Seq(vec![a, plus(u)])),
            11 | 12 => opt(plus(a)),
            13 => plus(Pat::Alt(vec![a, u, w])),
            14 => opt(Pat::Alt(vec![a, u])),
            15 => star(Pat::Seq(vec![a, opt(u)])),
            16 => plus(Pat::Seq(vec![a, star(u)])),
            17 => Pat::Alt(vec![Pat::Alt(vec![a, u]), w]),
            18 => Pat::Alt(vec![a, Pat::Alt(vec![u, Pat::Seq(vec![w.clone(), w])])]),
            19 => Pat::Seq(vec![Pat::Seq(vec![a, u]), w]),
            20 => opt(Pat::Seq(vec![a, opt(Pat::Seq(vec![u, opt(w)]))])),
            21 => Pat::Alt(vec![a, Pat::Eps]),
            22 => opt(Pat::Alt(vec![plus(a), Pat::Seq(vec![u, w])])),
            _ => plus(Pat::Seq(vec![plus(a), plus(u)])),
        };
        let mut used = vec![];
        pat_syms(&mut p.clone(), &mut |x| {
            if let Pat::Sym(s) = x {
                used.push(s.clone())
            }
        });
        for (k, n) in [("u", "U"), ("w", "W")] {
            if used.contains(&format!("{}{}", n, i)) {
                g.lit(&format!("{}{}", n, i), &format!("{}{}", k, i));
            }
        }
        v.push(p);
    }
    let body = Pat::Seq(v);
    if rng.pct(30) {
        toks(&mut g, &["SEP"]);
        g.prod("body", None, body);
        g.prod("s", None, Pat::Seq(vec![sym("body"), Pat::Star(Box::new(ss(&["SEP", "body"])))]));
    } else {
        g.prod("s", None, body);
    }
    g
}

fn brackets(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(1, 4);
    g.entry_rule("s");
    let form = rng.below(3);
    if form != 2 {
        g.prod("s", None, Pat::Eps);
    }
    for i in 0..n {
        let (o, c) = (format!("O{}", i), format!("C{}", i));
        g.lit(&o, &format!("({}", i));
        g.lit(&c, &format!("){}", i));
        match form {
            0 => g.prod("s", None, ss(&["s", &o, "s", &c])),
            1 => g.prod("s", None, ss(&[&o, "s", &c, "s"])),
            _ => {
                g.prod("s", None, ss(&[&o, &c]));
                g.prod("s", None, ss(&[&o, "s", &c]));
            }
        }
    }
    g
}

fn unbounded(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "C", "D"]);
    g.entry_rule("s");
    let n = rng.range(2, 4);
    let ends = ["B", "C", "D", "A"];
    for i in 0..n {
        let x = format!("x{}", i);
        g.prod("s", None, ss(&[&x, ends[i]]));
        match rng.below(3) {
            0 => {
                g.prod(&x, None, ss(&["A", &x]));
                g.prod(&x, None, ss(&["A"]));
            }
            1 => {
                g.prod(&x, None, ss(&[&x, "A"]));
                g.prod(&x, None, ss(&["A"]));
            }
            _ => {
                let y = format!("y{}", i);
                g.prod(&x, None, ss(&["A", &y]));
                g.prod(&x, None, ss(&["A"]));
                g.prod(&y, None, ss(&["A", &x]));
                g.prod(&y, None, ss(&["A"]));
            }
        }
    }
    g
}

fn palindrome(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B"]);
    g.entry_rule("p");
    g.prod("p", None, ss(&["A", "p", "A"]));
    g.prod("p", None, ss(&["B", "p", "B"]));
    match rng.below(3) {
        0 => g.prod("p", None, Pat::Eps),
        1 => {
            g.prod("p", None, ss(&["A"]));
            g.prod("p", None, ss(&["B"]));
        }
        _ => {
            toks(&mut g, &["M"]);
            g.prod("p", None, ss(&["M"]));
        }
    }
    g
}

fn ambiguous_expr(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["N", "PLUS", "MINUS", "LP", "RP"]);
    g.entry_rule("e");
    g.prod("e", None, ss(&["e", "PLUS", "e"]));
    if rng.pct(60) {
        g.prod("e", None, ss(&["MINUS", "e"]));
    }
    if rng.pct(40) {
        g.prod("e", None, ss(&["e", "MINUS", "e"]));
    }
    g.prod("e", None, ss(&["N"]));
    g.prod("e", None, ss(&["LP", "e", "RP"]));
    g
}

fn dangling(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["IF", "ELSE", "X", "SEMI"]);
    g.entry_rule("s");
    g.prod("s", None, ss(&["IF", "s"]));
    g.prod("s", None, ss(&["IF", "s", "ELSE", "s"]));
    g.prod("s", None, ss(&["X"]));
    if rng.pct(50) {
        g.prod("top", None, ss(&["top", "s", "SEMI"]));
        g.prod("top", None, ss(&["s", "SEMI"]));
        g.rules.retain(|r| !matches!(r, Rule::Entry(_)));
        g.entry_rule("top");
    }
    g
}

fn right_rec(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "C"]);
    g.entry_rule("s");
    let mid = rng.pct(50);
    g.prod("s", None, ss(&["A", "s"]));
    if mid {
        g.prod("s", None, ss(&["B", "t", "s"]));
        g.prod("t", None, ss(&["C", "t"]));
        g.prod("t", None, Pat::Eps);
    }
    g.prod("s", None, ss(&["C"]));
    g
}

fn deep(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(2, 5);
    g.entry_rule("d0");
    for i in 0..n {
        let (me, next) = (format!("d{}", i), format!("d{}", (i + 1) % n));
        let (o, c) = (format!("O{}", i), format!("C{}", i));
        g.lit(&o, &format!("o{}", i));
        g.lit(&c, &format!("c{}", i));
        let mut v = vec![sym(&o), sym(&next), sym(&c)];
        if rng.pct(40) {
            v.push(Pat::Opt(Box::new(sym(&me))));
        }
        g.prod(&me, None, Pat::Seq(v));
        if i == 0 || rng.pct(40) {
            g.lit(&format!("L{}", i), &format!("l{}", i));
            g.prod(&me, None, ss(&[&format!("L{}", i)]));
        }
    }
    g
}

fn shared_prefix(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(3, 6);
    let t: Vec<String> = (0..n).map(|i| format!("T{}", i)).collect();
    for x in &t {
        g.lit(x, &x.to_ascii_lowercase());
    }
    g.entry_rule("s");
    let k = rng.range(2, 6);
    for i in 0..k {
        let mut v: Vec<Pat> = (0..rng.range(1, 4)).map(|j| sym(&t[j % n])).collect();
        v.push(sym(&format!("z{}", i)));
        g.prod("s", None, Pat::Seq(v));
        let l = rng.range(1, 3);
        g.prod(&format!("z{}", i), None, Pat::Seq((0..l).map(|_| sym(rng.pick(&t[..]))).collect()));
        if rng.pct(40) {
            g.prod(&format!("z{}", i), None, ss(&[&t[n - 1], "s"]));
        }
    }
    g
}

fn lr0_fam(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "C", "LP", "RP", "SEMI"]);
    g.entry_rule("s");
    match rng.below(5) {
        0 => {
            g.prod("s", None, ss(&["e", "SEMI"]));
            g.prod("e", None, ss(&["e", "A", "t"]));
            g.prod("e", None, ss(&["t"]));
            g.prod("t", None, ss(&["LP", "e", "RP"]));
            g.prod("t", None, ss(&["B"]));
        }
        1 => {
            g.prod("s", None, ss(&["LP", "s", "RP"]));
            g.prod("s", None, ss(&["A"]));
            g.prod("s", None, ss(&["B", "x"]));
            g.prod("x", None, ss(&["C", "x"]));
            g.prod("x", None, ss(&["SEMI"]));
        }
        2 => {
            g.prod("s", None, ss(&["LP", "l", "RP"]));
            g.prod("l", None, ss(&["l", "i"]));
            g.prod("l", None, if rng.pct(50) { Pat::Eps } else { ss(&["i"]) });
            g.prod("i", None, ss(&["A"]));
            g.prod("i", None, ss(&["s"]));
            g.prod("i", None, ss(&["B", "C"]));
        }
        3 => {
            g.prod("s", None, ss(&["x", "y", "SEMI"]));
            g.prod("x", None, Pat::Eps);
            g.prod("y", None, ss(&["A", "y"]));
            g.prod("y", None, ss(&["B", "x", "C"]));
        }
        _ => {
            g.prod("s", None, ss(&["s", "A", "s2"]));
            g.prod("s", None, ss(&["s2", "B"]));
            g.prod("s2", None, ss(&["LP", "C", "RP"]));
            g.prod("s2", None, ss(&["LP", "s", "SEMI"]));
            g.rules.push(Rule::Prod(Prod { name: "top".into(), tag: None, pat: ss(&["s", "SEMI"]) }));
            g.rules.retain(|r| !matches!(r, Rule::Entry(_)));
            g.entry_rule("top");
        }
    }
    g
}

/// Something that is reduced before, and something that follows, the whole grammar.
fn surround(rng: &mut Rng, g: &mut Gram) {
    let Some(old) = g.rules.iter().find_map(|r| if let Rule::Entry(e) = r { Some(e.clone()) } else { None }) else { return };
    g.rules.retain(|r| !matches!(r, Rule::Entry(_)));
    toks(g, &["HEAD", "TAIL", "JOIN"]);
    g.entry_rule("all0");
    let mut v = vec![];
    if rng.pct(70) {
        v.push(sym("head0"));
        match rng.below(4) {
            0 => g.prod("head0", None, ss(&["HEAD"])),
            1 => {
                g.prod("head0", None, ss(&["HEAD"]));
                g.prod("head0", None, ss(&["head0", "JOIN", "HEAD"]));
            }
            2 => {
                g.prod("head0", None, ss(&["HEAD", "JOIN", "head0"]));
                g.prod("head0", None, ss(&["HEAD"]));
            }
            _ => g.prod("head0", None, Pat::Plus(Box::new(sym("HEAD")))),
        }
    }
    v.push(sym(&old));
    match rng.below(4) {
        0 => {}
        1 => v.push(Pat::Opt(Box::new(sym("TAIL")))),
        _ => v.push(sym("TAIL")),
    }
    g.prod("all0", None, Pat::Seq(v));
    if rng.pct(30) {
        g.prod("all0", None, ss(&["all0", "JOIN", &old, "TAIL"]));
    }
}

/// Layers of rules over mostly fresh tokens: deep, nullable and shared in many ways, yet often deterministic.
pub fn layered(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    let n = rng.range(3, 9);
    let mut fresh = 0;
    let mut tok = |g: &mut Gram, rng: &mut Rng| {
        if fresh > 2 && rng.pct(8) {
            return format!("T{}", rng.below(fresh));
        }
        let t = format!("T{}", fresh);
        g.lit(&t, &format!("t{}", fresh));
        fresh += 1;
        t
    };
    let (eps, wrap) = (rng.range(5, 60), rng.range(0, 40));
    let (long, lead) = (rng.range(2, 6), rng.range(40, 98));
    g.entry_rule("m0");
    for i in 0..n {
        let me = format!("m{}", i);
        let kinds = if i == 0 { 1 } else { rng.range(1, 3) };
        for k in 0..kinds {
            let mut v = vec![];
            if i > 0 && rng.pct(lead) {
                v.push(sym(&tok(&mut g, rng)));
            }
            for at in 0..rng.range(1, long) {
                if i + 1 < n && (at == 0 && k == 0 || rng.pct(60)) {
                    let j = if at == 0 && k == 0 { i + 1 } else if rng.pct(60) { rng.range(i + 1, (i + 3).min(n - 1)) } else { rng.range(i + 1, n - 1) };
                    let x = sym(&format!("m{}", j));
                    v.push(if rng.pct(wrap) {
                        match rng.below(5) {
                            0 => Pat::Opt(Box::new(x)),
                            1 => Pat::Star(Box::new(x)),
                            2 => Pat::Plus(Box::new(x)),
                            3 => Pat::Opt(Box::new(Pat::Plus(Box::new(x)))),
                            _ => Pat::Star(Box::new(Pat::Seq(vec![sym(&tok(&mut g, rng)), x]))),
                        }
                    } else {
                        x
                    });
                } else if rng.pct(70) {
                    v.push(sym(&tok(&mut g, rng)));
                } else if rng.pct(30) && i > 0 {
                    // back to an earlier layer, in brackets of its own
                    let (o, c) = (tok(&mut g, rng), tok(&mut g, rng));
                    v.extend([sym(&o), sym(&format!("m{}", rng.below(i))), sym(&c)]);
                }
            }
            if v.is_empty() {
                v.push(sym(&tok(&mut g, rng)));
            }
            if k == 1 && rng.pct(15) {
                v.insert(0, sym(&me));
            }
            g.prod(&me, None, Pat::Seq(v));
        }
        if i > 0 && rng.pct(eps) {
            g.prod(&me, None, Pat::Eps);
        }
    }
    g
}

/// States with equal cores but different lookaheads, mergeable without conflict.
fn same_core(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "X", "Y", "N"]);
    g.entry_rule("s");
    g.prod("s", None, ss(&["A", "e", "X"]));
    g.prod("s", None, ss(&["B", "e", "Y"]));
    if rng.pct(50) {
        g.prod("s", None, ss(&["A", "f", "Y"]));
    }
    g.prod("e", None, ss(&["N", "f"]));
    g.prod("e", None, ss(&["f", "N"]));
    g.prod("f", None, ss(&["N", "N"]));
    if rng.pct(50) {
        g.prod("f", None, ss(&["A", "s", "B"]));
    }
    g
}

/// Runs of parts that can all be missing, after something whose end only the next token shows.
fn modifiers(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["NAME", "DOT", "END", "SEP"]);
    g.entry_rule("unit");
    match rng.below(3) {
        0 => g.prod("unit", None, ss(&["decl"])),
        1 => g.prod("unit", None, Pat::Star(Box::new(sym("decl")))),
        _ => {
            g.prod("unit", None, ss(&["decl"]));
            g.prod("unit", None, ss(&["unit", "SEP", "decl"]));
        }
    }
    // the head, which ends where its lookahead says so
    match rng.below(4) {
        0 => g.prod("head", None, ss(&["NAME"])),
        1 => {
            g.prod("head", None, ss(&["NAME"]));
            g.prod("head", None, ss(&["head", "DOT", "NAME"]));
        }
        2 => {
            g.prod("head", None, ss(&["NAME", "path"]));
            g.prod("path", None, Pat::Eps);
            g.prod("path", None, ss(&["DOT", "NAME", "path"]));
        }
        _ => g.prod("head", None, Pat::Plus(Box::new(sym("NAME")))),
    }
    // a tree of parts, each of which can be missing
    let mut fresh = 0;
    fn part(rng: &mut Rng, g: &mut Gram, fresh: &mut usize, deep: usize) -> Pat {
        let me = *fresh;
        *fresh += 1;
        let (t, n) = (format!("M{}", me), format!("mod{}", me));
        if deep > 0 && rng.pct(40) {
            let k = rng.range(2, 5);
            let v: Vec<Pat> = (0..k).map(|_| part(rng, g, fresh, deep - 1)).collect();
            g.prod(&n, None, Pat::Seq(v));
            return sym(&n);
        }
        g.lit(&t, &format!("<m{}>", me));
        match rng.below(6) {
            0 if rng.pct(30) => Pat::Opt(Box::new(Pat::Plus(Box::new(sym(&t))))),
            0 => Pat::Opt(Box::new(sym(&t))),
            1 => Pat::Star(Box::new(sym(&t))),
            2 => {
                g.prod(&n, None, Pat::Star(Box::new(Pat::Seq(vec![sym(&t), sym("NAME")]))));
                sym(&n)
            }
            3 => {
                g.prod(&n, None, Pat::Eps);
                g.prod(&n, None, ss(&[&t, &n]));
                sym(&n)
            }
            _ => {
                g.prod(&n, None, ss(&[&t]));
                g.prod(&n, None, Pat::Eps);
                sym(&n)
            }
        }
    }
    let k = rng.range(1, 5);
    let run: Vec<Pat> = (0..k).map(|_| part(rng, &mut g, &mut fresh, 2)).collect();
    let named = rng.pct(50);
    if named {
        g.prod("run", None, Pat::Seq(run.clone()));
    }
    let mut v = vec![sym("head")];
    if named {
        v.push(sym("run"));
    } else {
        v.extend(run);
    }
    if rng.pct(30) {
        v.push(Pat::Opt(Box::new(Pat::Seq(vec![sym("SEP"), sym("head")]))));
    }
    if rng.pct(75) {
        v.push(sym("END"));
    }
    g.prod("decl", None, Pat::Seq(v));
    g
}

fn mixed_ops(rng: &mut Rng) -> Gram {
    let mut g = Gram::default();
    toks(&mut g, &["A", "B", "C", "D", "E"]);
    g.entry_rule("m");
    let t = ["A", "B", "C", "D", "E", "k"];
    fn p(rng: &mut Rng, t: &[&str], d: usize) -> Pat {
        if d == 0 {
            return sym(rng.pick(t));
        }
        match rng.below(7) {
            0 => Pat::Opt(Box::new(p(rng, t, d - 1))),
            1 => Pat::Star(Box::new(p(rng, t, d - 1))),
            2 => Pat::Plus(Box::new(p(rng, t, d - 1))),
            3 => Pat::Alt((0..rng.range(2, 3)).map(|_| p(rng, t, d - 1)).collect()),
            4 | 5 => Pat::Seq((0..rng.range(2, 3)).map(|_| p(rng, t, d - 1)).collect()),
            _ => sym(rng.pick(t)),
        }
    }
    for _ in 0..rng.range(1, 2) {
        let d = rng.range(1, 3);
        g.prod("m", None, p(rng, &t, d));
    }
    g.prod("k", None, ss(&["D", "E"]));
    if rng.pct(50) {
        g.prod("k", None, ss(&["E", "A"]));
    }
    g
}

fn random(rng: &mut Rng, ebnf: bool) -> Gram {
    let mut g = Gram::default();
    let nt = rng.range(1, 6);
    let tk = rng.range(1, 7);
    let tn: Vec<String> = (0..tk).map(|i| ((b'A' + i as u8) as char).to_string()).collect();
    let nn: Vec<String> = (0..nt).map(|i| format!("n{}", i)).collect();
    for t in &tn {
        g.lit(t, &t.to_ascii_lowercase());
    }
    g.entry_rule(&nn[0]);
    let eps = *rng.pick(&[0, 8, 20]);
    for (i, n) in nn.iter().enumerate() {
        for a in 0..rng.range(1, 4) {
            let len = if rng.pct(eps) { 0 } else { rng.range(1, 4) };
            let mut v = vec![];
            for _ in 0..len {
                let s = if rng.pct(if a == 0 { 75 } else { 55 }) {
                    sym(rng.pick(&tn))
                } else if rng.pct(60) && i + 1 < nt {
                    sym(&nn[rng.range(i + 1, nt - 1)])
                } else {
                    sym(rng.pick(&nn))
                };
                v.push(if ebnf && rng.pct(30) {
                    match rng.below(4) {
                        0 => Pat::Opt(Box::new(s)),
                        1 => Pat::Star(Box::new(s)),
                        2 => Pat::Plus(Box::new(s)),
                        _ => Pat::Alt(vec![s, Pat::Seq(vec![sym(rng.pick(&tn)), sym(rng.pick(&tn))])]),
                    }
                } else {
                    s
                });
            }
            let p = match v.len() {
                0 => Pat::Eps,
                1 => v.pop().unwrap(),
                _ => Pat::Seq(v),
            };
            g.prod(n, None, p);
        }
    }
    g
}

/// start -> parts joined by fresh tokens
fn compose(rng: &mut Rng, k: usize) -> (Gram, String) {
    let mut g = Gram::default();
    let mut starts = vec![];
    let mut o = String::from("compose");
    for i in 0..k {
        let (name, f) = rng.pick(FAMILIES);
        let mut p = if rng.pct(70) { f(rng) } else { random(rng, true) };
        o.push_str(&format!("-{}", name));
        let all: Vec<String> = names(&p);
        for n in all {
            let new = if n.chars().next().unwrap().is_ascii_uppercase() {
                format!("P{}_{}", i, n)
            } else {
                format!("p{}_{}", i, n)
            };
            replace_name(&mut p, &n, &new);
        }
        for r in p.rules {
            match r {
                Rule::Entry(n) => starts.push(n),
                Rule::Tok(mut t) => {
                    if let TokBody::Lit(s) = &mut t.body {
                        *s = format!("{}{}", i, s);
                    }
                    g.rules.push(Rule::Tok(t))
                }
                r => g.rules.push(r),
            }
        }
    }
    g.entry_rule("main");
    if rng.pct(50) {
        for (i, s) in starts.iter().enumerate() {
            let t = format!("SEL{}", i);
            g.lit(&t, &format!("sel{}", i));
            g.prod("main", None, ss(&[&t, s]));
        }
    } else {
        g.lit("GLUE", "glue");
        let mut v = vec![];
        for (i, s) in starts.iter().enumerate() {
            if i > 0 {
                v.push(sym("GLUE"));
            }
            v.push(sym(s));
        }
        g.prod("main", None, Pat::Seq(v));
    }
    (g, o)
}

pub fn names(g: &Gram) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for r in &g.rules {
        let n = match r {
            Rule::Tok(t) => &t.name,
            Rule::Prod(p) => &p.name,
            Rule::Entry(_) => continue,
        };
        if !v.contains(n) {
            v.push(n.clone());
        }
    }
    v
}

fn pat_syms<'a>(p: &'a mut Pat, f: &mut dyn FnMut(&mut Pat)) {
    f(p);
    match p {
        Pat::Seq(v) | Pat::Alt(v) => v.iter_mut().for_each(|e| pat_syms(e, f)),
        Pat::Opt(e) | Pat::Star(e) | Pat::Plus(e) => pat_syms(e, f),
        _ => {}
    }
}

pub fn replace_name(g: &mut Gram, old: &str, new: &str) {
    for r in &mut g.rules {
        match r {
            Rule::Tok(t) => {
                if t.name == old {
                    t.name = new.into()
                }
            }
            Rule::Entry(n) => {
                if n == old {
                    *n = new.into()
                }
            }
            Rule::Prod(p) => {
                if p.name == old {
                    p.name = new.into()
                }
                pat_syms(&mut p.pat, &mut |x| {
                    if let Pat::Sym(s) = x {
                        if s == old {
                            *s = new.into()
                        }
                    }
                });
            }
        }
    }
}

/// Small random changes that keep the grammar well-formed.
fn mutate(rng: &mut Rng, g: &mut Gram) {
    let nts: Vec<String> = g.prods().iter().map(|p| p.name.clone()).collect();
    let tks: Vec<String> = g.tokens().iter().map(|p| p.name.clone()).collect();
    for _ in 0..rng.range(1, 3) {
        let idx: Vec<usize> = (0..g.rules.len()).filter(|i| matches!(g.rules[*i], Rule::Prod(_))).collect();
        let i = *rng.pick(&idx);
        let new = if rng.pct(60) { rng.pick(&tks).clone() } else { rng.pick(&nts).clone() };
        let op = rng.below(5);
        if op == 0 {
            // another alternative
            let name = rng.pick(&nts).clone();
            let p = if rng.pct(25) { Pat::Eps } else { Pat::Seq(vec![sym(rng.pick(&tks)), sym(&new)]) };
            g.prod(&name, None, p);
            continue;
        }
        if let Rule::Prod(p) = &mut g.rules[i] {
            let mut count = 0;
            pat_syms(&mut p.pat, &mut |x| {
                if let Pat::Sym(_) = x {
                    count += 1
                }
            });
            if count == 0 {
                continue;
            }
            let target = rng.below(count);
            let mut k = 0;
            pat_syms(&mut p.pat, &mut |x| {
                if let Pat::Sym(s) = x {
                    if k == target {
                        let s = s.clone();
                        *x = match op {
                            1 => Pat::Sym(new.clone()),
                            2 => Pat::Opt(Box::new(Pat::Sym(s))),
                            3 => Pat::Seq(vec![Pat::Sym(s), Pat::Sym(new.clone())]),
                            _ => Pat::Star(Box::new(Pat::Sym(s))),
                        };
                        k += 1;
                        // children of the replacement must not be visited as targets
                        k += 1000;
                        return;
                    }
                    k += 1;
                }
            });
        }
    }
}

fn tag(rng: &mut Rng, g: &mut Gram) {
    let words = ["first", "second", "Third", "add", "sub", "empty_case", "x9", "call"];
    let mut k = rng.below(words.len());
    for r in &mut g.rules {
        if let Rule::Prod(p) = r {
            if rng.pct(45) {
                let w = words[k % words.len()];
                p.tag = Some(if k < words.len() { w.into() } else { format!("{}{}", w, k) });
                k += 1;
            }
        }
    }
}

/// Tokens no rule uses, so that they are never part of a sentence.
fn extra_tokens(rng: &mut Rng, g: &mut Gram) {
    for i in 0..rng.range(1, 3) {
        let name = format!("UNUSED{}", i);
        let at = rng.below(g.rules.len() + 1);
        g.rules.insert(at, Rule::Tok(Tok { name, prec: None, body: TokBody::Lit(format!("unused{}", i)) }));
    }
}

fn rename(rng: &mut Rng, g: &mut Gram) {
    let nt_words = ["expr", "type_name", "match", "Self", "fn_decl", "loop", "value", "class", "operator", "Visitor", "parser", "int", "state", "result", "data", "shift", "none", "a__b", "list_", "x1__y2_", "e___"];
    let tk_words = ["PLUS", "KW_FN", "ident", "String", "CLOSE_PAREN", "EQ_EQ", "Number", "NULL_TOKEN", "TRUE", "END", "SHIFT", "NONE", "INT", "Error", "OK", "STATE", "KW__FN", "EOL_", "A__1"];
    let all = names(g);
    let mut used: Vec<String> = all.iter().map(|s| s.to_ascii_lowercase()).collect();
    let prods: Vec<String> = g.prods().iter().map(|p| p.name.clone()).collect();
    for n in all {
        if rng.pct(40) {
            let w = if prods.contains(&n) { *rng.pick(&nt_words) } else { *rng.pick(&tk_words) };
            if !used.contains(&w.to_ascii_lowercase()) {
                used.push(w.to_ascii_lowercase());
                replace_name(g, &n, w);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// sentences

/// A sentence of about `target` tokens where the grammar has such.
pub fn long_sentence(cfg: &Cfg, best: &[usize], rng: &mut Rng, target: usize) -> Vec<usize> {
    // non-terminals that lead to a loop
    let n = cfg.by_nt.len();
    let mut reach = vec![vec![false; n]; n];
    for (a, rs) in cfg.by_nt.iter().enumerate() {
        for r in rs {
            for x in &cfg.rules[*r].rhs {
                if let Sym::N(b) = x {
                    reach[a][*b] = true;
                }
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    let loops: Vec<bool> = (0..n).map(|i| (0..n).any(|j| (i == j || reach[i][j]) && reach[j][j])).collect();
    let goes_on: Vec<Vec<usize>> = (0..n)
        .map(|a| cfg.by_nt[a].iter().copied().filter(|r| cfg.rules[*r].rhs.iter().any(|x| matches!(x, Sym::N(b) if loops[*b] && (reach[*b][a] || !reach[a][a])))).collect())
        .collect();
    let mut out = vec![];
    let mut stack = vec![Sym::N(cfg.start)];
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => out.push(t),
            Sym::N(a) => {
                steps += 1;
                let enough = out.len() + stack.len() >= target || steps > 40 * (target + 4);
                let r = if enough {
                    best[a]
                } else if goes_on[a].is_empty() || rng.pct(3) {
                    *rng.pick(&cfg.by_nt[a])
                } else {
                    *rng.pick(&goes_on[a])
                };
                for x in cfg.rules[r].rhs.iter().rev() {
                    stack.push(*x);
                }
            }
        }
    }
    out
}

/// A random sentence; `budget` steers its length.
pub fn sentence(cfg: &Cfg, best: &[usize], rng: &mut Rng, budget: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut stack = vec![Sym::N(cfg.start)];
    let mut fuel = budget as isize;
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        match s {
            Sym::T(t) => {
                out.push(t);
                fuel -= 1;
            }
            Sym::N(n) => {
                steps += 1;
                let pressure = fuel - stack.len() as isize;
                let r = if pressure <= 0 || steps > 40 * (budget + 4) {
                    best[n]
                } else {
                    // two draws, keep the longer one when there is much budget left
                    let a = *rng.pick(&cfg.by_nt[n]);
                    let b = *rng.pick(&cfg.by_nt[n]);
                    if pressure > budget as isize / 2 && cfg.rules[b].rhs.len() > cfg.rules[a].rhs.len() {
                        b
                    } else {
                        a
                    }
                };
                for x in cfg.rules[r].rhs.iter().rev() {
                    stack.push(*x);
                }
            }
        }
    }
    out
}
