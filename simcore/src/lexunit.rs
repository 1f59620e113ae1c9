//! Token sets and the glue that connects generated lexers (and lexer + parser pipelines) to the
//! simulator.
use crate::build::*;
use crate::cfg::{rust_token_name, Cfg};
use crate::frontend;
use crate::gen::{self, Class, Made};
use crate::gram::*;
use crate::lexref::LexModel;
use crate::re::{self, Re};
use crate::rng::Rng;
use std::fmt::Write;
use std::path::PathBuf;
use std::sync::Mutex;

pub struct LexUnit {
    pub name: String,
    pub lang: &'static str,
    pub class: Class,
    pub text: String,
    pub cfg: Cfg,
    pub model: Mutex<LexModel>,
    pub bounds: Vec<char>,
    /// tokens the pipeline's token function skips
    pub skip: Vec<bool>,
    /// pipelines only
    pub made: Option<Made>,
    pub best: Vec<usize>,
}

impl LexUnit {
    pub fn new(name: String, lang: &'static str, class: Class, text: String, pipe: bool) -> Result<LexUnit, String> {
        LexUnit::with_limit(name, lang, class, text, pipe, 2000)
    }

    /// `limit`: how many automaton states the token rules may have.
    pub fn with_limit(name: String, lang: &'static str, class: Class, text: String, pipe: bool, limit: usize) -> Result<LexUnit, String> {
        let rs = frontend::parse(&text)?;
        let mut m = LexModel::new(&rs)?;
        if m.matches_empty() {
            return Err("a token matches the empty text".into());
        }
        match m.has_ties(limit) {
            Some(false) => {}
            _ => return Err("ties or too big".into()),
        }
        let bounds = m.boundaries().into_iter().filter_map(char::from_u32).collect();
        let made = if pipe { Some(gen::examine(&text, class, 5000)?) } else { None };
        let cfg = match &made {
            Some(m) => Cfg::from_text(&m.text)?,
            None => Cfg::from_text(&text)?,
        };
        if !cfg.names_ok() {
            return Err("names".into());
        }
        let skip = cfg.tokens.iter().map(|t| pipe && t.starts_with("SKIP")).collect();
        let best = if pipe { crate::earley::shortest(&cfg) } else { vec![] };
        Ok(LexUnit { name, lang, class, text, cfg, model: Mutex::new(m), bounds, skip, made, best })
    }
    pub fn terms(&self) -> usize {
        self.cfg.tokens.len()
    }
    pub fn show(&self, t: usize) -> String {
        self.cfg.tokens.get(t).cloned().unwrap_or("<end>".into())
    }
}

const WORDS: &[&str] = &[
    "if", "iff", "else", "elseif", "while", "for", "forall", "in", "int", "==", "=", "<", "<=", "<<", "<<=", "->", "-", "--", "+", "++",
    "/*", "*/", "//", "(", ")", "{", "}", "é", "éé", "中文", "中", "😀", "::", ":", ":=", "...", ".", "..", "a", "ab", "abc", "abcd", "b", "ba",
    "x", "0x", "é中😀", "true", "truely", "~", "^", "$", "[", "]", "?", "|", "'", "\\\\", " ", "\t", "#", "\u{7f}", "ß", "Ω", "0", "00", "1",
];
const RES: &[&str] = &[
    "[a-z]+", "[a-zA-Z_][a-zA-Z0-9_]*", "[0-9]+", "0|[1-9][0-9]*", "[0-9]+\\.[0-9]+", "[ \\t]+", "\\n", "\\r?\\n", "\\s+", "//[^\\n]*",
    "/\\*([^*]|\\*+[^*\\/])*\\*+\\/", "'([^'\\\\]|\\\\.)*'", "[+-]?[0-9]+([eE][+-]?[0-9]+)?", "[é-ü]+", "[一-龥]+", "[^a-z]", ".", "..",
    "a{3}", "(ab){2,3}", "(a|b)*c", "x{2,}", "[^\\x00-\\x7f]", "[\\x{10000}-\\x{10ffff}]", "\\x00", "\\x00+", "(0x)?[0-9a-f]{2}", "#[0-9a-fA-F]{6}", "#[0-9]{2,6}", "[0-9]{1,12}", "(ab){0,5}c", "x{3,40}y",
    "a(b(c)?)?", "(foo|foobar)(bar)?", "[a-c]{2}|[b-d]{3}", "\\\\.", "\\\"[^\\\"]*\\\"", "(a+b+)+", "-(-)?>", "(é|中)+", "[^ ]+ ", "a.c",
];

/// Texts inside a string token must not contain quotes or line ends; backslashes come in pairs.
fn literal(rng: &mut Rng) -> String {
    if rng.pct(75) {
        return rng.pick(WORDS).to_string();
    }
    let n = rng.range(1, 5);
    let mut s = String::new();
    while s.chars().count() < n {
        let c = *rng.pick(re::ALPHA);
        if c == '"' || c == '\n' || c == '\\' {
            continue;
        }
        s.push(c);
    }
    s
}

/// A class of many characters or ranges that do not touch.
fn comb(rng: &mut Rng) -> String {
    let n = *rng.pick(&[5usize, 20, 33, 65, 80, 130]);
    let (mut at, step, wide) = (*rng.pick(&[0x21u32, 0x41, 0x100, 0x4e00, 0x1f300]), *rng.pick(&[2u32, 3, 7]), rng.pct(30));
    let mut o = String::from(if rng.pct(15) { "[^" } else { "[" });
    for _ in 0..n {
        o.push_str(&format!("\\x{{{:x}}}", at));
        if wide && step > 2 {
            o.push_str(&format!("-\\x{{{:x}}}", at + 1));
        }
        at += step;
    }
    o.push(']');
    if rng.pct(50) {
        o.push_str(*rng.pick(&["+", "{2}", "{1,3}", "*x"]));
    }
    o
}

fn regex(rng: &mut Rng) -> String {
    if rng.pct(4) {
        return comb(rng);
    }
    if rng.pct(45) {
        let s = rng.pick(RES).to_string();
        // the reference understands no class escapes
        return s.replace("\\s", "[ \\t\\n\\r]").replace("[[", "[").replace("]]", "]").replace('/', "\\/").replace("\\\\/", "\\/");
    }
    let small = rng.pct(60);
    let d = rng.range(1, 3);
    loop {
        let r = re::random(rng, d, small);
        // the front end takes these for something else (C19 in known-findings.txt)
        if re::across_gap(&r).is_none() {
            return re::print(&r);
        }
    }
}

/// Bodies and precedences of tokens that all match one word, with precedences that are equal or close
/// to each other (or would be if bytes were counted, or numbers cut).
pub fn rivals(rng: &mut Rng) -> Vec<(Option<u16>, TokBody)> {
    let pool: Vec<char> = rng.pick(&["ab", "a", "aé", "é€", "中é😀", "abc0", "0"]).chars().collect();
    let n = *rng.pick(&[1usize, 1, 2, 2, 3, 4, 5, 6, 8]);
    let mut w: Vec<char> = vec![];
    while w.len() < n {
        let c = *rng.pick(&pool);
        for _ in 0..*rng.pick(&[1, 1, 2, 4]) {
            w.push(c);
        }
    }
    w.truncate(n);
    let class = |part: &[char]| {
        let mut c: Vec<char> = part.to_vec();
        c.sort();
        c.dedup();
        format!("[{}]", c.iter().collect::<String>())
    };
    let mut v: Vec<(Option<u16>, TokBody)> = vec![];
    for k in 0..rng.range(2, 3) {
        let body = if rng.pct(if k == 0 { 50 } else { 20 }) {
            TokBody::Lit(w.iter().collect())
        } else {
            let mut o = String::new();
            let mut i = 0;
            while i < n {
                let len = rng.range(1, n - i);
                let part = &w[i..i + len];
                let all: String = part.iter().collect();
                match rng.below(8) {
                    0 => o.push_str(&all),
                    1 => o.push_str(&format!("{}{{{}}}", class(part), len)),
                    2 => o.push_str(&format!("{}{{{},{}}}", class(part), len, len + rng.range(1, 3))),
                    3 => o.push_str(&format!("{}{{{},}}", class(part), rng.range(1, len))),
                    4 => o.push_str(&format!("{}+", class(part))),
                    5 => o.push_str(&format!("({}|{}x)", all, all)),
                    6 => o.push_str(&format!(".{{{}}}", len)),
                    _ => o.push_str(&format!("({}|b{})", class(part).repeat(len), part[0])),
                }
                i += len;
            }
            if rng.pct(25) {
                o.push_str(*rng.pick(&["x?", "[a-z]*", "y{0,2}"]));
            }
            TokBody::Re(o)
        };
        let mut prec = None;
        if rng.pct(45) {
            let t = Tok { name: String::new(), prec: None, body: v.first().map_or(body.clone(), |f| f.1.clone()) };
            let of = v.first().and_then(|f| f.0).map(|p| p as i64);
            let own = crate::lexref::tok_re(&t).map_or(1, |r| crate::lexref::precedence(&t, &r) as i64);
            let bytes: i64 = w.iter().map(|c| c.len_utf8() as i64).sum();
            let near = *rng.pick(&[of.unwrap_or(own), own, own, own, n as i64, 2 * n as i64, bytes, 2 * bytes]);
            prec = Some((near + *rng.pick(&[-1, 0, 0, 0, 1, 1, 2, 256])).clamp(0, 65535) as u16);
        }
        v.push((prec, body));
    }
    v
}

fn token_name(rng: &mut Rng, i: usize) -> String {
    match rng.below(6) {
        0 => format!("t{}", i),
        1 => format!("TOK_{}", i),
        2 => format!("Kind{}x", i),
        3 => format!("a_b{}_C", i),
        _ => format!("T{}", i),
    }
}

/// Token rules whose overlaps are all decided by precedence.
pub fn token_set(rng: &mut Rng, lang: &'static str, k: usize) -> LexUnit {
    loop {
        let mut g = Gram::default();
        let n = match rng.below(10) {
            0 => 1,
            1..=6 => rng.range(2, 7),
            _ => rng.range(6, 16),
        };
        let precs = rng.pct(50);
        let mut first = String::new();
        for i in 0..n {
            let lit = rng.pct(45);
            let body = if lit { TokBody::Lit(literal(rng)) } else { TokBody::Re(regex(rng)) };
            let prec = if precs && rng.pct(40) { Some(*rng.pick(&[0u16, 1, 2, 3, 5, 9, 100, 65535])) } else { None };
            let name = token_name(rng, i);
            if i == 0 {
                first = name.clone();
            }
            g.rules.push(Rule::Tok(Tok { name, prec, body }));
        }
        if rng.pct(30) {
            for (i, (prec, body)) in rivals(rng).into_iter().enumerate() {
                g.rules.push(Rule::Tok(Tok { name: token_name(rng, n + i), prec, body }));
            }
        }
        if rng.pct(50) {
            rng.shuffle(&mut g.rules);
        }
        g.entry_rule("start");
        g.prod("start", None, Pat::Sym(first));
        let text = g.text();
        if let Ok(u) = LexUnit::with_limit(format!("{}/tokens-{}", lang, k), lang, Class::Lr1, text, false, 250) {
            return u;
        }
    }
}

/// Token sets with more states, tokens or alphabet symbols than fit a byte.
pub fn large_sets(lang: &'static str) -> Vec<LexUnit> {
    let mut words = Gram::default();
    let mut rng = Rng::new(77);
    let mut seen = std::collections::BTreeSet::new();
    while seen.len() < 120 {
        let n = rng.range(2, 7);
        let w: String = (0..n).map(|_| (b'a' + rng.below(12) as u8) as char).collect();
        if seen.insert(w.clone()) {
            words.lit(&format!("K{}", seen.len()), &w);
        }
    }
    words.rules.push(Rule::Tok(Tok { name: "ID".into(), prec: None, body: TokBody::Re("[a-z]+".into()) }));
    words.rules.push(Rule::Tok(Tok { name: "SP".into(), prec: None, body: TokBody::Re(" +".into()) }));
    let mut chars = Gram::default();
    for i in 0..300u32 {
        chars.lit(&format!("C{}", i), &char::from_u32(0x100 + i * 37).unwrap().to_string());
    }
    chars.rules.push(Rule::Tok(Tok { name: "HAN".into(), prec: None, body: TokBody::Re("[\\x{4e00}-\\x{9fff}]+".into()) }));
    let mut reps = Gram::default();
    reps.rules.push(Rule::Tok(Tok { name: "LONG".into(), prec: None, body: TokBody::Re("x{280}y".into()) }));
    reps.rules.push(Rule::Tok(Tok { name: "D".into(), prec: None, body: TokBody::Re("[0-9]{2,45}".into()) }));
    reps.rules.push(Rule::Tok(Tok { name: "X".into(), prec: None, body: TokBody::Re("x".into()) }));
    let mut combs = Gram::default();
    let comb: String = (0..150).map(|i| format!("\\x{{{:x}}}", 0x400 + 2 * i)).collect();
    combs.rules.push(Rule::Tok(Tok { name: "EVEN".into(), prec: None, body: TokBody::Re(format!("[{}]+", comb)) }));
    combs.rules.push(Rule::Tok(Tok { name: "ODD".into(), prec: Some(0), body: TokBody::Re(format!("[^{} ]+x", comb)) }));
    combs.rules.push(Rule::Tok(Tok { name: "SP".into(), prec: None, body: TokBody::Re(" +".into()) }));
    let mut v = vec![];
    for (name, mut g, first) in [("keywords", words, "ID"), ("characters", chars, "HAN"), ("repetitions", reps, "D"), ("combs", combs, "EVEN")] {
        g.entry_rule("start");
        g.prod("start", None, Pat::Sym(first.into()));
        v.push(LexUnit::new(format!("{}/{}", lang, name), lang, Class::Lr1, g.text(), false).unwrap_or_else(|e| crate::build::die(&format!("{}: {}", name, e))));
    }
    v
}

const SPACES: &[&str] = &["[ \\t\\n]+", "[ ]+", "[ \\t\\r\\n]+", "[ \\n]", "[ \\n\\x00]+", "(([ ])|\\n)+"];
const COMMENTS: &[&str] = &["\\/\\/[^\\n]*", "#[^\\n]*", "\\/\\*([^*]|\\*+[^*\\/])*\\*+\\/", "--[^\\n]*\\n"];

/// A grammar of the class with randomly chosen token texts, blanks and comments.
pub fn pipeline(rng: &mut Rng, class: Class, k: usize) -> LexUnit {
    loop {
        let base = gen::grammar(rng, class);
        let origin = base.origin.split(['+', '-']).next().unwrap_or("").to_string();
        let Ok(mut g) = frontend::parse_gram(&base.text) else { continue };
        if g.tokens().len() > 14 {
            continue;
        }
        for _ in 0..60 {
            let mut h = g.clone();
            for r in h.rules.iter_mut() {
                if let Rule::Tok(t) = r {
                    match rng.below(10) {
                        0..=2 => {}
                        3..=6 => t.body = TokBody::Lit(literal(rng)),
                        _ => t.body = TokBody::Re(regex(rng)),
                    }
                    if rng.pct(15) {
                        t.prec = Some(rng.range(1, 20) as u16);
                    }
                }
            }
            if rng.pct(85) {
                let b = TokBody::Re(rng.pick(SPACES).to_string());
                h.rules.push(Rule::Tok(Tok { name: "SKIP_SPACE".into(), prec: None, body: b }));
            }
            if rng.pct(40) {
                let b = TokBody::Re(rng.pick(COMMENTS).to_string());
                let at = rng.below(h.rules.len());
                h.rules.insert(at, Rule::Tok(Tok { name: "SKIP_COMMENT".into(), prec: if rng.pct(50) { Some(50) } else { None }, body: b }));
            }
            if let Ok(u) = LexUnit::with_limit(format!("rust/{}/{}-{}", class.flag(), origin, k), "rust", class, h.text(), true, 250) {
                return u;
            }
            if rng.pct(10) {
                g.rules.retain(|_| true);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// glue

const RUST_API: &str = r#"
#[repr(C)] pub struct Session { _x: [u8; 0] }
#[repr(C)] pub struct Api {
    text: extern "C" fn(*const Session, &mut usize) -> *const u8,
    fill: extern "C" fn(*const Session, *mut u8, usize) -> i64,
    mode: extern "C" fn(*const Session, u32) -> u64,
    token: extern "C" fn(*const Session, u32, u64, u64, *const u8, usize) -> i32,
    event: extern "C" fn(*const Session, u32, u32, u64, u64, *const u8, usize),
    end: extern "C" fn(*const Session, u32, u32, u64, *const u8, usize),
}
#[derive(Clone, Copy)] struct S<'a>(&'a Api, *const Session);
fn message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(m) = e.downcast_ref::<String>() { m.clone() } else if let Some(m) = e.downcast_ref::<&str>() { m.to_string() } else { String::new() }
}
fn quiet() { static ONCE: std::sync::Once = std::sync::Once::new(); ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {}))); }
const ERR: u32 = u32::MAX; const PANIC: u32 = u32::MAX - 1;
"#;

fn rust_idx(cfg: &Cfg) -> String {
    let mut o = String::from("fn idx(t: TokenType) -> u32 { match t {");
    for (i, t) in cfg.tokens.iter().enumerate() {
        write!(o, " TokenType::{} => {},", rust_token_name(t), i).unwrap();
    }
    write!(o, " TokenType::EndOfFile => {} }} }}\n", cfg.tokens.len()).unwrap();
    o
}

pub fn rust_lexer(u: &LexUnit, dir: &str) -> String {
    let mut o = format!(
        "#![allow(warnings)]\n#[path = \"{0}/tokens.rs\"] pub mod tokens;\n#[path = \"{0}/lexer.rs\"] pub mod lexer;\nuse tokens::TokenType;\nuse std::panic::{{catch_unwind, AssertUnwindSafe}};\n",
        dir
    );
    o.push_str(RUST_API);
    o.push_str(&rust_idx(&u.cfg));
    o.push_str(
        r#"
// the range of characters an error names, as it is shown
fn named(m: &str) -> Option<(u32, u32)> {
    let k = m.find("..=")?;
    let from: String = m[..k].chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
    let to: String = m[k + 3..].chars().take_while(|c| c.is_ascii_digit()).collect();
    Some((from.parse().ok()?, to.parse().ok()?))
}
#[no_mangle] pub extern "C" fn unit_run(api: &Api, s: *const Session) {
    quiet();
    let mut n = 0;
    let p = (api.text)(s, &mut n);
    let text: String = std::str::from_utf8(unsafe { std::slice::from_raw_parts(p, n) }).unwrap().to_string();
    let base = text.as_ptr() as usize;
    let mut l = lexer::Lexer::new(&text);
    loop {
        let mut shown = String::new();
        let k = match catch_unwind(AssertUnwindSafe(|| l.next())) {
            Ok(Ok(t)) => idx(t),
            Ok(Err(e)) => { let _ = format!("{:?}", e); shown = format!("{}", e); ERR }
            Err(e) => { let m = message(e); (api.token)(s, PANIC, 0, 0, m.as_ptr(), m.len()); return; }
        };
        let go = match catch_unwind(AssertUnwindSafe(|| (l.span(), l.slice()))) {
            Ok((sp, sl)) => {
                let inside = sl.is_empty() || (sl.as_ptr() as usize >= base && sl.as_ptr() as usize + sl.len() <= base + n);
                if !inside { let m = "slice() is not a part of the text"; (api.token)(s, PANIC, 0, 0, m.as_ptr(), m.len()); return; }
                if let (Some((a, b)), Some(c)) = (named(&shown), text.get(sp.end..).and_then(|t| t.chars().next())) {
                    if !(a..=b).contains(&(c as u32)) { let m = format!("the error {:?} does not name {:?}", shown, c); (api.token)(s, PANIC, 0, 0, m.as_ptr(), m.len()); return; }
                }
                (api.token)(s, k, sp.start as u64, sp.end as u64, sl.as_ptr(), sl.len())
            }
            Err(e) => { let m = message(e); (api.token)(s, PANIC, 0, 0, m.as_ptr(), m.len()); return; }
        };
        if go == 0 { return; }
    }
}
"#,
    );
    o
}

pub fn rust_pipeline(u: &LexUnit, dir: &str) -> String {
    let glr = u.class == Class::Glr;
    let mut o = String::from("#![allow(warnings)]\n");
    for m in ["tokens", "lexer", "parser"] {
        writeln!(o, "#[path = \"{}/{}.rs\"] pub mod {};", dir, m, m).unwrap();
    }
    o.push_str("use tokens::TokenType;\nuse std::panic::{catch_unwind, AssertUnwindSafe};\n");
    o.push_str(RUST_API);
    o.push_str(&rust_idx(&u.cfg));
    o.push_str("fn skip(t: TokenType) -> bool { match t {");
    for (i, t) in u.cfg.tokens.iter().enumerate() {
        if u.skip[i] {
            write!(o, " TokenType::{} => true,", rust_token_name(t)).unwrap();
        }
    }
    o.push_str(" _ => false } }\n#[derive(Clone, Debug)] struct Data<'s>(&'s str, u64, u64);\nstruct Stop(u64);\nstruct V<'a>(S<'a>);\n");
    o.push_str("impl<'a, 's> parser::Visitor<Data<'s>> for V<'a> {\n fn shift(&mut self, t: TokenType, d: Data<'s>) { (self.0.0.event)(self.0.1, 0, idx(t), d.1, d.2, d.0.as_ptr(), d.0.len()) }\n");
    for (i, n) in u.cfg.rust_names.iter().enumerate() {
        writeln!(o, " fn {}(&mut self) {{ (self.0.0.event)(self.0.1, 1, {}, 0, 0, std::ptr::null(), 0) }}", n, i).unwrap();
    }
    o.push_str("}\n");
    let (ret, arm) = if glr {
        (
            "Result<(TokenType, Data), lexer::LexerError>",
            "Ok(Err(parser::ParserError::UnexpectedToken { got, got_data, .. })) => (api.end)(s, 1, idx(got), got_data.1, std::ptr::null(), 0),
            Ok(Err(parser::ParserError::UnexpectedTokens { got, .. })) => { let same = got.iter().all(|g| idx(g.0) == idx(got[0].0) && g.1.1 == got[0].1.1); (api.end)(s, 1, if got.is_empty() || !same { ERR } else { idx(got[0].0) }, got.last().map_or(0, |g| g.1.1), std::ptr::null(), 0) },
            Ok(Err(parser::ParserError::LexerError { inner })) => { let m = format!(\"{}\", inner); (api.end)(s, 2, 0, at.get(), m.as_ptr(), m.len()) },",
        )
    } else {
        ("(TokenType, Data)", "Ok(Err(parser::ParserError::UnexpectedToken { got, .. })) => (api.end)(s, 1, idx(got), u64::MAX, std::ptr::null(), 0),")
    };
    let fail = if glr { "Err(e)" } else { "std::panic::panic_any(Stop(l.span().start as u64))" };
    let okay = if glr { "Ok((t, Data(l.slice(), sp.start as u64, sp.end as u64)))" } else { "(t, Data(l.slice(), sp.start as u64, sp.end as u64))" };
    write!(
        o,
        r#"
#[no_mangle] pub extern "C" fn unit_run(api: &Api, s: *const Session) {{
    quiet();
    let mut n = 0;
    let p = (api.text)(s, &mut n);
    let text: String = std::str::from_utf8(unsafe {{ std::slice::from_raw_parts(p, n) }}).unwrap().to_string();
    let mut l = lexer::Lexer::new(&text);
    let at = std::cell::Cell::new(0u64);
    let mut p = parser::Parser::new(|| -> {ret} {{
        loop {{
            match l.next() {{
                Ok(t) => {{
                    let sp = l.span();
                    if (api.token)(s, idx(t), sp.start as u64, sp.end as u64, l.slice().as_ptr(), l.slice().len()) == 0 {{ std::panic::panic_any("runaway".to_string()) }}
                    if !skip(t) {{ return {okay}; }}
                }}
                Err(e) => {{ at.set(l.span().start as u64); return {fail}; }}
            }}
        }}
    }}, V(S(api, s)));
    match catch_unwind(AssertUnwindSafe(|| p.parse())) {{
        Ok(Ok(())) => (api.end)(s, 0, 0, 0, std::ptr::null(), 0),
        {arm}
        Ok(Err(e)) => {{ let m = format!("{{}}", e); (api.end)(s, 4, 0, 0, m.as_ptr(), m.len()) }}
        Err(e) => if let Some(x) = e.downcast_ref::<Stop>() {{ (api.end)(s, 2, 0, x.0, std::ptr::null(), 0) }} else {{ let m = message(e); (api.end)(s, 5, 0, 0, m.as_ptr(), m.len()) }}
    }}
}}
"#
    )
    .unwrap();
    o
}

const CPP_GLUE: &str = r#"
extern "C" {
struct Session;
struct Api {
    const unsigned char *(*text)(const Session *, size_t *);
    int64_t (*fill)(const Session *, unsigned char *, size_t);
    uint64_t (*mode)(const Session *, uint32_t);
    int (*token)(const Session *, uint32_t, uint64_t, uint64_t, const unsigned char *, size_t);
    void (*event)(const Session *, uint32_t, uint32_t, uint64_t, uint64_t, const unsigned char *, size_t);
    void (*end)(const Session *, uint32_t, uint32_t, uint64_t, const unsigned char *, size_t);
};
}
struct Broken {};
// a stream buffer whose refills the simulator decides
struct Buffered : std::streambuf {
    const Api *a; const Session *s; char b[4096];
    Buffered(const Api *a, const Session *s) : a(a), s(s) { setg(b, b, b); }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        int64_t n = a->fill(s, (unsigned char *)b, sizeof b);
        if (n < 0) throw Broken{};
        if (n == 0) return traits_type::eof();
        setg(b, b, b + n);
        return traits_type::to_int_type(*gptr());
    }
};
// the same with its own bulk read
struct Bulk : Buffered {
    Bulk(const Api *a, const Session *s) : Buffered(a, s) {}
    std::streamsize xsgetn(char *d, std::streamsize n) override {
        std::streamsize k = 0;
        while (k < n) {
            if (gptr() == egptr() && traits_type::eq_int_type(underflow(), traits_type::eof())) break;
            std::streamsize m = std::min<std::streamsize>(n - k, egptr() - gptr());
            memcpy(d + k, gptr(), m); gbump((int)m); k += m;
        }
        return k;
    }
};
// no buffer at all: one character at a time
struct Unbuffered : std::streambuf {
    const Api *a; const Session *s; int have = -2;
    Unbuffered(const Api *a, const Session *s) : a(a), s(s) {}
    int_type underflow() override {
        if (have == -2) {
            unsigned char c;
            int64_t n = a->fill(s, &c, 1);
            if (n < 0) throw Broken{};
            have = n == 0 ? -1 : c;
        }
        return have < 0 ? traits_type::eof() : have;
    }
    int_type uflow() override { int_type r = underflow(); if (have >= 0) have = -2; return r; }
};
static int drive(const Api *api, const Session *s, std::istream &in) {
    uint64_t skip = api->mode(s, 1);
    for (uint64_t i = 0; i < skip; i++) in.get();
    if (api->mode(s, 2) == 1) in.setstate(std::ios::failbit);
    uint64_t bad_after = api->mode(s, 3);
    lexer::Lexer l(in);
    for (uint64_t n = 0;; n++) {
        if (n == bad_after) in.setstate(std::ios::badbit);
        lexer::TokenType t = l.next();
        if (!api->token(s, idx(t), l.start(), l.end(), nullptr, 0)) return 0;
    }
}
extern "C" __attribute__((visibility("default"))) void unit_run(const Api *api, const Session *s) {
    const char *m = "";
    try {
        switch (api->mode(s, 0)) {
            case 0: { Buffered b(api, s); std::istream in(&b); drive(api, s, in); return; }
            case 1: { Bulk b(api, s); std::istream in(&b); drive(api, s, in); return; }
            case 2: { Unbuffered b(api, s); std::istream in(&b); drive(api, s, in); return; }
            default: { size_t n = 0; const unsigned char *p = api->text(s, &n); std::istringstream in(std::string((const char *)p, n)); drive(api, s, in); return; }
        }
    } catch (const std::exception &e) { m = "exception from next()"; } catch (...) { m = "unknown exception from next()"; }
    api->token(s, 0xfffffffeu, 0, 0, (const unsigned char *)m, strlen(m));
}
"#;

pub fn cpp_lexer(u: &LexUnit) -> String {
    let mut o = String::from(
        "#include <cstdint>\n#include <cstddef>\n#include <cstring>\n#include <algorithm>\n#include <exception>\n#include <istream>\n#include <sstream>\n#include <streambuf>\n#include \"lexer.h\"\n",
    );
    // a token that does not have its own name is not that token
    o.push_str("static bool named(lexer::TokenType t, const char *n) { const char *g = lexer::get_token_name(t); return g && !strcmp(g, n); }\n");
    o.push_str("static uint32_t idx(lexer::TokenType t) { switch (t) {\n");
    for (i, t) in u.cfg.tokens.iter().enumerate() {
        writeln!(o, "case lexer::TokenType::TK_{}: return named(t, \"{}\") ? {} : 0xfffffffcu;", t, t, i).unwrap();
    }
    writeln!(
        o,
        "case lexer::TokenType::TK_EOF: return {}; case lexer::TokenType::TK_ERR: return 0xffffffffu; }} return 0xfffffffdu; }}",
        u.cfg.tokens.len()
    )
    .unwrap();
    o.push_str(CPP_GLUE);
    o
}

/// Generates and compiles lexer units.
pub fn make(env: &Env, cli: &std::path::Path, units: &[LexUnit], pipe: bool) -> (Vec<Option<PathBuf>>, Vec<Refused>) {
    let out: Mutex<Vec<Option<PathBuf>>> = Mutex::new(vec![None; units.len()]);
    let bad: Mutex<Vec<Refused>> = Mutex::new(vec![]);
    let hung = std::sync::atomic::AtomicBool::new(false);
    if units.iter().any(|u| u.lang == "cpp") {
        make_pch(env);
    }
    let failed = std::sync::atomic::AtomicUsize::new(0);
    parallel(units.len(), env.jobs, |i| {
        use std::sync::atomic::Ordering;
        let u = &units[i];
        // compilers take long to complain about big ones
        if hung.load(Ordering::Relaxed) || failed.load(Ordering::Relaxed) >= 8 && u.text.len() > HEAVY {
            return;
        }
        let dir = env.work.join(format!("x{}", i));
        let r = generate(cli, &u.text, u.lang, u.class.flag(), &dir, &[]);
        let refuse = |stage, msg: String| bad.lock().unwrap().push(Refused { unit: i, stage, msg });
        if !r.ok {
            hung.fetch_or(r.timed_out, Ordering::Relaxed);
            refuse("generation", if r.timed_out { "generation did not end".into() } else { format!("{}: {}", r.status, r.out) });
            return;
        }
        let so = dir.join("unit.so");
        let r = if u.lang == "rust" {
            let src = dir.join("unit.rs");
            let d = dir.to_string_lossy().to_string();
            std::fs::write(&src, if pipe { rust_pipeline(u, &d) } else { rust_lexer(u, &d) }).unwrap();
            rustc(&src, &so)
        } else {
            std::fs::write(dir.join("glue.cpp"), cpp_lexer(u)).unwrap();
            gxx(env, &dir, &["tokens", "lexer", "glue"], &so, i % 10 != 0)
        };
        if !r.ok && r.timed_out && u.text.len() > HEAVY {
            eprintln!("{}: not compiled in time, left out", u.name);
            return;
        }
        if !r.ok {
            failed.fetch_add(1, Ordering::Relaxed);
            refuse("compile", r.out);
            return;
        }
        out.lock().unwrap()[i] = Some(so);
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| (units[b.unit].text.len(), b.unit));
    (out.into_inner().unwrap(), bad)
}

/// A text close to what the token set describes.
pub fn document(u: &LexUnit, rng: &mut Rng, chars: usize) -> String {
    let m = u.model.lock().unwrap();
    let mut o = String::new();
    let mut n = 0;
    let mut last = String::new();
    while n < chars {
        let mut s = String::new();
        match rng.below(20) {
            0..=11 => re::sample(rng.pick(&m.res), rng, &mut s),
            12 | 13 => {
                re::sample(rng.pick(&m.res), rng, &mut s);
                let k = rng.below(s.chars().count() + 1);
                s = s.chars().take(k).collect();
            }
            14 | 15 => s.push(*rng.pick(&u.bounds)),
            16 => s.push(*rng.pick(re::ALPHA)),
            17 => s = last.clone(),
            18 => {
                re::sample(rng.pick(&m.res), rng, &mut s);
                let k = rng.range(2, 12);
                s = s.repeat(k);
            }
            _ => s.push(' '),
        }
        n += s.chars().count().max(1);
        o.push_str(&s);
        last = s;
    }
    o
}

pub fn sample_token(u: &LexUnit, t: usize, rng: &mut Rng) -> String {
    let m = u.model.lock().unwrap();
    let mut s = String::new();
    re::sample(&m.res[t], rng, &mut s);
    s
}

#[allow(dead_code)]
fn unused(_: &Re) {}
