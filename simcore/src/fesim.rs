//! Damaged grammar files (C19): texts torn, cut off, re-ordered, bit-flipped, patched together from
//! several versions, read by the real front ends in one process (several in a row, and in threads
//! under a seeded scheduler); what comes out must be what the bytes say, or an error.
use crate::cfg;
use crate::build::*;
use crate::curated::{self, CURATED};
use crate::driver::*;
use crate::frontend;
use crate::gen;
use crate::gensim::{answers, mangle, Machine};
use crate::gram::*;
use crate::json::J;
use crate::lexref;
use crate::re::{self, Re};
use crate::report::*;
use crate::rng::{self, Rng};
use crate::sys;
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Text {
    pub text: String,
    pub boot: bool,
    pub labels: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct FPlan {
    pub threads: Vec<Vec<Text>>,
    pub seed: u64,
    pub bias: u64,
    pub alloc: u64,
}

pub struct FrontScenario {
    m: Machine,
    base: PathBuf,
    pool: Vec<String>,
    same: RefCell<HashMap<u64, Option<String>>>,
    /// the finding about the surrogate gap is listed
    known: bool,
}

const GAP: &str = "KNOWN-FINDING: property=C19 surrogate-gap";

fn listed() -> bool {
    let d = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    std::fs::read_to_string(format!("{}/known-findings.txt", d)).map_or(false, |t| t.lines().any(|l| l.starts_with(GAP)))
}

// ------------------------------------------------------------------------------- the texts

const NAMES: &[&str] = &[
    "a", "b", "A", "B", "Z9_", "tokens", "token_", "token1", "tok", "entryx", "entry_rule", "entr", "prods", "prod1", "pro", "x__y", "a_", "rule", "Rule", "RULE", "n0", "n1", "KW_TOKEN",
    "e", "t", "p", "self", "type", "fn", "class", "T_1", "S",
];
const ODD: &[&str] = &["token", "entry", "prod", "_a", "1a", "a-b", "é", "", "a.b", "0"];
const REGEX: &[&str] = &[
    r"\d+", r"\w", r"\s*", "(?i)ab", "a{2,}?", "[[:alpha:]]", r"\p{Greek}", "(?:ab|c)*", "[^a-z&&b]", "x{0}", "^a", "a$", r"\b", "", "(", "[", "a|", "|a", r"\u{41}", r"\x41", r"\n\t", "[a-]", "[-a]", "a{1,2}{3}",
    "a{2}", "a{2,}", "a{,2}", "a{3,2}", "(a|b|c)d", "(ab|ac)", "[^x]", ".", "a.b", r"\.", r"\/", "//", "[0-9]+(\\.[0-9]+)?", "\"[^\"\\\\]*\"", "[]]", "[]a]", "[^]a]", "[a-b-c]", "[!--]", "(((a)))", "é+", "[α-ω]*",
    r"\\", "a b", " ", "#", "a#b", "~", "&&", "-", "]", "}", "{", "a{", "a{x}", r"\ ", r"\-", r"\é", "a*+", "a**", "a?*", "(a*)+", "[a", "a)", r"\", r"[\]]", r"[\^]", "[[a]b]", r"\<", "$", "(|a)", "()", "()*", "(?:)", "(?P<n>a)",
];
const LITS: &[&str] = &["a", "", " ", ";", "//", "\\\\", "\\\"", "\\n", "=", "\u{0}", "é", "😀", "token", "a b", "'", "\\\\\\\"", "|", "(", "\\", "x\\", "\t", "\r", "{{", "%"];

fn name(rng: &mut Rng, odd: usize) -> String {
    if odd > 0 && rng.below(1000) < odd {
        return rng.pick(ODD).to_string();
    }
    match rng.below(40) {
        0 => "x".repeat(rng.range(50, 400)),
        1 => format!("n{}", rng.below(100000)),
        _ => rng.pick(NAMES).to_string(),
    }
}

fn pat(rng: &mut Rng, depth: usize, odd: usize) -> Pat {
    match if depth == 0 { rng.below(4) } else { rng.below(12) } {
        0 if rng.pct(60) => Pat::Eps,
        0..=3 => Pat::Sym(name(rng, odd)),
        4 | 5 | 6 => {
            let n = rng.range(2, 5);
            Pat::Seq((0..n).map(|_| pat(rng, depth - 1, odd)).collect())
        }
        7 | 8 => {
            let n = rng.range(2, 5);
            Pat::Alt((0..n).map(|_| pat(rng, depth - 1, odd)).collect())
        }
        9 => Pat::Opt(Box::new(pat(rng, depth - 1, odd))),
        10 => Pat::Star(Box::new(pat(rng, depth - 1, odd))),
        _ => Pat::Plus(Box::new(pat(rng, depth - 1, odd))),
    }
}

/// Any rules: what they mean together is not the front end's business.
fn any_rules(rng: &mut Rng) -> Gram {
    let odd = if rng.pct(25) { 30 } else { 0 };
    let mut g = Gram::default();
    let n = if rng.pct(10) { rng.range(20, 80) } else { rng.range(1, 9) };
    for _ in 0..n {
        if rng.pct(45) {
            let body = match rng.below(10) {
                0..=2 => TokBody::Lit(rng.pick(LITS).to_string()),
                3 => TokBody::Lit((0..rng.below(6)).map(|_| *rng.pick(&['a', 'b', '+', '/', '#', 'ü', '"'])).filter(|c| *c != '"' || odd > 0).collect()),
                4 | 5 => TokBody::Re(rng.pick(REGEX).to_string()),
                _ => {
                    let d = rng.range(1, 3);
                    let small = rng.pct(70);
                    TokBody::Re(re::print(&re::random(rng, d, small)))
                }
            };
            let prec = if rng.pct(30) { Some(*rng.pick(&[0u16, 1, 2, 7, 10, 255, 256, 999, 32767, 32768, 65535])) } else { None };
            g.rules.push(Rule::Tok(Tok { name: name(rng, odd), prec, body }));
        } else {
            let tag = if rng.pct(25) { Some(name(rng, odd)) } else { None };
            let d = rng.below(5);
            g.rules.push(Rule::Prod(Prod { name: name(rng, odd), tag, pat: pat(rng, d, odd) }));
        }
    }
    for _ in 0..if rng.pct(94) { 1 } else { *rng.pick(&[0, 0, 2, 3]) } {
        let k = rng.below(g.rules.len() + 1);
        g.rules.insert(k, Rule::Entry(name(rng, odd)));
    }
    g
}

/// A pattern for a token, of the part of the expression language both front ends know.
fn core_re(rng: &mut Rng, depth: usize) -> String {
    let ch = |rng: &mut Rng| match rng.below(8) {
        0 => rng.pick(&["\\n", "\\r", "\\t", "\\\\"]).to_string(),
        1 => rng.pick(&["_", " ", "#", "=", ";", ",", "\"", "<", "'"]).to_string(),
        2 => rng.pick(&["0", "1", "9"]).to_string(),
        _ => rng.pick(&["a", "b", "c", "x", "Z"]).to_string(),
    };
    let item = |rng: &mut Rng| match rng.below(if depth == 0 { 5 } else { 8 }) {
        0..=2 => ch(rng),
        3 | 4 => {
            let mut o = String::from(if rng.pct(30) { "[^" } else { "[" });
            for _ in 0..rng.range(1, 4) {
                o += &match rng.below(5) {
                    0 => "a-z".to_string(),
                    1 => rng.pick(&["0-9", "A-F", " -#", "b-b"]).to_string(),
                    _ => ch(rng),
                };
            }
            o + "]"
        }
        _ => {
            let n = rng.range(1, 4);
            format!("({})", (0..n).map(|_| core_re(rng, depth - 1)).collect::<Vec<_>>().join("|"))
        }
    };
    let n = rng.range(1, 4);
    (0..n).map(|_| item(rng) + *rng.pick(&["", "", "", "*", "+", "?"])).collect()
}
fn core_pat(rng: &mut Rng, depth: usize) -> String {
    let n = rng.range(1, 4);
    let one = |rng: &mut Rng| {
        if depth == 0 || rng.pct(65) {
            rng.pick(&["a", "b", "expr", "list_", "A_B", "tokens", "entryX"]).to_string()
        } else {
            let k = rng.range(1, 4);
            format!("({})", (0..k).map(|_| core_pat(rng, depth - 1)).collect::<Vec<_>>().join(" | "))
        }
    };
    (0..n).map(|_| one(rng) + *rng.pick(&["", "", "", "*", "+", "?"])).collect::<Vec<_>>().join(if rng.pct(90) { " " } else { "  " })
}
/// A grammar in the part of the language the hand-written front end knows as well.
fn core_text(rng: &mut Rng) -> String {
    let nm = |rng: &mut Rng| rng.pick(&["a", "b", "expr", "list_", "A_B", "x", "prods", "KW_TOKEN"]).to_string();
    let mut v: Vec<String> = (0..rng.range(1, 8))
        .map(|_| match rng.below(2) {
            0 => {
                let b = if rng.pct(40) {
                    let t: Vec<&str> = (0..rng.range(1, 4)).map(|_| *rng.pick(&["a", "+", "/", "#", " ", "bc", "(", ";", "=", "'"])).collect();
                    format!("\"{}\"", t.concat())
                } else {
                    format!("/{}/", core_re(rng, 2))
                };
                format!("token {} = {};", nm(rng), b)
            }
            _ => format!("prod {} = {};", nm(rng), core_pat(rng, 2)),
        })
        .collect();
    let k = rng.below(v.len() + 1);
    v.insert(k, format!("entry {};", nm(rng)));
    let sep = *rng.pick(&["\n", "\n", "\n\n", " ", "\n\t"]);
    v.join(sep) + if rng.pct(50) { "\n" } else { "" }
}
/// May a front end that knows less read another expression here? Then it is not compared.
fn core_only(raw: &str) -> bool {
    let b: Vec<char> = raw.chars().collect();
    !b.iter().enumerate().any(|(i, c)| match c {
        '.' | '$' | '{' | '}' | '&' | '~' => true,
        '^' => i == 0 || b[i - 1] != '[',
        '[' => b.get(i + 1) == Some(&'[') || b[..i].iter().rev().take_while(|c| **c != ']').any(|c| *c == '['),
        '-' => b.get(i + 1) == Some(&'-'),
        '\\' => false,
        c => !c.is_ascii(),
    }) && !raw.contains("(?")
}

/// Do the names in the rules stand for something, and for one thing?
fn resolved(rs: &frontend::RuleSet, got: &J) -> Option<(&'static str, String)> {
    let said = got.get("outcome").str();
    match (cfg::build(rs), said) {
        (Ok(_), "ok") if got.get("entry").str() != rs.entry => Some(("different", format!("the grammar starts with {} instead of {}", got.get("entry").str(), rs.entry))),
        (Err(e), "ok") => Some(("accepted", format!("taken for a grammar although it is not one: {}", e))),
        (Ok(_), "error") | (Ok(_), "panic") => Some(("refused", format!("a valid grammar is refused: {} {}", said, got.get("message").str()))),
        _ => None,
    }
}

/// Splits a text into the pieces a reader would see.
fn pieces(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let s = i;
        let kind = |c: char| if c.is_ascii_alphanumeric() || c == '_' { 1 } else if c.is_whitespace() { 2 } else { 3 };
        if c[i] == '"' || c[i] == '/' {
            i += 1;
            while i < c.len() && c[i] != c[s] && c[i] != '\n' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            i = (i + 1).min(c.len());
        } else if kind(c[i]) == 3 {
            i += 1;
        } else {
            while i < c.len() && kind(c[i]) == kind(c[s]) {
                i += 1;
            }
        }
        v.push(c[s..i].iter().collect());
    }
    v
}

/// Damage at the level of words: more of it is a grammar still.
fn words(rng: &mut Rng, text: &str, other: &str) -> (String, String) {
    let mut v = pieces(text);
    let o = pieces(other);
    let mut what = vec![];
    for _ in 0..if rng.pct(70) { 1 } else { rng.range(2, 5) } {
        if v.is_empty() {
            break;
        }
        let k = rng.below(v.len());
        what.push(match rng.below(8) {
            0 => {
                v.remove(k);
                "word lost"
            }
            1 => {
                let w = v[k].clone();
                v.insert(k, w);
                "word repeated"
            }
            2 => {
                let j = rng.below(v.len());
                v.swap(j, k);
                "words swapped"
            }
            3 => {
                v[k] = if o.is_empty() { "=".into() } else { rng.pick(&o).clone() };
                "word of another version"
            }
            4 => {
                v.insert(k, rng.pick(&["?", "*", "+", "|", "!", "(", ")", "[", "]", "[3]", "[t]", "=", ";", "0", "12", "007", "70000", " ", "\n", "\t", "\r", "\u{a0}", "\u{feff}", "//", "\"x\"", "/y/", "#", "{", "entry", "token", "prod", "a", "x;", "entry a;"]).to_string());
                "word inserted"
            }
            5 => {
                let n = rng.range(1, 12).min(v.len() - k);
                v.drain(k..k + n);
                "words lost"
            }
            6 => {
                let n = rng.range(1, 12).min(v.len() - k);
                let d: Vec<String> = v[k..k + n].to_vec();
                let j = rng.below(v.len() + 1);
                v.splice(j..j, d);
                "words repeated"
            }
            _ => {
                let w = &v[k];
                let x: String = if rng.pct(50) && w.chars().count() > 1 {
                    let n = rng.range(1, w.chars().count() - 1);
                    w.chars().take(n).collect()
                } else {
                    format!("{}{}", w, rng.pick(&["_", "x", "0", " ", "=", "\""]))
                };
                v[k] = x;
                "word changed"
            }
        });
    }
    (v.concat(), what.join(", "))
}

/// Very long lines, very many lines, deep nesting.
fn extreme(rng: &mut Rng) -> (String, &'static str) {
    match rng.below(6) {
        0 => (format!("token a = \"a\";{}entry s;prod s = a;", "\n".repeat(rng.range(65_500, 65_600))), "many lines"),
        1 => (format!("token a = \"a\";{}entry s;prod s = a;", " ".repeat(rng.range(65_500, 65_600))), "long line"),
        2 => (format!("token a = \"{}\"; entry s; prod s = a ;", "a".repeat(rng.range(65_400, 70_000))), "long token"),
        3 => {
            let n = rng.range(50, 400);
            (format!("token a = \"a\"; entry s; prod s = {}a{};", "(".repeat(n), ")".repeat(n)), "deep parentheses")
        }
        4 => {
            let n = rng.range(50, 300);
            (format!("token a = \"a\"; entry s; prod s = {}a{};", "(".repeat(n), ")*".repeat(n)), "deep repetitions")
        }
        _ => {
            let n = rng.range(300, 2000);
            let mut t = String::from("entry s;\n");
            for i in 0..n {
                t.push_str(&format!("token t{} = \"t{}\";\nprod s[g{}] = t{} (t{} | t0)*;\n", i, i, i, i, i / 2));
            }
            (t, "many rules")
        }
    }
}

// ------------------------------------------------------------------------------- expectation

fn flat(k: &str, v: Vec<J>) -> J {
    let mut o = vec![];
    for e in v {
        if e.get("k").str() == k {
            o.extend(e.get("v").arr().to_vec());
        } else {
            o.push(e);
        }
    }
    if o.len() == 1 {
        o.pop().unwrap()
    } else {
        crate::obj! {"k" => k, "v" => o}
    }
}

fn want_pat(p: &Pat) -> J {
    match p {
        Pat::Eps => crate::obj! {"k" => "eps"},
        Pat::Sym(n) => crate::obj! {"k" => "sym", "n" => n.as_str()},
        Pat::Seq(v) => flat("seq", v.iter().map(want_pat).collect()),
        Pat::Alt(v) => flat("alt", v.iter().map(want_pat).collect()),
        Pat::Opt(e) => crate::obj! {"k" => "?", "v" => vec![want_pat(e)]},
        Pat::Star(e) => crate::obj! {"k" => "*", "v" => vec![want_pat(e)]},
        Pat::Plus(e) => crate::obj! {"k" => "+", "v" => vec![want_pat(e)]},
    }
}

fn got_pat(j: &J) -> J {
    match j.get("k").str() {
        k @ ("seq" | "alt") => flat(k, j.get("v").arr().iter().map(got_pat).collect()),
        k @ ("?" | "*" | "+") => crate::obj! {"k" => k, "v" => j.get("v").arr().iter().map(got_pat).collect::<Vec<_>>()},
        _ => j.clone(),
    }
}

fn reversed(j: &J) -> J {
    let mut v: Vec<J> = j.get("v").arr().iter().map(reversed).collect();
    match j.get("k").str() {
        "alt" => {
            v.reverse();
            crate::obj! {"k" => "alt", "v" => v}
        }
        k @ ("seq" | "?" | "*" | "+") => crate::obj! {"k" => k, "v" => v},
        _ => j.clone(),
    }
}

fn got_re(j: &J) -> Re {
    let v = || j.get("v").arr().iter().map(got_re).collect::<Vec<Re>>();
    let ch = |x: &J| char::from_u32(x.int() as u32).unwrap_or('\u{fffd}');
    let set = || j.get("c").arr().iter().map(|c| (ch(c.get("a")), ch(c.get("b")))).collect::<Vec<_>>();
    match j.get("k").str() {
        "seq" => Re::Cat(v()),
        "alt" => Re::Alt(v()),
        "rep" => Re::Rep(Box::new(v().remove(0)), j.get("min").int() as u32, Some(j.get("max").int()).filter(|m| *m >= 0).map(|m| m as u32)),
        k => Re::Class(set(), k == "not"),
    }
}

/// Size when written out; None for what the comparison does not handle.
fn weight(r: &Re) -> Option<u64> {
    let w = match r {
        Re::Cat(v) | Re::Alt(v) => {
            let mut s = 1;
            for e in v {
                s += weight(e)?;
            }
            s
        }
        Re::Rep(e, n, m) => {
            if *m == Some(0) {
                return None;
            }
            weight(e)?.checked_mul(*n.max(&m.unwrap_or(1)) as u64 + 1)?
        }
        _ => 1,
    };
    (w < 4000).then_some(w)
}

impl FrontScenario {
    pub fn new(env: &Env, seed: u64, thorough: bool) -> FrontScenario {
        let m = Machine::build(env, true);
        let mut rng = Rng::new(rng::mix(seed, rng::hash_str("front")));
        let mut pool: Vec<String> = CURATED.iter().map(|c| c.text.to_string()).collect();
        pool.extend(curated::large().into_iter().map(|c| c.1).filter(|t| t.len() < 6000));
        // every grammar of the repository is a text too
        for e in std::fs::read_dir("/repo").into_iter().flatten().flatten() {
            for f in [e.path().join("src/lapex.lapex"), e.path()] {
                if f.extension().map_or(false, |x| x == "lapex") {
                    pool.extend(std::fs::read_to_string(&f));
                }
            }
        }
        use gen::Class::*;
        for i in 0..if thorough { 1500 } else { 150 } {
            let m = gen::grammar(&mut rng, [Lr0, Lalr, Lr1, Ll1, Glr][i % 5]);
            let g = frontend::parse_gram(&m.text);
            pool.push(match g {
                Ok(g) if rng.pct(60) => g.text_styled(&mut rng),
                _ => m.text,
            });
        }
        for i in 0..if thorough { 300 } else { 40 } {
            pool.push(crate::lexunit::token_set(&mut rng, "rust", i).text);
        }
        pool.sort();
        pool.dedup();
        FrontScenario { m, base: env.work.clone(), pool, same: RefCell::new(HashMap::new()), known: listed() }
    }
    fn text(&self, rng: &mut Rng) -> Text {
        let boot = rng.pct(15);
        if rng.below(400) == 0 {
            let (text, l) = extreme(rng);
            return Text { text, boot: false, labels: vec![l.into()] };
        }
        let base = |rng: &mut Rng| match rng.below(10) {
            _ if boot && rng.pct(75) => core_text(rng),
            0..=4 => rng.pick(&self.pool).clone(),
            _ => {
                let g = any_rules(rng);
                if rng.pct(80) {
                    g.text_styled(rng)
                } else {
                    g.text()
                }
            }
        };
        let t = base(rng);
        let o = base(rng);
        let (text, labels) = match rng.below(20) {
            0..=3 => (t, vec![]),
            4..=10 => {
                let (t, l) = words(rng, &t, &o);
                (t, vec![l])
            }
            11 => {
                // one version's beginning, the other's end
                let cut = |s: &str, k: usize| s.char_indices().map(|c| c.0).take_while(|i| *i <= k).last().unwrap_or(0);
                let (i, j) = (rng.below(t.len() + 1), rng.below(o.len() + 1));
                (format!("{}{}", &t[..cut(&t, i)], &o[cut(&o, j)..]), vec!["torn with another version".into()])
            }
            12 => (format!("{}{}", t, o), vec!["two versions".into()]),
            _ => {
                let (b, l) = mangle(rng, t.as_bytes(), o.as_bytes());
                match String::from_utf8(b) {
                    Ok(s) => (s, l),
                    // files that are not text are never a grammar (C03)
                    Err(e) => (String::from_utf8_lossy(e.as_bytes()).to_string(), l),
                }
            }
        };
        Text { text, boot, labels }
    }
    /// A text matched by one of the two expressions only.
    fn regex(&self, raw: &str, got: &J) -> Option<String> {
        let key = rng::mix(rng::hash_str(raw), rng::hash_str(&got.text()));
        if let Some(x) = self.same.borrow().get(&key) {
            return x.clone();
        }
        let want = match re::parse(raw) {
            Ok(r) if weight(&r).is_some() => Some(r),
            _ => None,
        };
        let x = want.and_then(|w| {
            let g = got_re(got);
            weight(&g)?;
            let d = lexref::difference(&w, &g, 400).0;
            match re::across_gap(&w) {
                Some(x) if d.is_some() && self.known => lexref::difference(&x, &g, 400).0,
                _ => d,
            }
        });
        self.same.borrow_mut().insert(key, x.clone());
        x
    }
    fn compare(&self, text: &str, boot: bool, r: &J) -> Option<String> {
        let want = match frontend::parse(text) {
            Ok(w) => w,
            Err(_) => return None,
        };
        let g = r.get("rules");
        if g.get("entry").str() != want.entry {
            return Some(format!("entry {} instead of {}", g.get("entry").str(), want.entry));
        }
        // to the hand-written front end a backslash before a quote is nothing special
        if boot && text.contains("\\\"") {
            return None;
        }
        // rules and alternatives are kept in one order or the other
        let gt = g.get("tokens").arr();
        let gp = g.get("prods").arr();
        if gt.len() != want.tokens.len() || gp.len() != want.prods.len() {
            return Some(format!("{} tokens and {} rules instead of {} and {}", gt.len(), gp.len(), want.tokens.len(), want.prods.len()));
        }
        let mut why = String::new();
        for order in 0..4 {
            let pick = |n: usize, i: usize| if order & 1 == 0 { i } else { n - 1 - i };
            let w = (|| {
                for (i, t) in want.tokens.iter().enumerate() {
                    let g = &gt[pick(gt.len(), i)];
                    if g.get("name").str() != t.name {
                        return Some(format!("token {} instead of {}", g.get("name").str(), t.name));
                    }
                    if g.get("prec").int() != t.prec.map_or(-1, |p| p as i64) {
                        return Some(format!("precedence {} of token {} instead of {:?}", g.get("prec").int(), t.name, t.prec));
                    }
                    match &t.body {
                        TokBody::Lit(s) => {
                            if g.get("lit").is_null() || g.get("lit").str() != s {
                                return Some(format!("token {} is {} instead of {:?}", t.name, g.text(), s));
                            }
                        }
                        TokBody::Re(s) => {
                            if g.get("re").is_null() {
                                return Some(format!("token {} is {} instead of /{}/", t.name, g.text(), s));
                            }
                            // the hand-written front end knows another, smaller language
                            if !boot || core_only(s) {
                                if let Some(x) = self.regex(s, g.get("re")) {
                                    return Some(format!("token {} is not what /{}/ says, for instance for {:?}: {}", t.name, s, x, g.get("re").text().chars().take(300).collect::<String>()));
                                }
                            }
                        }
                    }
                }
                for (i, p) in want.prods.iter().enumerate() {
                    let g = &gp[pick(gp.len(), i)];
                    if g.get("name").str() != p.name {
                        return Some(format!("rule {} instead of {}", g.get("name").str(), p.name));
                    }
                    let tag = (!g.get("tag").is_null()).then(|| g.get("tag").str().to_string());
                    if tag != p.tag {
                        return Some(format!("tag {:?} of rule {} instead of {:?}", tag, p.name, p.tag));
                    }
                    let mut w = want_pat(&p.pat);
                    if order & 2 != 0 {
                        w = reversed(&w);
                    }
                    let g = got_pat(g.get("pat"));
                    if w != g {
                        return Some(format!("rule {} is {} instead of {}", p.name, g.text().chars().take(400).collect::<String>(), w.text().chars().take(400).collect::<String>()));
                    }
                }
                None
            })();
            match w {
                None => return None,
                Some(w) => {
                    if order == 0 {
                        why = w;
                    }
                }
            }
        }
        Some(why)
    }
    /// Is every expression in it one that surely is an expression?
    fn sure(&self, t: &frontend::RuleSet) -> bool {
        t.tokens.iter().all(|t| match &t.body {
            TokBody::Re(s) => re::parse(s).map_or(false, |r| weight(&r).is_some() && !re::ranges_empty(&r)),
            _ => true,
        })
    }
    fn execute(&self, p: &FPlan, mut st: Option<&mut Stats>, keep: bool) -> (Vec<(String, String)>, u64, Vec<J>) {
        let dir = self.base.join(format!("w{:08}", unsafe { sys::getpid() }));
        let root = dir.join("disk");
        let _ = std::fs::create_dir_all(&root);
        let ts: Vec<J> = p.threads.iter().map(|t| J::Arr(t.iter().map(|x| crate::obj! {"text" => x.text.as_str(), "parser" => if x.boot { "boot" } else { "gen" }}).collect())).collect();
        let jf = dir.join("texts.json");
        std::fs::write(&jf, crate::obj! {"threads" => ts}.text()).unwrap_or_else(|e| die(&e.to_string()));
        let plan = format!("root {}\nseed {}\nsched {} {} {}\n", root.display(), p.seed & (i64::MAX as u64), p.seed & 0xffff_ffff, p.bias, p.alloc);
        let ran = self.m.spawn(&dir, &self.m.simgen, &["front".into(), jf.display().to_string()], &dir, &plan, &[]);
        let mut v = vec![];
        let mut digest = rng::mix(rng::hash_str(&ran.con), rng::hash_str(&format!("{:?}{:?}{}", ran.code, ran.signal, ran.log)));
        let mut hist = vec![];
        if ran.hung() {
            v.push(("hang".to_string(), "reading the texts did not end".to_string()));
            return (v, digest, hist);
        }
        let Some(a) = answers(&ran.con) else {
            v.push(("no-answer".into(), format!("the process ended without an answer: status {:?}, signal {:?}: {}", ran.code, ran.signal, ran.con.chars().take(300).collect::<String>())));
            return (v, digest, hist);
        };
        if let Some(st) = st.as_deref_mut() {
            st.add("processes", 1);
            if p.threads.len() > 1 {
                st.add("runs with concurrent readers", 1);
            }
        }
        for (k, t) in p.threads.iter().enumerate() {
            for (i, t) in t.iter().enumerate() {
                let r = &a.arr()[k].arr()[i];
                let said = r.get("outcome").str();
                let want = frontend::parse(&t.text);
                if keep {
                    hist.push(crate::obj! {"thread" => k, "text" => i, "front_end" => if t.boot { "hand-written" } else { "generated" }, "damage" => t.labels.join(", "), "answer" => said, "grammar" => want.is_ok()});
                }
                if let Some(st) = st.as_deref_mut() {
                    for l in &t.labels {
                        for l in l.split(", ") {
                            st.add(&format!("fault:{}", l), 1);
                        }
                    }
                    st.add("texts", 1);
                    st.add(&format!("{} that {} a grammar: {}", if t.boot { "hand-written front end: texts" } else { "texts" }, if want.is_ok() { "are" } else { "are not" }, said), 1);
                    st.state(rng::mix(rng::hash_str(&t.text), t.boot as u64));
                }
                digest = rng::mix(digest, rng::hash_str(said));
                let w = if t.boot { "the hand-written front end: " } else { "" };
                match (&want, said) {
                    (Ok(_), "ok") => {
                        if let Some(d) = self.compare(&t.text, t.boot, r) {
                            v.push(("different".into(), format!("{}{}", w, d)));
                        } else if let Some((class, m)) = resolved(want.as_ref().unwrap(), r.get("grammar")) {
                            v.push((class.into(), format!("{}{}", w, m)));
                        }
                        if let Some(st) = st.as_deref_mut() {
                            st.add(&format!("rules whose names {}", if cfg::build(want.as_ref().unwrap()).is_ok() { "resolve" } else { "do not resolve" }), 1);
                        }
                    }
                    // it has another notion of spaces, names and literals
                    (_, _) if t.boot => {}
                    (Ok(rs), _) => {
                        if self.sure(rs) {
                            v.push(("refused".into(), format!("a valid text is refused: {} {}", said, r.get("message").str())));
                        }
                    }
                    (Err(e), "ok") => {
                        v.push(("accepted".into(), format!("taken for a grammar although it is not one: {}", e)));
                    }
                    _ => {}
                }
            }
        }
        if let Some(st) = st {
            st.plan(digest);
        }
        if keep {
            for (c, m) in &v {
                hist.push(J::from(format!("{}: {}", c, m)));
            }
        }
        (v, digest, hist)
    }
}

impl Scenario for FrontScenario {
    type Plan = FPlan;
    fn draw(&self, rng: &mut Rng) -> FPlan {
        let threads = if rng.pct(12) { rng.range(2, 4) } else { 1 };
        let n = rng.range(8, 40) / threads;
        let mut v: Vec<Vec<Text>> = vec![];
        for _ in 0..threads {
            v.push((0..n.max(1)).map(|_| self.text(rng)).collect());
        }
        FPlan { threads: v, seed: rng.next() >> 1, bias: *rng.pick(&[5, 20, 60]), alloc: if threads > 1 { *rng.pick(&[0, 1, 3, 20]) } else { 0 } }
    }
    fn run(&self, p: &FPlan, st: Option<&mut Stats>) -> Out {
        let (viols, digest, _) = self.execute(p, st, false);
        Out { viols, digest }
    }
    fn size(&self, p: &FPlan) -> usize {
        p.threads.iter().map(|t| 1000 + t.iter().map(|x| 1000 + x.text.len() + x.labels.len()).sum::<usize>()).sum::<usize>() + (p.alloc > 0) as usize
    }
    fn shrink(&self, p: &FPlan) -> Vec<FPlan> {
        let mut v = vec![];
        let all: Vec<Text> = p.threads.iter().flatten().cloned().collect();
        for t in &all {
            if all.len() > 1 {
                v.push(FPlan { threads: vec![vec![t.clone()]], alloc: 0, ..p.clone() });
            }
        }
        for k in 0..p.threads.len() {
            if p.threads.len() > 1 {
                let mut q = p.clone();
                q.threads.remove(k);
                v.push(q);
            }
            for i in 0..p.threads[k].len() {
                if p.threads[k].len() > 1 {
                    let mut q = p.clone();
                    q.threads[k].remove(i);
                    v.push(q);
                }
            }
        }
        if all.len() <= 2 {
            for k in 0..p.threads.len() {
                for i in 0..p.threads[k].len() {
                    let t = &p.threads[k][i].text;
                    let mut part = |s: String| {
                        let mut q = p.clone();
                        q.threads[k][i].text = s;
                        v.push(q);
                    };
                    // statements, then words, then characters
                    let st: Vec<&str> = t.split_inclusive(';').collect();
                    if st.len() > 4 {
                        for h in [0, 1] {
                            let m = st.len() / 2;
                            part(if h == 0 { st[..m].concat() } else { st[m..].concat() });
                        }
                    }
                    if st.len() > 1 && st.len() < 300 {
                        for x in 0..st.len() {
                            part([&st[..x], &st[x + 1..]].concat().concat());
                        }
                    }
                    let w = pieces(t);
                    if w.len() > 1 && w.len() < 150 {
                        for x in 0..w.len() {
                            part([&w[..x], &w[x + 1..]].concat().concat());
                        }
                    }
                    let c: Vec<char> = t.chars().collect();
                    if c.len() < 150 {
                        for x in 0..c.len() {
                            part(c[..x].iter().chain(c[x + 1..].iter()).collect());
                        }
                    }
                }
            }
        }
        v
    }
    fn replay_json(&self, p: &FPlan) -> J {
        let t: Vec<J> = p
            .threads
            .iter()
            .map(|t| J::Arr(t.iter().map(|x| crate::obj! {"text" => x.text.as_str(), "boot" => x.boot, "damage" => x.labels.iter().map(|l| J::from(l.as_str())).collect::<Vec<J>>()}).collect()))
            .collect();
        crate::obj! {"kind" => "front-end", "threads" => t, "seed_process" => format!("{}", p.seed), "bias" => p.bias, "alloc" => p.alloc}
    }
    fn history(&self, p: &FPlan) -> Vec<J> {
        self.execute(p, None, true).2
    }
    fn sample(&self, p: &FPlan) -> J {
        let t = &p.threads[0][0];
        crate::obj! {"texts" => p.threads.iter().map(|t| t.len()).sum::<usize>(), "threads" => p.threads.len(), "first" => t.text.chars().take(200).collect::<String>(), "damage" => t.labels.join(", ")}
    }
    fn repeated(&self) -> u64 {
        100
    }
    fn watchdog(&self) -> u64 {
        60
    }
    fn hang_text(&self) -> &'static str {
        "reading the texts did not end"
    }
}

pub fn check(seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let env = Env::new("C19");
    let s = FrontScenario::new(&env, seed, thorough);
    let mut rep = Report::new("C19", seed, thorough);
    if s.known {
        // is it still there?
        let t = Text { text: "token a = /[^\u{d7ff}\u{e000}]/; entry s; prod s = a;".into(), boot: false, labels: vec![] };
        let p = FPlan { threads: vec![vec![t]], seed: 1, bias: 5, alloc: 0 };
        let strict = FrontScenario { known: false, m: s.m.clone(), base: s.base.clone(), pool: vec![], same: RefCell::new(HashMap::new()) };
        if probe(&strict, &env, &p).is_some() && probe(&s, &env, &p).is_none() {
            println!("{} a negated character class that excludes both U+D7FF and U+E000 matches these two (regex-syntax 0.7.4): /[^\\u{{d7ff}}\\u{{e000}}]/", GAP);
        }
    }
    let what = Search { runs: if thorough { 1_000_000 } else { 12_000 }, cap_s: if thorough { 600 } else { 90 }, seed, prop: "C19".into() };
    let st = explore(&s, &env, &what, &mut rep);
    rep.cover("simulated_time", "none: reading a grammar has no clock; history is the sequence of texts in a process");
    rep.cover("texts", st.n.get("texts").copied().unwrap_or(0));
    rep.cover("undamaged_pool", s.pool.len());
    rep.cover(
        "rule",
        "one evaluation = one process that reads 8-40 grammar texts one after the other, or in 2-4 threads under a seeded scheduler; texts are drawn from the repository's own and generated grammars and from free rule lists, then torn, cut off, bit-flipped, zeroed, repeated, re-ordered at the level of bytes, words, lines or versions; each answer is compared with the reference reader; distinct = different process histories",
    );
    rep.cover("real_code", "lapex-input-gen with its generated lexer and parser, lapex-input, regex-syntax, lapex-input-bootstrap (only texts it accepts), Rust's std");
    rep.cover("stubs", "C library calls for memory, random bytes, clocks, threads (simfs.c)");
    env.clean();
    rep.finish(t0.elapsed().as_secs_f64())
}

pub fn replay(j: &J) -> Option<(String, String)> {
    let env = Env::new("replay");
    let s = FrontScenario { m: Machine::build(&env, true), base: env.work.clone(), pool: vec![], same: RefCell::new(HashMap::new()), known: listed() };
    let p = FPlan {
        threads: j
            .get("threads")
            .arr()
            .iter()
            .map(|t| t.arr().iter().map(|x| Text { text: x.get("text").str().into(), boot: x.get("boot").bool(), labels: x.get("damage").arr().iter().map(|l| l.str().to_string()).collect() }).collect())
            .collect(),
        seed: j.get("seed_process").str().parse().unwrap_or(0),
        bias: j.get("bias").int() as u64,
        alloc: j.get("alloc").int() as u64,
    };
    let r = probe(&s, &env, &p);
    env.clean();
    r
}
