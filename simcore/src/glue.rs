//! Source text that connects a generated parser to the simulator's C interface.
use crate::cfg::{rust_token_name, Cfg};
use std::fmt::Write;

const RUST_API: &str = r#"
#[repr(C)] pub struct Session { _x: [u8; 0] }
#[repr(C)] pub struct End { kind: u32, got: u32, has_data: u32, count: u32, payload: u64, expected: *const u32, what: *const u8, what_len: usize }
#[repr(C)] pub struct Api {
    begin: extern "C" fn(*const Session) -> i32,
    pull: extern "C" fn(*const Session, &mut u32, &mut u64, &mut u64) -> i32,
    event: extern "C" fn(*const Session, u32, u32, u64, &mut u64) -> i32,
    end: unsafe extern "C" fn(*const Session, &End),
}
#[derive(Debug, Clone)] pub struct Boom(u64);
impl std::fmt::Display for Boom { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "injected failure {}", self.0) } }
impl std::error::Error for Boom {}
#[derive(Clone, Copy)] struct S<'a>(&'a Api, *const Session);
impl<'a> S<'a> {
    fn begin(&self) -> bool { (self.0.begin)(self.1) != 0 }
    fn pull(&self) -> Result<(u32, u64), Boom> {
        let (mut t, mut d, mut f) = (0, 0, 0);
        match (self.0.pull)(self.1, &mut t, &mut d, &mut f) { 0 => Ok((t, d)), 1 => std::panic::panic_any(Boom(f)), _ => Err(Boom(f)) }
    }
    fn event(&self, kind: u32, a: u32, b: u64) {
        let mut f = 0;
        if (self.0.event)(self.1, kind, a, b, &mut f) != 0 { std::panic::panic_any(Boom(f)) }
    }
    fn end(&self, e: End) { unsafe { (self.0.end)(self.1, &e) } }
}
fn end(kind: u32) -> End { End { kind, got: 0, has_data: 0, count: 0, payload: 0, expected: std::ptr::null(), what: std::ptr::null(), what_len: 0 } }
fn panicked(s: &S, e: Box<dyn std::any::Any + Send>) {
    if let Some(b) = e.downcast_ref::<Boom>() { let mut x = end(3); x.payload = b.0; s.end(x); return; }
    let m = if let Some(m) = e.downcast_ref::<String>() { m.clone() } else if let Some(m) = e.downcast_ref::<&str>() { m.to_string() } else { String::new() };
    let mut x = end(5); x.what = m.as_ptr(); x.what_len = m.len(); s.end(x);
}
fn other(s: &S, m: &str) { let mut x = end(4); x.what = m.as_ptr(); x.what_len = m.len(); s.end(x); }
fn unexpected(s: &S, got: u32, data: Option<u64>, expected: Vec<u32>) {
    let mut x = end(1); x.got = got; x.has_data = data.is_some() as u32; x.payload = data.unwrap_or(0); x.count = expected.len() as u32; x.expected = expected.as_ptr(); s.end(x);
}
fn quiet() { static ONCE: std::sync::Once = std::sync::Once::new(); ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {}))); }
"#;

fn rust_tokens(cfg: &Cfg) -> String {
    let mut o = String::from("fn idx(t: TokenType) -> u32 { match t {");
    for (i, t) in cfg.tokens.iter().enumerate() {
        write!(o, " TokenType::{} => {},", rust_token_name(t), i).unwrap();
    }
    write!(o, " TokenType::EndOfFile => {} }} }}\n", cfg.tokens.len()).unwrap();
    o.push_str("fn tok(t: u32) -> TokenType { match t {");
    for (i, t) in cfg.tokens.iter().enumerate() {
        write!(o, " {} => TokenType::{},", i, rust_token_name(t)).unwrap();
    }
    o.push_str(" _ => TokenType::EndOfFile } }\n");
    o
}

/// The names of the reduction callbacks that a generated parser's visitor trait really has.
pub fn visitor_methods(parser: &str) -> Vec<String> {
    let mut v = vec![];
    let Some(at) = parser.find("trait Visitor") else { return v };
    let (mut depth, mut quoted, mut word, mut last) = (0, false, String::new(), String::new());
    for c in parser[at..].chars() {
        if c == '"' {
            quoted = !quoted;
        }
        if quoted {
            continue;
        }
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            if last == "fn" && word != "shift" {
                v.push(word.clone());
            }
            last = std::mem::take(&mut word);
        }
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            _ => {}
        }
    }
    v
}

/// A visitor for whatever callbacks the trait has (`own`), where they are not the ones they should be.
pub fn rust_with(cfg: &Cfg, glr: bool, dir: &str, own: Vec<String>) -> String {
    let mut c = cfg.clone();
    c.rust_names = own;
    // what a callback means is not known
    rust(&c, glr, dir).replace("self.0.event(1, ", "self.0.event(1, 0 * ")
}

fn rust_visitor(cfg: &Cfg, data: &str) -> String {
    let mut o = format!(
        "struct V<'a>(S<'a>);\nimpl<'a> parser::Visitor<{0}> for V<'a> {{\n fn shift(&mut self, token: TokenType, data: {0}) {{ self.0.event(0, idx(token), data.0) }}\n",
        data
    );
    for (i, n) in cfg.rust_names.iter().enumerate() {
        writeln!(o, " fn {}(&mut self) {{ self.0.event(1, {}, 0) }}", n, i).unwrap();
    }
    o.push_str("}\n");
    o
}

pub fn rust(cfg: &Cfg, glr: bool, dir: &str) -> String {
    let mut o = String::from("#![allow(warnings)]\n");
    for m in ["tokens", "parser"] {
        writeln!(o, "#[path = \"{}/{}.rs\"] pub mod {};", dir, m, m).unwrap();
    }
    o.push_str("use tokens::TokenType;\nuse std::panic::{catch_unwind, AssertUnwindSafe};\n");
    o.push_str(RUST_API);
    o.push_str(&rust_tokens(cfg));
    if glr {
        o.push_str("#[derive(Debug, Clone)] pub struct Data(u64);\n");
        o.push_str(&rust_visitor(cfg, "Data"));
        o.push_str(
            r#"
#[no_mangle] pub extern "C" fn unit_run(api: &Api, session: *const Session) {
    quiet();
    let s = S(api, session);
    let mut p = parser::Parser::new(|| s.pull().map(|(t, d)| (tok(t), Data(d))), V(s));
    while s.begin() {
        match catch_unwind(AssertUnwindSafe(|| p.parse())) {
            Ok(Ok(())) => s.end(end(0)),
            Ok(Err(parser::ParserError::UnexpectedToken { got, got_data, expected })) => unexpected(&s, idx(got), Some(got_data.0), expected.iter().map(|t| idx(*t)).collect()),
            Ok(Err(parser::ParserError::UnexpectedTokens { got, expected })) => { let same = got.iter().all(|g| idx(g.0) == idx(got[0].0) && g.1.0 == got[0].1.0); unexpected(&s, if got.is_empty() || !same { u32::MAX } else { idx(got[0].0) }, got.last().map(|t| t.1.0), expected.iter().flatten().map(|t| idx(*t)).collect()) },
            Ok(Err(parser::ParserError::LexerError { inner })) => { let mut x = end(2); x.payload = inner.0; s.end(x) }
            Ok(Err(e)) => other(&s, &format!("{}", e)),
            Err(e) => panicked(&s, e),
        }
    }
}
"#,
        );
    } else {
        o.push_str("#[derive(Debug)] pub struct Data(u64);\n");
        o.push_str(&rust_visitor(cfg, "Data"));
        o.push_str(
            r#"
#[no_mangle] pub extern "C" fn unit_run(api: &Api, session: *const Session) {
    quiet();
    let s = S(api, session);
    let mut p = parser::Parser::new(|| match s.pull() { Ok((t, d)) => (tok(t), Data(d)), Err(b) => std::panic::panic_any(b) }, V(s));
    while s.begin() {
        match catch_unwind(AssertUnwindSafe(|| p.parse())) {
            Ok(Ok(())) => s.end(end(0)),
            Ok(Err(parser::ParserError::UnexpectedToken { got, expected })) => unexpected(&s, idx(got), None, expected.iter().map(|t| idx(*t)).collect()),
            Ok(Err(e)) => other(&s, &format!("{}", e)),
            Err(e) => panicked(&s, e),
        }
    }
}
"#,
        );
    }
    o
}

const CPP_API: &str = r#"
extern "C" {
struct Session;
struct End { uint32_t kind, got, has_data, count; uint64_t payload; const uint32_t *expected; const char *what; size_t what_len; };
struct Api {
    int (*begin)(const Session *);
    int (*pull)(const Session *, uint32_t *, uint64_t *, uint64_t *);
    int (*event)(const Session *, uint32_t, uint32_t, uint64_t, uint64_t *);
    void (*end)(const Session *, const End *);
};
}
struct SimFault { uint64_t id; };
struct S {
    const Api *a; const Session *s;
    void event(uint32_t kind, uint32_t x, uint64_t d) const { uint64_t f = 0; if (a->event(s, kind, x, d, &f)) throw SimFault{f}; }
};
struct Data { uint64_t id; };
"#;

pub fn cpp(cfg: &Cfg, ll: bool) -> String {
    let mut o = String::from("#include <cstdint>\n#include <cstddef>\n#include <cstring>\n#include <exception>\n#include <stdexcept>\n#include \"parser_impl.h\"\n");
    o.push_str(CPP_API);
    o.push_str("static uint32_t idx(lexer::TokenType t) { switch (t) {\n");
    for (i, t) in cfg.tokens.iter().enumerate() {
        writeln!(o, "case lexer::TokenType::TK_{}: return {};", t, i).unwrap();
    }
    writeln!(o, "case lexer::TokenType::TK_EOF: return {}; default: return 0xffffffffu; }} }}", cfg.tokens.len()).unwrap();
    o.push_str("static lexer::TokenType tok(uint32_t t) { switch (t) {\n");
    for (i, t) in cfg.tokens.iter().enumerate() {
        writeln!(o, "case {}: return lexer::TokenType::TK_{};", i, t).unwrap();
    }
    o.push_str("default: return lexer::TokenType::TK_EOF; } }\n");
    o.push_str("struct V : parser::Visitor<Data> {\n S s; V(S s) : s(s) {}\n");
    if ll {
        o.push_str(" void token(lexer::TokenType t, Data d) override { s.event(0, idx(t), d.id); }\n");
        for (i, n) in cfg.nts.iter().enumerate() {
            if let Some(n) = &n.name {
                writeln!(o, " void enter_{}() override {{ s.event(2, {}, 0); }}\n void exit_{}() override {{ s.event(3, {}, 0); }}", n, i, n, i).unwrap();
            }
        }
    } else {
        o.push_str(" void shift(lexer::TokenType t, Data d) override { s.event(0, idx(t), d.id); }\n");
        for (i, n) in cfg.cpp_names.iter().enumerate() {
            writeln!(o, " void {}() override {{ s.event(1, {}, 0); }}", n, i).unwrap();
        }
    }
    o.push_str(
        r#"};
extern "C" __attribute__((visibility("default"))) void unit_run(const Api *api, const Session *session) {
    S s{api, session};
    V v(s);
    parser::Parser<Data> p([s]() -> std::pair<lexer::TokenType, Data> {
        uint32_t t = 0; uint64_t d = 0, f = 0;
        if (s.a->pull(s.s, &t, &d, &f)) throw SimFault{f};
        return std::make_pair(tok(t), Data{d});
    }, v);
    while (api->begin(session)) {
        End e{}; std::string what;
        try { p.parse(); }
        catch (const SimFault &x) { e.kind = 3; e.payload = x.id; }
        catch (const std::runtime_error &x) { e.kind = 4; what = x.what(); }
        catch (const std::exception &x) { e.kind = 5; what = x.what(); }
        catch (...) { e.kind = 5; what = "unknown exception"; }
        e.what = what.data(); e.what_len = what.size();
        api->end(session, &e);
    }
}
"#,
    );
    o
}
