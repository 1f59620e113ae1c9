//! Drives the code writer with simulated output streams: the generators of both languages, and the
//! templates on their own. One job list in, one line of answers out.
use lapex_codegen::{GeneratedCodeWriter, Template};
use lapex_input::LapexInputParser;
use lapex_lexer::LexerCodeGen;
use lapex_parser::grammar::Grammar;
use lapex_parser::ll_parser::LLParserCodeGen;
use lapex_parser::lr_parser::{GenerationResult, LRParserCodeGen};
use simcore::json::J;
use simcore::obj;
use simcore::rng::{self, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// -------------------------------------------------------------------------------- the streams

#[derive(Default)]
struct State {
    /// as accepted, in order
    got: Vec<u8>,
    ops: u64,
    /// real failures the stream has reported, and what was accepted when the first one happened
    failed: u64,
    at: usize,
    interrupted: u64,
    short: u64,
    flushes: u64,
}

/// An output stream that accepts what its seed says.
#[derive(Clone)]
struct Stream {
    st: Rc<RefCell<State>>,
    rng: Rc<RefCell<Rng>>,
    /// chance of an interruption, and the largest piece accepted (0: everything)
    interrupt: usize,
    most: usize,
    /// operation that fails (from 1; 0: none), how, and for how many operations (0: all later ones)
    fail: u64,
    kind: i64,
    times: u64,
    flush: u64,
}

fn failure(kind: i64) -> Error {
    match kind {
        1 => Error::from(ErrorKind::WouldBlock),
        2 => Error::from(ErrorKind::BrokenPipe),
        3 => Error::from_raw_os_error(28),
        4 => Error::from_raw_os_error(5),
        5 => Error::new(ErrorKind::Other, "the stream says no"),
        6 => Error::from(ErrorKind::TimedOut),
        7 => Error::from(ErrorKind::UnexpectedEof),
        8 => Error::from(ErrorKind::InvalidData),
        _ => Error::from(ErrorKind::PermissionDenied),
    }
}

impl Stream {
    fn new(j: &J) -> Stream {
        let n = |k: &str| j.get(k).int().max(0) as u64;
        Stream {
            st: Rc::new(RefCell::new(State::default())),
            rng: Rc::new(RefCell::new(Rng::new(n("seed")))),
            interrupt: n("interrupt") as usize,
            most: n("most") as usize,
            fail: n("fail"),
            kind: j.get("kind").int(),
            times: n("times"),
            flush: n("flush"),
        }
    }
    fn dead(&self) -> bool {
        let s = self.st.borrow();
        self.fail > 0 && s.ops >= self.fail && (self.times == 0 || s.ops < self.fail + self.times)
    }
    fn accept(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut rng = self.rng.borrow_mut();
        // interruptions come before anything happens
        if self.interrupt > 0 && rng.below(100) < self.interrupt {
            self.st.borrow_mut().interrupted += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.st.borrow_mut().ops += 1;
        let dead = self.dead();
        let mut s = self.st.borrow_mut();
        if dead && !buf.is_empty() {
            if s.failed == 0 {
                s.at = s.got.len();
            }
            s.failed += 1;
            return if self.kind == 0 { Ok(0) } else { Err(failure(self.kind)) };
        }
        let n = if self.most == 0 || buf.is_empty() { buf.len() } else { 1 + rng.below(self.most.min(buf.len())) };
        if n < buf.len() {
            s.short += 1;
        }
        s.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn report(&self, name: &str, full: bool) -> J {
        let s = self.st.borrow();
        let mut o = obj! {
            "name" => name, "len" => s.got.len(), "hash" => format!("{:016x}", rng::hash_bytes(&s.got)), "ops" => s.ops, "failed" => s.failed,
            "at" => s.at, "head" => format!("{:016x}", rng::hash_bytes(&s.got[..s.at])), "interrupted" => s.interrupted, "short" => s.short, "flushes" => s.flushes
        };
        if full {
            o.set("text", J::from(String::from_utf8_lossy(&s.got).to_string().as_str()));
        }
        o
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.accept(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.st.borrow_mut();
        s.flushes += 1;
        if self.flush > 0 && s.flushes == self.flush {
            if s.failed == 0 {
                s.at = s.got.len();
            }
            s.failed += 1;
            return Err(failure(self.kind.max(1)));
        }
        Ok(())
    }
}

// -------------------------------------------------------------------------------- generators

fn produce<L: LexerCodeGen>(lexer: &L, ll: &dyn LLParserCodeGen, lr: &dyn LRParserCodeGen, j: &J, gen: &mut GeneratedCodeWriter) -> Result<(), String> {
    let text = j.get("text").str().to_string();
    let rules = lapex_input_gen::GeneratedLapexInputParser {}.parse_lapex(&text).map_err(|e| e.to_string())?;
    lexer.generate_tokens(&rules.token_rules, gen);
    if j.get("lexer").bool() {
        let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
        let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
        let dfa = lapex_lexer::apply_precedence_to_dfa(nfa.powerset_construction(entry)).map_err(|_| "precedence".to_string())?;
        lexer.generate_lexer(&rules.token_rules, &alphabet.get_ranges(), &dfa, gen);
    }
    let grammar = Grammar::from_rule_set(&rules).map_err(|_| "grammar".to_string())?;
    let table = |t: &_, gen: &mut GeneratedCodeWriter| -> Result<(), String> {
        if j.get("table").bool() {
            gen.generate_code("table", |o| lapex_parser::lr_parser::output_table(&grammar, t, o)).map_err(|e| e.to_string())?;
        }
        Ok(())
    };
    match j.get("algo").str() {
        "ll1" => {
            let t = lapex_parser::ll_parser::generate_table(&grammar).map_err(|_| "conflicts".to_string())?;
            ll.generate_code(&grammar, &t, gen);
        }
        "lr0" => match lapex_parser::lr_parser::generate_table::<0>(&grammar, false, false) {
            GenerationResult::NoConflicts(t) => {
                table(&t, gen)?;
                lr.generate_code(&grammar, &t, gen);
            }
            _ => return Err("conflicts".into()),
        },
        a => match lapex_parser::lr_parser::generate_table::<1>(&grammar, a == "glr", a != "lr1") {
            GenerationResult::NoConflicts(t) | GenerationResult::AllowedConflicts { table: t, .. } => {
                table(&t, gen)?;
                lr.generate_code(&grammar, &t, gen);
            }
            _ => return Err("conflicts".into()),
        },
    }
    Ok(())
}

fn generation(j: &J) -> J {
    let specs: Vec<(&'static str, &J)> = j.get("streams").arr().iter().map(|s| (&*Box::leak(s.get("name").str().to_string().into_boxed_str()), s)).collect();
    let mut streams: Vec<(&'static str, Stream)> = specs.iter().map(|(n, s)| (*n, Stream::new(s))).collect();
    let made: Vec<(&'static str, Stream)> = streams.iter().map(|s| s.clone()).collect();
    let by_name: BTreeMap<&'static str, (Stream, bool)> = specs.iter().zip(made.iter()).map(|((n, s), (_, m))| (*n, (m.clone(), s.get("absent").bool()))).collect();
    let others = Rc::new(RefCell::new(vec![]));
    let refused = Rc::new(RefCell::new(0u64));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (o2, r2) = (others.clone(), refused.clone());
        let by_name = &by_name;
        let mut gen = if j.get("no_default").bool() {
            GeneratedCodeWriter::new()
        } else {
            GeneratedCodeWriter::with_default(move |name| match by_name.get(name) {
                Some((_, true)) => {
                    *r2.borrow_mut() += 1;
                    Err(failure(9))
                }
                Some((s, _)) => Ok(s.clone()),
                None => {
                    let s = Stream::new(&obj! {"seed" => 1});
                    o2.borrow_mut().push((name, s.clone()));
                    Ok(s)
                }
            })
        };
        for ((n, s), (_, spec)) in streams.iter_mut().zip(specs.iter()) {
            if spec.get("target").bool() {
                gen.add_target(n, s);
            }
        }
        if j.get("lang").str() == "rust" {
            let lr: Box<dyn LRParserCodeGen> = if j.get("algo").str() == "glr" { Box::new(lapex_rust_codegen::RustGLRParserCodeGen::new()) } else { Box::new(lapex_rust_codegen::RustLRParserCodeGen::new()) };
            produce(&lapex_rust_codegen::RustLexerCodeGen::new(), &lapex_rust_codegen::RustLLParserCodeGen::new(), lr.as_ref(), j, &mut gen)
        } else {
            produce(&lapex_cpp_codegen::CppLexerCodeGen::new(), &lapex_cpp_codegen::CppLLParserCodeGen::new(), &lapex_cpp_codegen::CppLRParserCodeGen::new(), j, &mut gen)
        }
    }));
    let full = j.get("full").bool();
    let mut v: Vec<J> = made.iter().map(|(n, s)| s.report(n, full)).collect();
    v.extend(others.borrow().iter().map(|(n, s)| s.report(n, full)));
    let refused = *refused.borrow();
    outcome(r, obj! {"streams" => v, "refused" => refused})
}

fn outcome(r: std::thread::Result<Result<(), String>>, mut o: J) -> J {
    o.set("outcome", J::from(match &r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "error",
        Err(_) => "panic",
    }));
    if let Ok(Err(e)) = r {
        o.set("message", J::from(e.as_str()));
    }
    o
}

// --------------------------------------------------------------------------------- templates

/// A template, what its holes are filled with (in pieces), and the stream.
fn template(j: &J) -> J {
    let s = Stream::new(j.get("stream"));
    let mut out = s.clone();
    let text = j.get("template").str().to_string();
    let by_writer = j.get("by_writer").bool();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t = Template::new(&text);
        let mut w = t.writer();
        for h in j.get("holes").arr() {
            let key: &'static str = Box::leak(h.get("key").str().to_string().into_boxed_str());
            let parts: Vec<String> = h.get("parts").arr().iter().map(|p| p.str().to_string()).collect();
            let fails = h.get("fails").int();
            w.substitute(key, move |o| {
                for (i, p) in parts.iter().enumerate() {
                    if i as i64 == fails {
                        return Err(failure(5));
                    }
                    if i % 2 == 0 {
                        write!(o, "{}", p)?;
                    } else {
                        o.write_all(p.as_bytes())?;
                    }
                }
                Ok(())
            });
        }
        if by_writer {
            let o2 = out.clone();
            let mut g = GeneratedCodeWriter::with_default(move |_| Ok(std::io::BufWriter::with_capacity(64, o2.clone())));
            g.generate_code("file", |o| w.write(o)).map_err(|e| e.to_string())
        } else {
            w.write(&mut out).map_err(|e| e.to_string())
        }
    }));
    outcome(r, obj! {"streams" => vec![s.report("out", false)], "refused" => 0})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let mut text = String::new();
    std::fs::File::open(&a[1]).and_then(|mut f| f.read_to_string(&mut text)).expect("jobs");
    let j = J::parse(&text).expect("jobs");
    let out: Vec<J> = j.arr().iter().map(|j| if j.get("template").is_null() { generation(j) } else { template(j) }).collect();
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{}", J::Arr(vec![J::Arr(out)]).text());
}
