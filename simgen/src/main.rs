//! Drives the generator through its library interface: several generations, one after the other
//! or in threads, and the grammar front ends on their own.
use lapex::{generate, Language, ParsingAlgorithm};
use lapex_input::*;
use lapex_parser::grammar::Grammar;
use simcore::json::J;
use simcore::obj;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn algorithm(s: &str) -> ParsingAlgorithm {
    match s {
        "ll1" => ParsingAlgorithm::LL1,
        "lr0" => ParsingAlgorithm::LR0,
        "lr1" => ParsingAlgorithm::LR1,
        "lalr" => ParsingAlgorithm::LALR,
        _ => ParsingAlgorithm::GLR,
    }
}

fn job(j: &J) -> J {
    let lang = if j.get("lang").str() == "rust" { Language::Rust } else { Language::Cpp };
    let (g, t) = (Path::new(j.get("grammar").str()), Path::new(j.get("target").str()));
    // somebody edits the grammar file between two generations
    if let J::Str(text) = j.get("text") {
        std::fs::write(g, text).expect("grammar");
        let when = std::time::UNIX_EPOCH + std::time::Duration::from_secs(j.get("when").int() as u64);
        if j.get("when").int() > 0 {
            std::fs::File::options().write(true).open(g).and_then(|f| f.set_modified(when)).expect("time of the grammar");
        }
    }
    let (lexer, table, alg) = (j.get("lexer").bool(), j.get("table").bool(), algorithm(j.get("algo").str()));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if j.get("parser").str() == "boot" {
            generate(lexer, alg, table, g, t, lang, lapex_input_bootstrap::BootstrapLapexInputParser {})
        } else {
            generate(lexer, alg, table, g, t, lang, lapex_input_gen::GeneratedLapexInputParser {})
        }
    }));
    match r {
        Ok(Ok(())) => obj! {"outcome" => "ok"},
        Ok(Err(e)) => {
            let v: Vec<J> = e.iter().map(|x| J::from(x.to_string().as_str())).collect();
            obj! {"outcome" => "error", "errors" => v}
        }
        Err(p) => obj! {"outcome" => "panic", "message" => text_of(&p).as_str()},
    }
}

fn text_of(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        String::new()
    }
}

// ------------------------------------------------------------------------------- front ends

fn class_item(c: &Characters) -> J {
    match c {
        Characters::Single(x) => obj! {"a" => *x as i64, "b" => *x as i64},
        Characters::Range(x, y) => obj! {"a" => *x as i64, "b" => *y as i64},
    }
}

fn pattern(p: &Pattern) -> J {
    match p {
        Pattern::Sequence { elements } => obj! {"k" => "seq", "v" => elements.iter().map(pattern).collect::<Vec<_>>()},
        Pattern::Alternative { elements } => obj! {"k" => "alt", "v" => elements.iter().map(pattern).collect::<Vec<_>>()},
        Pattern::Repetition { min, max, inner } => {
            obj! {"k" => "rep", "min" => *min as i64, "max" => max.map_or(-1, |m| m as i64), "v" => vec![pattern(inner)]}
        }
        Pattern::CharSet { chars, negated } => {
            obj! {"k" => if *negated { "not" } else { "set" }, "c" => chars.iter().map(class_item).collect::<Vec<_>>()}
        }
        Pattern::Char { chars } => obj! {"k" => "set", "c" => vec![class_item(chars)]},
    }
}

fn production(p: &ProductionPattern) -> J {
    match p {
        ProductionPattern::Sequence { elements } => obj! {"k" => "seq", "v" => elements.iter().map(production).collect::<Vec<_>>()},
        ProductionPattern::Alternative { elements } => obj! {"k" => "alt", "v" => elements.iter().map(production).collect::<Vec<_>>()},
        ProductionPattern::OneOrMany { inner } => obj! {"k" => "+", "v" => vec![production(inner)]},
        ProductionPattern::ZeroOrMany { inner } => obj! {"k" => "*", "v" => vec![production(inner)]},
        ProductionPattern::Optional { inner } => obj! {"k" => "?", "v" => vec![production(inner)]},
        ProductionPattern::Rule { rule_name } => obj! {"k" => "sym", "n" => *rule_name},
        ProductionPattern::Epsilon => obj! {"k" => "eps"},
    }
}

fn rules(r: &RuleSet) -> J {
    let t: Vec<J> = r
        .token_rules
        .iter()
        .map(|t| {
            let t = &t.inner;
            let mut o = obj! {"name" => t.name, "prec" => t.precedence.map_or(-1, |p| p as i64), "level" => t.precedence() as i64};
            match &t.pattern {
                TokenPattern::Literal { characters } => o.set("lit", J::from(characters.iter().collect::<String>().as_str())),
                TokenPattern::Pattern { pattern: p } => o.set("re", pattern(p)),
            }
            o
        })
        .collect();
    let p: Vec<J> = r
        .production_rules
        .iter()
        .map(|p| {
            let p = &p.inner;
            obj! {"name" => p.name, "tag" => p.tag.map_or(J::Null, J::from), "pat" => production(&p.pattern)}
        })
        .collect();
    obj! {"entry" => r.entry_rule.inner.name, "tokens" => t, "prods" => p}
}

/// What the grammar builder makes of the rules.
fn built(r: &RuleSet) -> J {
    match catch_unwind(AssertUnwindSafe(|| {
        Grammar::from_rule_set(r).map(|g| g.get_production_name(g.entry_point()).unwrap_or("").to_string()).map_err(|e| e.to_string())
    })) {
        Ok(Ok(e)) => obj! {"outcome" => "ok", "entry" => e.as_str()},
        Ok(Err(e)) => obj! {"outcome" => "error", "message" => e.as_str()},
        Err(p) => obj! {"outcome" => "panic", "message" => text_of(&p).as_str()},
    }
}

fn parsed<P: LapexInputParser>(p: P, text: &str) -> J {
    match catch_unwind(AssertUnwindSafe(|| p.parse_lapex(text).map(|r| (rules(&r), built(&r))).map_err(|e| e.to_string()))) {
        Ok(Ok((r, b))) => obj! {"outcome" => "ok", "rules" => r, "grammar" => b},
        Ok(Err(e)) => obj! {"outcome" => "error", "message" => e.as_str()},
        Err(p) => obj! {"outcome" => "panic", "message" => text_of(&p).as_str()},
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "jobs" => {
            let mut text = String::new();
            std::fs::File::open(&a[2]).and_then(|mut f| f.read_to_string(&mut text)).expect("jobs");
            let j = J::parse(&text).expect("jobs");
            let th = j.get("threads").arr();
            let run = |v: &J| J::Arr(v.arr().iter().map(job).collect());
            let out: Vec<J> = if th.len() == 1 {
                vec![run(&th[0])]
            } else {
                std::thread::scope(|s| {
                    let hs: Vec<_> = th.iter().map(|t| s.spawn(move || run(t))).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(J::Null)).collect()
                })
            };
            let mut o = std::io::stdout();
            let _ = writeln!(o, "{}", J::Arr(out).text());
        }
        // grammar texts, each read by a front end; threads as above
        "front" => {
            std::panic::set_hook(Box::new(|_| {}));
            let mut text = String::new();
            std::fs::File::open(&a[2]).and_then(|mut f| f.read_to_string(&mut text)).expect("texts");
            let j = J::parse(&text).expect("texts");
            let th = j.get("threads").arr();
            let one = |v: &J| {
                let t = v.get("text").str();
                if v.get("parser").str() == "boot" {
                    parsed(lapex_input_bootstrap::BootstrapLapexInputParser {}, t)
                } else {
                    parsed(lapex_input_gen::GeneratedLapexInputParser {}, t)
                }
            };
            let run = |v: &J| J::Arr(v.arr().iter().map(one).collect());
            let out: Vec<J> = if th.len() == 1 {
                vec![run(&th[0])]
            } else {
                std::thread::scope(|s| {
                    let hs: Vec<_> = th.iter().map(|t| s.spawn(move || run(t))).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(J::Null)).collect()
                })
            };
            let mut o = std::io::stdout();
            let _ = writeln!(o, "{}", J::Arr(out).text());
        }
        _ => std::process::exit(2),
    }
}
