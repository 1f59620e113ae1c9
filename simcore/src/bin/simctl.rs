use simcore::json::J;
use simcore::stream;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = a.get(2).map(|s| s.as_str()).unwrap_or("");
            println!("seed {}", seed);
            match p {
                "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" => stream::check(p, seed, thorough),
                "C01" | "C02" | "C03" | "C04" | "C06" | "C07" => simcore::gensim::check(p, seed, thorough),
                "C05" => simcore::reprosim::check(seed, thorough),
                "C30" | "C31" | "C32" | "C33" => simcore::diagsim::check(p, seed, thorough),
                "C34" | "C35" => simcore::debugsim::check(p, seed, thorough),
                "C19" => simcore::fesim::check(seed, thorough),
                "C16" | "C17" | "C18" | "C20" => simcore::lexsim::check(p, seed, thorough),
                _ => {
                    eprintln!("unknown property {:?}", p);
                    2
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| simcore::build::die(&format!("{}: {}", a[2], e)));
            let j = J::parse(&text).unwrap_or_else(|e| simcore::build::die(&e));
            let r = match j.get("kind").str() {
                "stream" | "unit" => stream::replay(&j),
                "generator" | "generator-unit" => simcore::gensim::replay(&j),
                "reproducibility" => simcore::reprosim::replay(&j),
                "diagnostics" => simcore::diagsim::replay(&j),
                "debug" => simcore::debugsim::replay(&j),
                "streams" => simcore::writesim::replay(&j),
                "front-end" => simcore::fesim::replay(&j),
                "lexer" | "pipeline" | "lexer-unit" => simcore::lexsim::replay(&j),
                k => simcore::build::die(&format!("unknown replay kind {:?}", k)),
            };
            match r {
                Some((class, msg)) => {
                    println!("{}: {} ({})", j.get("property").str(), msg, class);
                    println!("VIOLATION property={} replay={}", j.get("property").str(), a[2]);
                    1
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        // the grammars a check of a parser property draws
        Some("units") => {
            for u in stream::draw_units(a.get(2).map(|s| s.as_str()).unwrap_or(""), seed, thorough) {
                println!("# {}\n{}", u.name, u.made.text);
            }
            0
        }
        Some("setup") => {
            let env = simcore::build::Env::new("setup");
            simcore::gensim::Machine::build(&env, true);
            let _ = env.try_cargo(&env.verif.join("simwrite/Cargo.toml"), "lapex", &["--bin", "simwrite"], false);
            env.clean();
            0
        }
        _ => {
            eprintln!("usage: simctl check <property> | simctl replay <file>");
            2
        }
    };
    std::process::exit(code);
}
