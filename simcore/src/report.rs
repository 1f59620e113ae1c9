//! Evidence files, violation lines and replay files.
use crate::json::J;
use crate::rng;
use std::path::PathBuf;

pub struct Report {
    prop: String,
    seed: u64,
    thorough: bool,
    cover: Vec<(String, J)>,
    violations: Vec<(String, String)>,
    level: &'static str,
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}

impl Report {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Report {
        Report { prop: prop.into(), seed, thorough, cover: vec![], violations: vec![], level: "exploration" }
    }
    pub fn ok(&self) -> bool {
        self.violations.is_empty()
    }
    pub fn cover(&mut self, k: &str, v: impl Into<J>) {
        self.cover.push((k.to_string(), v.into()));
    }
    pub fn extra(&mut self, k: &str, v: J) {
        self.cover.push((k.to_string(), v));
    }
    /// Takes over what another part of the same check found and covered.
    pub fn nest(&mut self, k: &str, o: Report) {
        self.violations.extend(o.violations);
        self.cover.push((k.to_string(), J::Obj(o.cover)));
    }
    pub fn level(&mut self, l: &'static str) {
        self.level = l;
    }
    /// Writes the replay file and prints the violation.
    pub fn violation(&mut self, replay: &J) {
        let text = replay.text();
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:08x}.json", self.prop, rng::hash_str(&text) as u32));
        let _ = std::fs::write(&path, &text);
        println!("{}: {}", self.prop, replay.get("message").str());
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        self.violations.push((replay.get("class").str().to_string(), path.display().to_string()));
    }
    pub fn finish(mut self, wall: f64) -> i32 {
        if !self.violations.is_empty() {
            let v: Vec<J> = self.violations.iter().map(|v| crate::obj! {"class" => v.0.as_str(), "replay" => v.1.as_str()}).collect();
            self.cover.push(("violations".into(), J::Arr(v)));
        }
        let j = crate::obj! {
            "property" => self.prop.as_str(),
            "tier" => if self.thorough { "thorough" } else { "quick" },
            "seed" => self.seed,
            "level" => self.level,
            "coverage" => J::Obj(self.cover),
            "wall_s" => wall
        };
        let dir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}.json", self.prop));
        if let Err(e) = std::fs::write(&p, j.text()) {
            eprintln!("harness error: {}: {}", p.display(), e);
            return 2;
        }
        if self.violations.is_empty() {
            println!("{}: held on everything explored ({:.1} s)", self.prop, wall);
            0
        } else {
            1
        }
    }
}
