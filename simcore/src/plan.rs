//! Explicit description of one simulated run of generated parsers: who parses what, which faults
//! hit the token source and the visitor, and how the sessions are scheduled.
use crate::json::J;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Inject {
    /// the token source fails (otherwise a visitor callback does)
    pub source: bool,
    /// number of the pull or of the event, counted from 0
    pub index: usize,
    /// the source returns an error instead of unwinding
    pub as_err: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Episode {
    /// tokens as delivered, without the end marker
    pub tokens: Vec<usize>,
    pub faults: Vec<String>,
    pub inject: Option<Inject>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SessPlan {
    pub unit: usize,
    pub episodes: Vec<Episode>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub sessions: Vec<SessPlan>,
    /// (outer session, step of the outer session, inner session)
    pub nested: Vec<(usize, usize, usize)>,
    /// scheduling decisions; when exhausted the running session continues
    pub script: Vec<u32>,
    /// used while drawing: decisions come from this seed and are recorded
    pub sched_seed: Option<u64>,
}

impl Plan {
    pub fn to_json(&self) -> J {
        let mut ss = vec![];
        for s in &self.sessions {
            let mut es = vec![];
            for e in &s.episodes {
                let inj = match &e.inject {
                    None => J::Null,
                    Some(i) => obj! {"source" => i.source, "index" => i.index, "as_err" => i.as_err},
                };
                es.push(obj! {
                    "tokens" => e.tokens.iter().map(|t| J::from(*t)).collect::<Vec<J>>(),
                    "faults" => e.faults.iter().map(|t| J::from(t.as_str())).collect::<Vec<J>>(),
                    "inject" => inj
                });
            }
            ss.push(obj! {"unit" => s.unit, "episodes" => es});
        }
        obj! {
            "sessions" => ss,
            "nested" => self.nested.iter().map(|n| J::Arr(vec![n.0.into(), n.1.into(), n.2.into()])).collect::<Vec<J>>(),
            "schedule" => self.script.iter().map(|x| J::from(*x)).collect::<Vec<J>>()
        }
    }
    pub fn from_json(j: &J) -> Plan {
        let mut p = Plan::default();
        for s in j.get("sessions").arr() {
            let mut sp = SessPlan { unit: s.get("unit").u(), episodes: vec![] };
            for e in s.get("episodes").arr() {
                let i = e.get("inject");
                sp.episodes.push(Episode {
                    tokens: e.get("tokens").arr().iter().map(|x| x.u()).collect(),
                    faults: e.get("faults").arr().iter().map(|x| x.str().to_string()).collect(),
                    inject: if i.is_null() {
                        None
                    } else {
                        Some(Inject {
                            source: i.get("source").bool(),
                            index: i.get("index").u(),
                            as_err: i.get("as_err").bool(),
                        })
                    },
                });
            }
            p.sessions.push(sp);
        }
        for n in j.get("nested").arr() {
            let v = n.ints();
            p.nested.push((v[0] as usize, v[1] as usize, v[2] as usize));
        }
        p.script = j.get("schedule").arr().iter().map(|x| x.int() as u32).collect();
        p
    }
    pub fn size(&self) -> usize {
        self.sessions
            .iter()
            .map(|s| 4 + s.episodes.iter().map(|e| 2 + e.tokens.len()).sum::<usize>())
            .sum::<usize>()
            + self.nested.len() * 2
            + self.script.len()
    }
}

/// What an unreliable token source does to a stream; returns the names of the faults that hit.
pub fn damage(rng: &mut Rng, t: &mut Vec<usize>, terms: usize, n: usize) -> Vec<String> {
    let mut f = vec![];
    for _ in 0..n {
        let k = rng.below(8);
        if t.is_empty() && k != 4 {
            continue;
        }
        let len = t.len();
        match k {
            0 => {
                let i = rng.below(len);
                t.remove(i);
                f.push("loss".to_string());
            }
            1 => {
                let i = rng.below(len);
                let x = t[i];
                t.insert(i + 1, x);
                f.push("duplicate".into());
            }
            2 => {
                if len > 1 {
                    let i = rng.below(len - 1);
                    t.swap(i, i + 1);
                    f.push("reorder".into());
                }
            }
            3 => {
                let i = rng.below(len);
                t[i] = rng.below(terms);
                f.push("corrupt".into());
            }
            4 => {
                let i = rng.below(len + 1);
                t.insert(i, rng.below(terms));
                f.push("spurious".into());
            }
            5 => {
                let i = rng.below(len);
                t.truncate(i);
                f.push("truncate".into());
            }
            6 => {
                // a burst is delivered late
                let i = rng.below(len);
                let j = rng.range(i, len - 1);
                let part: Vec<usize> = t.drain(i..=j).collect();
                let at = rng.below(t.len() + 1);
                for (k, x) in part.into_iter().enumerate() {
                    t.insert(at + k, x);
                }
                f.push("delayed-burst".into());
            }
            _ => {
                // a burst is delivered twice
                let i = rng.below(len);
                let j = rng.range(i, (len - 1).min(i + 4));
                let part: Vec<usize> = t[i..=j].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    t.insert(j + 1 + k, x);
                }
                f.push("replayed-burst".into());
            }
        }
    }
    f
}
