//! Core of the deterministic simulator for lapex: PRNG, models, oracles, scenario runtime.
#[macro_use]
pub mod json;
pub mod analysis;
pub mod build;
pub mod cfg;
pub mod curated;
pub mod earley;
pub mod fesim;
pub mod frontend;
pub mod gen;
pub mod glue;
pub mod gram;
pub mod host;
pub mod judge;
pub mod lexref;
pub mod ll;
pub mod lr;
pub mod plan;
pub mod re;
pub mod report;
pub mod rng;
pub mod stream;
pub mod sys;
pub mod driver;
pub mod lexsim;
pub mod lexunit;
pub mod gensim;
pub mod reprosim;
pub mod debugsim;
pub mod diagsim;
pub mod writesim;
