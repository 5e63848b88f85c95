//! Generators, reference models and oracles; used by the runner and by ../../fuzz.
pub mod doc;
pub mod gen;
pub mod known;
pub mod model;
pub mod props;
#[allow(dropping_references)]
pub mod recipe;
pub mod runner;
pub mod strict;
pub mod sys;
