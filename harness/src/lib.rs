//! Bounded exhaustive model checking of the concordance library.
//!
//! `engine`  : enumerates every case of a family on all cores, with watchdog, crash isolation,
//!             replay and evidence.
//! `model`   : boring reference semantics (languages by end positions and by partial derivatives).
//! `space`   : finite, indexable spaces of patterns, strings and operation sequences.
//! `product` : explicit-state product of a real compiled DFA and the reference automaton.
//! `scale`   : patterns of a given size, with what they match by formula.
//! `bigm`   : machines of a given size, with a plain simulation of the calls that make them.
//! `gnfa`    : machines with whole patterns on their edges.
pub mod bigm;
pub mod engine;
pub mod gnfa;
pub mod machine;
pub mod model;
pub mod scale;
pub mod space;
pub mod product;
pub mod tree;
pub mod edits;
