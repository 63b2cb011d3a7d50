//! Harnesses over bonsaidb-core's public API.
#[path = "../../kh.rs"]
mod kh;
mod comp;
mod conv;
mod keys;
mod time;
