#![allow(clippy::all)]
#[path = "../../kh.rs"]
pub mod kh;
pub mod schema;
pub mod docs;
pub mod txn;
pub mod list;
pub mod views;
pub mod kv;
pub mod persist;
pub mod access;
pub mod dbs;
pub mod users;
pub mod log;
pub mod pubsub;
pub mod upgrade;
pub mod conc;
pub mod backup;
