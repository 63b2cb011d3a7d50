//! the key-value store: atomic operations, numbers, expiration
use crate::kh;
use crate::schema::*;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::Connection;
use bonsaidb_core::keyvalue::{Command, KeyCheck, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::Error;
use bonsaidb_local::Database;

#[derive(Clone)]
pub struct KEntry {
    pub ns: Option<u8>,
    pub key: u8,
    pub value: Value,
    pub expires: Option<Timestamp>,
}
#[derive(Clone, Default)]
pub struct KModel(pub Vec<KEntry>);
impl KModel {
    pub fn find(&self, ns: Option<u8>, key: u8) -> Option<usize> {
        self.0.iter().position(|e| e.ns == ns && e.key == key)
    }
    pub fn expire(&mut self, now: Timestamp) {
        self.0.retain(|e| e.expires.map_or(true, |t| t > now));
    }
    pub fn put(&mut self, e: KEntry) {
        match self.find(e.ns, e.key) {
            Some(i) => self.0[i] = e,
            None => self.0.push(e),
        }
    }
}
pub fn text(b: u8) -> String {
    String::from_utf8(vec![b]).unwrap()
}
pub fn op(ns: Option<u8>, key: u8, command: Command) -> KeyOperation {
    KeyOperation { namespace: ns.map(text), key: text(key), command }
}
/// one ASCII character other than null
pub fn symbolic_key(name: &str) -> u8 {
    let k = kh::u8(name);
    kh::assume(k != 0 && k < 0x80);
    k
}
/// no namespace, or one of one character
pub fn namespace(kinds: usize) -> Option<u8> {
    match kh::choose(kinds) {
        0 => None,
        _ => Some(symbolic_key("namespace")),
    }
}
pub fn bytes(name: &str) -> Value {
    Value::Bytes(Bytes::from(vec![kh::u8(name)]))
}
pub fn get(db: &Database, ns: Option<u8>, key: u8) -> Option<Value> {
    match db.execute_key_operation(op(ns, key, Command::Get { delete: false })).unwrap() {
        Output::Value(v) => v,
        Output::Status(_) => {
            kh::check(false, "getting a key returns its value");
            None
        }
    }
}
fn agrees(db: &Database, m: &KModel, ns: Option<u8>, key: u8) {
    match (get(db, ns, key), m.find(ns, key)) {
        (Some(v), Some(i)) => kh::check(v == m.0[i].value, "a key has the value last stored"),
        (None, None) => {}
        (Some(_), None) => kh::check(false, "a key that was deleted or never set has a value"),
        (None, Some(_)) => kh::check(false, "a key that was set has no value"),
    }
}
fn check_of(c: usize) -> Option<KeyCheck> {
    match c {
        0 => None,
        1 => Some(KeyCheck::OnlyIfPresent),
        _ => Some(KeyCheck::OnlyIfVacant),
    }
}
fn set(db: &Database, m: &mut KModel, ns: Option<u8>, key: u8, value: Value, expires: Option<Timestamp>, keep: bool, check: usize, previous: bool) {
    let existing = m.find(ns, key).map(|i| m.0[i].clone());
    let out = db
        .execute_key_operation(op(ns, key, Command::Set(SetCommand { value: value.clone(), expiration: expires, keep_existing_expiration: keep, check: check_of(check), return_previous_value: previous })))
        .unwrap();
    let done = match check {
        0 => true,
        1 => existing.is_some(),
        _ => existing.is_none(),
    };
    if done {
        let expires = match &existing {
            Some(e) if keep => e.expires,
            _ => expires,
        };
        m.put(KEntry { ns, key, value, expires });
    }
    match out {
        Output::Status(KeyStatus::NotChanged) => kh::check(!done, "a set whose check holds is performed"),
        Output::Status(KeyStatus::Inserted) => kh::check(done && !previous && existing.is_none(), "inserted: the key was vacant"),
        Output::Status(KeyStatus::Updated) => kh::check(done && !previous && existing.is_some(), "updated: the key was present"),
        Output::Status(KeyStatus::Deleted) => kh::check(false, "a set doesn't delete"),
        Output::Value(v) => kh::check(done && previous && v == existing.map(|e| e.value), "a set returns the previous value when asked"),
    }
}
/// param 0: operations; param 1: 2 = with namespaces; param 2: 1 = the
/// background threads may run after each operation
#[no_mangle]
pub extern "C" fn l07_kv() {
    let db = open::<PlainSchema>();
    let mut m = KModel::default();
    let spaces = kh::param(1);
    for _ in 0..kh::param(0) {
        let (ns, key) = (namespace(spaces), symbolic_key("key"));
        let existing = m.find(ns, key).map(|i| m.0[i].clone());
        match kh::choose(4) {
            0 => {
                let (check, previous) = (kh::choose(3), kh::boolean());
                set(&db, &mut m, ns, key, bytes("value"), None, false, check, previous);
                kh::reach("set");
            }
            1 => {
                match db.execute_key_operation(op(ns, key, Command::Get { delete: true })).unwrap() {
                    Output::Value(v) => kh::check(v == existing.map(|e| e.value), "get and delete returns the value"),
                    Output::Status(_) => kh::check(false, "get and delete returns the value"),
                }
                m.find(ns, key).map(|i| m.0.remove(i));
                kh::reach("got");
            }
            2 => {
                match db.execute_key_operation(op(ns, key, Command::Delete)).unwrap() {
                    Output::Status(KeyStatus::Deleted) => kh::check(existing.is_some(), "deleted: the key was present"),
                    Output::Status(KeyStatus::NotChanged) => kh::check(existing.is_none(), "not changed: the key was vacant"),
                    _ => kh::check(false, "a delete returns a status"),
                }
                m.find(ns, key).map(|i| m.0.remove(i));
                kh::reach("deleted");
            }
            _ => {
                let amount = kh::u64("amount");
                let now = match existing.map(|e| e.value) {
                    None => Some(0),
                    Some(Value::Numeric(Numeric::UnsignedInteger(n))) => Some(n),
                    Some(_) => None,
                };
                match (db.execute_key_operation(op(ns, key, Command::Increment { amount: Numeric::UnsignedInteger(amount), saturating: true })), now) {
                    (Ok(Output::Value(Some(v))), Some(n)) => {
                        let sum = Value::Numeric(Numeric::UnsignedInteger(n.saturating_add(amount)));
                        kh::check(v == sum, "an increment returns the sum");
                        m.put(KEntry { ns, key, value: sum, expires: None });
                        kh::reach("incremented");
                    }
                    (Err(_), None) => kh::reach("not numeric"),
                    _ => kh::check(false, "a number can be incremented, anything else can't"),
                }
            }
        }
        if kh::param(2) == 1 && kh::boolean() {
            kh::settle();
        }
    }
    agrees(&db, &m, namespace(spaces), symbolic_key("probe"));
    kh::reach("kv");
}

fn numeric(name: &str) -> Numeric {
    match kh::choose(3) {
        0 => Numeric::Integer(kh::i64(name)),
        1 => Numeric::UnsignedInteger(kh::u64(name)),
        _ => {
            let f = f64::from_bits(kh::u64(name));
            kh::assume(!f.is_nan());
            Numeric::Float(f)
        }
    }
}
#[inline(never)]
fn plus(a: f64, b: f64) -> f64 {
    std::hint::black_box(a) + b
}
#[inline(never)]
fn minus(a: f64, b: f64) -> f64 {
    std::hint::black_box(a) - b
}
/// increments and decrements over every pair of numeric types
#[no_mangle]
pub extern "C" fn l08_numeric() {
    let db = open::<PlainSchema>();
    let before = if kh::boolean() { Some(numeric("existing")) } else { None };
    if let Some(n) = &before {
        db.set_numeric_key("k", n.clone()).execute().unwrap();
    }
    let existing = before.clone().unwrap_or(Numeric::UnsignedInteger(0));
    let (amount, up, saturating) = (numeric("amount"), kh::boolean(), kh::boolean());
    let command = if up { Command::Increment { amount: amount.clone(), saturating } } else { Command::Decrement { amount: amount.clone(), saturating } };
    let out = db.execute_key_operation(op(None, b'k', command));
    let stored = match get(&db, None, b'k') {
        Some(Value::Numeric(n)) => Some(n),
        Some(Value::Bytes(_)) => {
            kh::check(false, "a number stays a number");
            None
        }
        None => None,
    };
    match out {
        Ok(Output::Value(Some(Value::Numeric(r)))) => {
            kh::check(stored == Some(r.clone()), "the result of an increment is stored");
            let exact = |e: i128, a: i128| if up { e + a } else { e - a };
            match (&amount, &r) {
                (Numeric::Integer(a), Numeric::Integer(r)) => {
                    let e = match existing {
                        Numeric::Integer(e) => Some(e as i128),
                        Numeric::UnsignedInteger(e) => Some(if saturating { (e as i128).min(i64::MAX as i128) } else { e as i128 }),
                        Numeric::Float(_) => existing.as_i64().map(|e| e as i128),
                    };
                    if let Some(e) = e {
                        let sum = exact(e, *a as i128);
                        let want = if saturating { sum.clamp(i64::MIN as i128, i64::MAX as i128) as i64 } else { sum as i64 };
                        kh::check(*r == want, "a signed sum is exact, saturates, or wraps");
                    }
                    kh::reach("signed");
                }
                (Numeric::UnsignedInteger(a), Numeric::UnsignedInteger(r)) => {
                    let e = match existing {
                        Numeric::UnsignedInteger(e) => Some(e as i128),
                        Numeric::Integer(e) => Some(if saturating { (e as i128).max(0) } else { e as i128 }),
                        Numeric::Float(_) => existing.as_u64().map(|e| e as i128),
                    };
                    if let Some(e) = e {
                        let sum = exact(e, *a as i128);
                        let want = if saturating { sum.clamp(0, u64::MAX as i128) as u64 } else { sum as u64 };
                        kh::check(*r == want, "an unsigned sum is exact, saturates, or wraps");
                    }
                    kh::reach("unsigned");
                }
                (Numeric::Float(a), Numeric::Float(r)) => {
                    let e = existing.as_f64_lossy();
                    let want = if up { plus(e, *a) } else { minus(e, *a) };
                    kh::check(want.to_bits() == r.to_bits(), "a floating point sum");
                    kh::reach("float");
                }
                _ => kh::check(false, "the sum is of the amount's type"),
            }
        }
        Ok(_) => kh::check(false, "an increment returns the new number"),
        Err(e) => {
            kh::check(matches!(e, Error::NotANumber), "an increment fails only when it isn't a number");
            kh::check(matches!(amount, Numeric::Float(_)), "sums of integers are numbers");
            kh::check(stored == before, "a failed increment changes nothing");
            kh::reach("nan");
        }
    }
}

const T0: u64 = 1_800_000_000;
/// the clock moves to any later time
fn tick(last: &mut u8, m: &mut KModel) {
    let now = kh::u8("now");
    kh::assume(now >= *last);
    *last = now;
    kh::clock_set(T0 + u64::from(now), 0);
    m.expire(at(now));
}
fn at(off: u8) -> Timestamp {
    Timestamp { seconds: T0 + u64::from(off), nanos: 0 }
}
/// param 0: operations; param 1: keys that start with an expiration; param 2: keys used; param 3: 1 = only deleted or made permanent, at once. The clock moves to any
/// later time before every operation.
#[no_mangle]
pub extern "C" fn l09_expiration() {
    let db = open::<PlainSchema>();
    let mut m = KModel::default();
    let mut last = 0u8;
    kh::clock_set(T0, 0);
    for i in 0..kh::param(1) {
        let e = kh::u8("expiration");
        kh::assume(e != 0);
        set(&db, &mut m, None, b'a' + i as u8, Value::Numeric(Numeric::UnsignedInteger(7)), Some(at(e)), false, 0, false);
    }
    for _ in 0..kh::param(0) {
        let short = kh::param(3) == 1;
        if !short {
            tick(&mut last, &mut m);
        }
        step(&db, &mut m, short);
    }
    tick(&mut last, &mut m);
    agrees(&db, &m, None, b'a' + kh::choose(kh::param(2)) as u8);
    kh::reach("expiration");
}
/// any operation on any of the keys
fn step(db: &Database, m: &mut KModel, short: bool) {
    let (ns, key) = (None, b'a' + kh::choose(kh::param(2)) as u8);
    match kh::choose(if short { 2 } else { 4 }) {
        0 => {
            let expires = if !short && kh::boolean() { Some(at(kh::u8("expiration"))) } else { None };
            let keep = !short && kh::boolean();
            set(db, m, ns, key, bytes("value"), expires, keep, 0, true);
            kh::reach("set");
        }
        1 => {
            db.execute_key_operation(op(ns, key, Command::Delete)).unwrap();
            m.find(ns, key).map(|i| m.0.remove(i));
            kh::reach("deleted");
        }
        2 => {
            let existing = m.find(ns, key).map(|i| m.0[i].clone());
            let r = db.execute_key_operation(op(ns, key, Command::Increment { amount: Numeric::UnsignedInteger(1), saturating: true }));
            match (&r, &existing) {
                (Ok(_), None) => m.put(KEntry { ns, key, value: Value::Numeric(Numeric::UnsignedInteger(1)), expires: None }),
                (Ok(_), Some(KEntry { value: Value::Numeric(Numeric::UnsignedInteger(n)), .. })) => {
                    let n = n.saturating_add(1);
                    m.put(KEntry { value: Value::Numeric(Numeric::UnsignedInteger(n)), ..existing.unwrap() });
                }
                (Err(_), Some(KEntry { value: Value::Bytes(_), .. })) => {}
                _ => kh::check(false, "an increment succeeds on numbers and vacant keys"),
            }
            kh::reach("incremented");
        }
        _ => {
            let n = kh::u8("number");
            let expires = Some(at(kh::u8("expiration")));
            set(db, m, ns, key, Value::Numeric(Numeric::UnsignedInteger(u64::from(n))), expires, false, 0, false);
            kh::reach("number");
        }
    }
}
/// A key that expires, closed and opened again, then changed or not. The times are some of each kind.
#[no_mangle]
pub extern "C" fn l09_reopened() {
    use bonsaidb_local::config::Builder;
    let config = disk().key_value_persistence(crate::persist::persistence_kind(kh::choose(3)));
    let db = Database::open::<PlainSchema>(config.clone()).unwrap();
    let mut m = KModel::default();
    kh::clock_set(T0, 0);
    let mut last = 0;
    let mut tick = |m: &mut KModel, times: &[u8]| {
        let now = times[kh::choose(times.len())].max(last);
        last = now;
        kh::clock_set(T0 + u64::from(now), 0);
        m.expire(at(now));
    };
    let number = || Value::Numeric(Numeric::UnsignedInteger(u64::from(kh::u8("number"))));
    set(&db, &mut m, None, b'a', number(), Some(at(50)), false, 0, false);
    if kh::boolean() {
        set(&db, &mut m, None, b'b', number(), Some(at([40, 50, 60][kh::choose(3)])), false, 0, false);
    }
    drop(db);
    kh::settle();
    tick(&mut m, &[1, 50]);
    let db = Database::open::<PlainSchema>(config).unwrap();
    if kh::boolean() {
        kh::settle();
    }
    match kh::choose(5) {
        0 => {
            let existing = m.find(None, b'a').map(|i| m.0[i].clone());
            let out = db.execute_key_operation(op(None, b'a', Command::Increment { amount: Numeric::UnsignedInteger(1), saturating: true })).unwrap();
            let (n, expires) = match existing {
                Some(KEntry { value: Value::Numeric(Numeric::UnsignedInteger(n)), expires, .. }) => (n.saturating_add(1), expires),
                _ => (1, None),
            };
            let value = Value::Numeric(Numeric::UnsignedInteger(n));
            kh::check(matches!(out, Output::Value(Some(v)) if v == value), "an increment returns the number");
            m.put(KEntry { ns: None, key: b'a', value, expires });
        }
        1 => set(&db, &mut m, None, b'a', bytes("value"), None, true, 0, true),
        2 => set(&db, &mut m, None, b'a', bytes("value"), Some(at(45)), false, kh::choose(3), false),
        3 => {
            db.execute_key_operation(op(None, b'a', Command::Delete)).unwrap();
            m.find(None, b'a').map(|i| m.0.remove(i));
        }
        _ => {}
    }
    if kh::boolean() {
        kh::settle();
    }
    tick(&mut m, &[50, 49, 51, 70]);
    if kh::boolean() {
        kh::settle();
    }
    let key = b'a' + kh::choose(2) as u8;
    agrees(&db, &m, None, key);
    kh::reach("reopened");
}
