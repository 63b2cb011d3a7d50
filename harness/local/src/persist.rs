//! what was stored is there after closing and opening again
use crate::kh;
use crate::kv::*;
use crate::schema::*;
use bonsaidb_core::connection::Connection;
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyStatus, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_local::config::{Builder, KeyValuePersistence, PersistenceThreshold};
use bonsaidb_local::Database;

fn persistence(kinds: usize) -> KeyValuePersistence {
    persistence_kind(kh::choose(kinds))
}
pub fn persistence_kind(kind: usize) -> KeyValuePersistence {
    match kind {
        0 => KeyValuePersistence::immediate(),
        1 => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(2)]),
        _ => KeyValuePersistence::lazy([PersistenceThreshold::after_changes(1).and_duration(std::time::Duration::from_secs(60)), PersistenceThreshold::after_changes(3)]),
    }
}
/// param 0: operations; param 1: persistence kinds
#[no_mangle]
pub extern "C" fn l10_reopen() {
    let config = disk().key_value_persistence(persistence(kh::param(1)));
    let db = Database::open::<PlainSchema>(config).unwrap();
    let mut m: [Option<u8>; 2] = [None; 2];
    for _ in 0..kh::param(0) {
        let k = kh::choose(2);
        if kh::boolean() {
            let v = kh::u8("value");
            db.set_binary_key(text(b'a' + k as u8), &[v]).execute().unwrap();
            m[k] = Some(v);
        } else {
            db.delete_key(text(b'a' + k as u8)).unwrap();
            m[k] = None;
        }
        match kh::choose(3) {
            0 => {}
            1 => kh::settle(),
            _ => kh::sleep(100_000_000_000),
        }
    }
    drop(db);
    if kh::boolean() {
        kh::settle();
    }
    let db = match Database::open::<PlainSchema>(disk()) {
        Ok(d) => d,
        Err(e) => {
            kh::print(&format!("{e:?}"));
            kh::check(false, "a closed database can be opened again");
            return;
        }
    };
    for k in 0..2 {
        let got = match db.get_key(text(b'a' + k as u8)).query() { Ok(g) => g, Err(e) => { kh::print(&format!("{e:?}")); kh::check(false, "a reopened database can be read"); return } };
        match (got, m[k]) {
            (Some(Value::Bytes(b)), Some(v)) => kh::check(b[..] == [v], "a key keeps its value when closing and opening again"),
            (None, None) => {}
            (None, Some(_)) => kh::check(false, "a key set before closing is there after opening again"),
            _ => kh::check(false, "a key deleted before closing is gone after opening again"),
        }
    }
    kh::reach("reopened");
}

// ---- crashes
use crate::docs::{did, MDoc, Model};
use bonsaidb_core::connection::LowLevelConnection;
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::schema::Collection;

/// opens the database and reads what `f` reads.  A crash in the middle of a
/// write of the store's own files (nebari, outside of this repository) can
/// leave a file that nebari refuses to open: a recorded finding.
fn reopened<T>(f: impl Fn(&Database) -> Result<T, bonsaidb_core::Error>) -> Option<(Database, T)> {
    reopened_as::<PlainSchema, T>(f)
}
fn reopened_as<S: bonsaidb_core::schema::Schema, T>(f: impl Fn(&Database) -> Result<T, bonsaidb_core::Error>) -> Option<(Database, T)> {
    if kh::torn_store().is_some() {
        kh::region("torn-store-write");
    }
    let db = Database::open::<S>(disk()).map_err(bonsaidb_core::Error::from);
    let r = db.and_then(|d| f(&d).map(|r| (d, r)));
    if let Err(e) = &r {
        kh::print(&format!("{e:?}"));
    }
    kh::check(r.is_ok(), "a database can be opened and read after a crash");
    kh::region("");
    r.ok()
}
type Docs = Vec<(u8, Vec<u8>)>;
fn docs(db: &Database) -> Result<Docs, bonsaidb_core::Error> {
    Ok(db.collection::<Plain>().all().query()?.into_iter().map(|d| (d.header.id.deserialize::<u8>().unwrap(), d.contents.to_vec())).collect())
}
fn same_docs(got: &Docs, m: &Model) -> bool {
    let want = m.sorted();
    got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| kh::and(a.0 == b.id, a.1[..] == b.contents[..]))
}
/// param 0: transactions; param 1: 1 = each also changes the other collection
#[no_mangle]
pub extern "C" fn l16_documents() {
    let n = kh::param(0);
    let mut steps = Vec::new();
    let mut models = vec![Model::default()];
    for _ in 0..n {
        let mut m = models.last().unwrap().clone();
        let (id, value) = (kh::choose(2) as u8, kh::u8("contents"));
        let op = if m.find(id).is_some() && kh::boolean() {
            m.docs.remove(m.find(id).unwrap());
            None
        } else {
            m.set(MDoc { id, contents: vec![value], rev: 0 });
            Some(value)
        };
        steps.push((id, op));
        models.push(m);
    }
    let both = kh::param(1) == 1;
    let after_open = kh::param(3) == 1;
    let crashed = kh::crash_run(|| {
        kh::no_crash(after_open);
        let db = Database::open::<PlainSchema>(disk()).unwrap();
        kh::no_crash(false);
        for (id, op) in &steps {
            match op {
                Some(v) => {
                    let mut tx = Transaction::new();
                    tx.push(Operation::overwrite(Plain::collection_name(), did(*id), vec![*v]));
                    if both {
                        tx.push(Operation::overwrite(Other::collection_name(), did(0), vec![*v]));
                    }
                    tx.apply(&db).unwrap();
                }
                None => {
                    let d = db.collection::<Plain>().get(id).unwrap().unwrap();
                    db.collection::<Plain>().delete(&d).unwrap();
                }
            }
            kh::ack();
        }
        drop(db);
        kh::settle();
    });
    let acks = kh::acks();
    kh::reach(if crashed { "crashed" } else { "finished" });
    let Some((db, (got, other, listed))) = reopened(|db| {
        let got = docs(db)?;
        let other = db.collection::<Other>().get(&0)?.map(|d| d.contents[0]);
        Ok((got, other, db.list_executed_transactions(None, None)?.len()))
    }) else { return };
    let at = listed;
    kh::check(at == acks || (at == acks + 1 && at <= n), "after a crash, every acknowledged transaction is listed, and at most the one that was cut short");
    kh::check(same_docs(&got, &models[at]), "after a crash, the documents are those the listed transactions left");
    kh::check(crashed || at == n, "without a crash, every transaction is there");
    if both {
        let last = steps[..at].iter().rev().find_map(|(_, v)| *v);
        kh::check(other == last, "after a crash, transactions are in all of their collections or none");
    }
    // and it goes on
    let mut m = models[at].clone();
    LowLevelConnection::overwrite::<Plain, u8>(&db, &1, vec![77u8]).unwrap();
    m.set(MDoc { id: 1, contents: vec![77], rev: 0 });
    kh::check(same_docs(&docs(&db).unwrap(), &m), "after a crash, writing goes on");
    kh::reach("recovered");
}

// ---- views after a crash
use crate::views::{bytes, check_view, VDoc};
use bonsaidb_core::connection::AccessPolicy;
use bonsaidb_core::document::Header;
use bonsaidb_core::schema::{SerializedView, View};

fn crash_views<C, V>(lazy: bool, policy: AccessPolicy)
where
    C: Collection<PrimaryKey = u8>,
    V: SerializedView<Key = u8, Value = u8> + View<Key = u8, Value = u8, Collection = C> + Clone,
{
    let n = kh::param(0);
    let mut models: Vec<Vec<(u8, u8)>> = vec![Vec::new()]; // id, pair's key = id's letter
    let mut steps = Vec::new();
    for _ in 0..n {
        let id = kh::choose(2) as u8;
        let mut m = models.last().unwrap().clone();
        let at = m.iter().position(|x| x.0 == id);
        let op = if at.is_some() && kh::boolean() {
            m.remove(at.unwrap());
            None
        } else {
            let v = kh::u8("key");
            // unique views refuse the key of another document
            kh::assume(m.iter().all(|x| x.0 == id || x.1 != v));
            if let Some(i) = at {
                m.remove(i);
            }
            m.push((id, v));
            m.sort_by_key(|x| x.0);
            Some(v)
        };
        steps.push((id, op, lazy && kh::boolean()));
        models.push(m);
    }
    let after_open = kh::param(3) == 1;
    let crashed = kh::crash_run(|| {
        kh::no_crash(after_open);
        let db = Database::open::<ViewSchemas>(disk()).unwrap();
        kh::no_crash(false);
        for (id, op, query) in &steps {
            match op {
                Some(v) => drop(LowLevelConnection::overwrite::<C, u8>(&db, id, vec![*v, *id]).unwrap()),
                None => {
                    let d = db.collection::<C>().get(id).unwrap().unwrap();
                    db.collection::<C>().delete(&d).unwrap();
                }
            }
            kh::ack();
            if *query {
                db.view::<V>().query().unwrap();
            }
        }
        drop(db);
        kh::settle();
    });
    let acks = kh::acks();
    let Some((db, docs)) = reopened_as::<ViewSchemas, _>(|db| {
        let docs: Vec<VDoc> = db.collection::<C>().all().query()?.into_iter()
            .map(|d| VDoc { id: d.header.id.deserialize::<u8>().unwrap(), pairs: vec![(d.contents[0], d.contents[1])], header: Header::from(d.header.clone()) })
            .collect();
        db.view::<V>().with_access_policy(AccessPolicy::UpdateBefore).query()?;
        Ok(docs)
    }) else { return };
    let same = |m: &Vec<(u8, u8)>| docs.len() == m.len() && docs.iter().zip(m).all(|(d, x)| kh::and(d.id == x.0, d.pairs == [(x.1, x.0)]));
    kh::check(same(&models[acks]) || (acks < n && same(&models[acks + 1])), "after a crash, the documents are those of the acknowledged transactions, or of one more");
    kh::check(crashed || same(&models[n]), "without a crash, every transaction is there");
    check_view::<V>(&db, &docs, policy, &[0]);
    kh::reach(if crashed { "view after a crash" } else { "view after closing" });
    // and it goes on
    let mut docs = docs;
    let v = kh::u8("key");
    kh::assume(docs.iter().all(|d| d.id == 1 || d.pairs[0].0 != v));
    crate::views::put::<C>(&db, &mut docs, 1, vec![(v, 1)]).unwrap();
    check_view::<V>(&db, &docs, policy, &[0]);
}
/// param 0: writes
#[no_mangle]
pub extern "C" fn l18_lazy() {
    crash_views::<LazyDocs, LazyView>(true, AccessPolicy::UpdateBefore);
}
#[no_mangle]
pub extern "C" fn l18_eager() {
    crash_views::<EagerDocs, EagerView>(false, AccessPolicy::NoUpdate);
}
#[no_mangle]
pub extern "C" fn l18_unique() {
    crash_views::<UniqueDocs, UniqueView>(false, AccessPolicy::UpdateBefore);
}

// ---- the key-value store after a crash
/// param 0: operations; param 1: persistence kinds
#[no_mangle]
pub extern "C" fn l17_kv() {
    let n = kh::param(0);
    let (kind, kinds) = (kh::choose(kh::param(1)), kh::param(1));
    let mut steps = Vec::new();
    let mut models = vec![[None::<u8>; 2]];
    for _ in 0..n {
        let k = kh::choose(2);
        let op = if models.last().unwrap()[k].is_some() && kh::boolean() { None } else { Some(kh::u8("value")) };
        let mut m = models.last().unwrap().clone();
        m[k] = op;
        models.push(m);
        steps.push((k, op, kh::boolean()));
    }
    let after_open = kh::param(3) == 1;
    let crashed = kh::crash_run(|| {
        kh::no_crash(after_open);
        let db = Database::open::<PlainSchema>(disk().key_value_persistence(persistence_kind(kind))).unwrap();
        kh::no_crash(false);
        for (k, op, wait) in &steps {
            match op {
                Some(v) => drop(db.set_binary_key(text(b'a' + *k as u8), &[*v]).execute().unwrap()),
                None => drop(db.delete_key(text(b'a' + *k as u8)).unwrap()),
            }
            if *wait {
                kh::settle();
            }
            kh::ack();
        }
        drop(db);
        kh::settle();
    });
    let _ = kinds;
    let acks = kh::acks();
    // with immediate persistence, what was written before the last pause is kept
    let safe = if kind == 0 { (0..acks).rev().find(|i| steps[*i].2).map_or(0, |i| i + 1) } else { 0 };
    let Some((db, got)) = reopened(|db| {
        let mut got = [None; 2];
        for k in 0..2 {
            got[k] = match db.get_key(text(b'a' + k as u8)).query()? {
                Some(Value::Bytes(b)) if b.len() == 1 => Some(b[0]),
                Some(_) => { kh::check(false, "after a crash, a key has a value it was given"); None }
                None => None,
            };
        }
        Ok(got)
    }) else { return };
    let end = if crashed { (acks + 1).min(n) } else { n };
    let start = if crashed { safe } else { n };
    kh::check((start..=end).any(|i| got == models[i]), "after a crash, the keys are as some prefix of the operations left them, no shorter than what was persisted");
    kh::reach(if crashed { "keys after a crash" } else { "keys after closing" });
    db.set_binary_key("b", &[9]).execute().unwrap();
    kh::check(matches!(db.get_key("b").query().unwrap(), Some(Value::Bytes(b)) if b[..] == [9]), "after a crash, setting keys goes on");
}

// ---- a crash while views are rebuilt for another schema
fn updated(old: &Docs0, v: u8) -> Docs0 {
    let mut d = old.clone();
    d.retain(|x| x.0 != 0);
    d.insert(0, (0, v));
    d
}
type Docs0 = Vec<(u8, u8)>;
/// param 0: 1 = the new definition writes a document, too; param 1: 1 = all definitions, one or two documents
#[no_mangle]
pub extern "C" fn l18_upgrade() {
    use crate::upgrade::*;
    let all = kh::param(1) == 1;
    let (first, second) = if !all { (1, 2) } else if kh::boolean() { (1, 2 + kh::choose(3)) } else { (3, 2) };
    let mut before: Docs0 = vec![(0, kh::u8("key"))];
    if all && kh::boolean() {
        before.push((1, kh::u8("key")));
    }
    let write = (kh::param(0) == 1 && kh::boolean()).then(|| kh::u8("key"));
    let crashed = kh::crash_run(|| {
        kh::no_crash(true);
        let (s, db) = start(first, false);
        for (id, k) in &before {
            drop(LowLevelConnection::overwrite::<LazyDocs, u8>(&db, id, vec![*k, *id]).unwrap());
        }
        query(&db, first);
        kh::settle();
        drop(db);
        drop(s);
        kh::settle();
        kh::no_crash(false);
        let (s, db) = start(second, true);
        if let Some(k) = write {
            drop(LowLevelConnection::overwrite::<LazyDocs, u8>(&db, &0, vec![k, 0]).unwrap());
            kh::ack();
        }
        query(&db, second);
        kh::settle();
        drop(db);
        drop(s);
        kh::settle();
    });
    let acks = kh::acks();
    let again = if kh::boolean() { first } else { second };
    if kh::torn_store().is_some() {
        kh::region("torn-store-write");
    }
    let r = try_start(again, all && kh::boolean()).map_err(bonsaidb_core::Error::from).and_then(|(s, db)| {
        let docs: Vec<VDoc> = db.collection::<LazyDocs>().all().query()?.into_iter()
            .map(|d| VDoc { id: d.header.id.deserialize::<u8>().unwrap(), pairs: vec![(d.contents[0], d.contents[1])], header: Header::from(d.header.clone()) })
            .collect();
        try_query(&db, again)?;
        Ok((s, db, docs))
    });
    if let Err(e) = &r {
        kh::print(&format!("{e:?}"));
    }
    kh::check(r.is_ok(), "a database can be opened and read after a crash");
    kh::region("");
    let Ok((_s, db, docs)) = r else { return };
    let same = |m: &Docs0| docs.len() == m.len() && docs.iter().zip(m).all(|(d, x)| kh::and(d.id == x.0, d.pairs == [(x.1, x.0)]));
    let after = write.map(|v| updated(&before, v));
    kh::check((acks == 0 && same(&before)) || after.is_some_and(|a| same(&a)), "after a crash, the documents are those of the acknowledged transactions, or of one more");
    look(&db, &docs, again, &[0]);
    kh::reach(if again == first { "back to the first definition" } else { "on to the second definition" });
    kh::reach(if crashed { "view after a crash" } else { "view after closing" });
}
