//! the list of executed transactions
use crate::docs::did;
use crate::kh;
use crate::schema::*;
use crate::views::{bytes, del, put, Docs};
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::keyvalue::KeyValue;
use bonsaidb_core::schema::{Collection, CollectionName};
use bonsaidb_core::transaction::{Changes, Executed, Operation, Transaction};
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};

#[derive(Clone, PartialEq, Debug)]
enum Change {
    Documents(Vec<(CollectionName, DocumentId, bool)>),
    Key(Option<String>, String, bool),
}
fn change(e: &Executed) -> Change {
    match &e.changes {
        Changes::Documents(d) => Change::Documents(d.documents.iter().map(|x| (d.collections[x.collection as usize].clone(), x.id.clone(), x.deleted)).collect()),
        Changes::Keys(k) => {
            kh::check(k.len() == 1, "a key-value transaction lists its keys");
            Change::Key(k[0].namespace.clone(), k[0].key.clone(), k[0].deleted)
        }
    }
}
struct Log {
    changes: Vec<Change>,
    ids: Vec<u64>,
    last: u64,
}
fn note(db: &Database, l: &mut Log, c: Change) {
    let now = db.last_transaction_id().unwrap().unwrap();
    kh::check(now > l.last, "transaction ids increase");
    l.changes.push(c);
    let all = db.list_executed_transactions(Some(l.last + 1), None).unwrap();
    kh::check(all.len() == 1 && all[0].id <= now, "an applied transaction is listed once, after those before it");
    l.ids.push(all[0].id);
    l.last = now;
}
fn step(db: &Database, l: &mut Log, lazy: &mut Docs, eager: &mut Docs, has_key: &mut bool) {
    let (ln, en) = (LazyDocs::collection_name(), EagerDocs::collection_name());
    match kh::choose(9) {
        0 => {
            let id = 1 + kh::choose(2) as u8;
            put::<LazyDocs>(db, lazy, id, vec![(kh::u8("key"), 1)]).unwrap();
            note(db, l, Change::Documents(vec![(ln, did(id), false)]));
        }
        1 => {
            let id = kh::u8("id");
            put::<EagerDocs>(db, eager, id, vec![(2, kh::u8("value"))]).unwrap();
            note(db, l, Change::Documents(vec![(en, did(id), false)]));
        }
        2 => {
            if lazy.is_empty() {
                kh::skip();
            }
            let id = lazy[0].id;
            del::<LazyDocs>(db, lazy, 0);
            note(db, l, Change::Documents(vec![(ln, did(id), true)]));
        }
        3 | 4 => {
            // several operations over two collections; the last one may be refused
            let mut t = Transaction::new();
            let mut want = Vec::new();
            let order = kh::choose(3);
            for i in 0..3u8 {
                let first = (order == 0 && i == 1) || (order == 1 && i != 1) || (order == 2 && i == 0);
                let id = 10 + i;
                t.push(Operation::overwrite(if first { ln.clone() } else { en.clone() }, did(id), bytes(&[(i, 3)])));
                want.push((if first { ln.clone() } else { en.clone() }, did(id), false));
                let docs = if first { &mut *lazy } else { &mut *eager };
                docs.retain(|d| d.id != id);
            }
            let refused = kh::boolean();
            if refused {
                t.push(Operation::check_document_exists::<LazyDocs>(&99).unwrap());
            }
            let r = LowLevelConnection::apply_transaction(db, t);
            kh::check(r.is_err() == refused, "a transaction whose operations can be applied is");
            if !refused {
                note(db, l, Change::Documents(want));
                kh::reach("several");
            }
        }
        5 => {
            db.set_binary_key("k", &[kh::u8("key value")]).execute().unwrap();
            *has_key = true;
            kh::settle();
            note(db, l, Change::Key(None, "k".into(), false));
        }
        6 => {
            if !*has_key {
                kh::skip();
            }
            db.with_key_namespace("").get_key("k").query().unwrap();
            db.delete_key("k").unwrap();
            *has_key = false;
            kh::settle();
            note(db, l, Change::Key(None, "k".into(), true));
        }
        7 => {
            // mapping a view is not listed
            db.view::<LazyView>().with_access_policy(AccessPolicy::UpdateBefore).query().unwrap();
            l.last = db.last_transaction_id().unwrap().unwrap_or(0).max(l.last);
            kh::reach("mapped");
        }
        _ => {
            let t = Transaction::from(Operation::check_document_exists::<LazyDocs>(&99).unwrap());
            kh::check(LowLevelConnection::apply_transaction(db, t).is_err(), "a transaction that can't be applied is refused");
        }
    }
}
fn listed(db: &Database, l: &Log) {
    let start = if kh::boolean() { Some(match kh::choose(3) {
            0 => kh::choose(l.last as usize + 1) as u64,
            1 => l.last + 1,
            _ => u64::MAX,
        }) } else { None };
    let limit = if kh::boolean() { Some(kh::u32("limit")) } else { None };
    let got = db.list_executed_transactions(start, limit).unwrap();
    let mut want = l.ids.iter().enumerate().filter(|(_, id)| start.map_or(true, |s| **id >= s));
    let mut n = 0u32;
    for g in &got {
        let Some((i, id)) = want.next() else {
            return kh::check(false, "only applied transactions from the starting id on are listed");
        };
        kh::check(g.id == *id, "the applied transactions from the starting id on are listed in order");
        kh::check(change(g) == l.changes[i], "a listed transaction has the changes it made, in order");
        n += 1;
    }
    kh::check(limit.map_or(true, |l| n <= l), "no more transactions than the limit are listed");
    kh::check(want.next().is_none() || limit == Some(n), "every applied transaction from the starting id on is listed, up to the limit");
    kh::reach("listed");
}
/// param 0: steps, param 1: 1 = files, opened again
#[no_mangle]
pub extern "C" fn l12_log() {
    let c = || if kh::param(1) == 1 { disk() } else { config() };
    let s = Storage::open(c().with_schema::<ViewSchemas>().unwrap()).unwrap();
    let db = s.create_database::<ViewSchemas>("default", false).unwrap();
    let mut l = Log { changes: Vec::new(), ids: Vec::new(), last: db.last_transaction_id().unwrap().unwrap_or(0) };
    let (mut lazy, mut eager, mut key) = (Docs::new(), Docs::new(), false);
    for _ in 0..kh::param(0) {
        step(&db, &mut l, &mut lazy, &mut eager, &mut key);
    }
    if kh::param(1) == 1 {
        drop(db);
        drop(s);
        let s = Storage::open(c().with_schema::<ViewSchemas>().unwrap()).unwrap();
        let db = s.database::<ViewSchemas>("default").unwrap();
        listed(&db, &l);
        if kh::boolean() {
            put::<EagerDocs>(&db, &mut eager, 3, vec![(2, 1)]).unwrap();
            l.last = *l.ids.last().unwrap_or(&0);
            let all = db.list_executed_transactions(Some(l.last + 1), None).unwrap();
            kh::check(all.len() == 1 && change(&all[0]) == Change::Documents(vec![(EagerDocs::collection_name(), did(3), false)]), "transactions applied after opening again are listed after the others");
        }
        kh::reach("opened again");
    } else {
        listed(&db, &l);
    }
}
/// the limits' limits
#[no_mangle]
pub extern "C" fn l12_limits() {
    let db = open::<PlainSchema>();
    let n = kh::param(0) as u32;
    for i in 0..n {
        if i == 0 {
            LowLevelConnection::overwrite::<Plain, u8>(&db, &1, vec![1]).unwrap();
        } else {
            LowLevelConnection::apply_transaction(&db, Transaction::from(Operation::check_document_exists::<Plain>(&1).unwrap())).unwrap();
        }
    }
    let all = db.list_executed_transactions(None, Some(n)).unwrap();
    let (first, max) = (all[0].id, n.min(1000));
    let limit = match kh::choose(6) {
        0 => None,
        1 => Some(99),
        2 => Some(101),
        3 => Some(1000),
        4 => Some(1001),
        _ => Some(u32::MAX),
    };
    let skipped = kh::choose(2) as u32 * 7;
    let got = db.list_executed_transactions(Some(first + skipped as u64), limit).unwrap();
    let want = limit.unwrap_or(100).min(max).min(n - skipped);
    kh::check(got.len() == want as usize, "100 transactions are listed unless more are asked for, and at most 1000");
    kh::check(got.iter().enumerate().all(|(i, g)| g.id == first + skipped as u64 + i as u64), "the applied transactions from the starting id on are listed in order");
    kh::reach("limits");
}
