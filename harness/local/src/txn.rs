//! transactions: all operations take effect in order, or none does
use crate::docs::*;
use crate::kh;
use crate::schema::*;
use bonsaidb_core::connection::{Connection, LowLevelConnection};
use bonsaidb_core::document::{DocumentId, Header, Revision};
use bonsaidb_core::schema::{Collection, CollectionName};
use bonsaidb_core::transaction::{Changes, Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::Database;

pub fn name(c: usize) -> CollectionName {
    if c == 0 { Plain::collection_name() } else { Other::collection_name() }
}
#[derive(Clone)]
enum Op {
    Insert(Option<u8>, Vec<u8>),
    Update(Header, Vec<u8>),
    Overwrite(u8, Vec<u8>),
    Delete(Header),
    Exists(u8),
    Current(Header),
}
fn hid(h: &Header) -> u8 {
    h.id.deserialize::<u8>().unwrap()
}
fn matching(m: &Model, h: &Header) -> Option<(usize, bool)> {
    m.find(hid(h)).map(|i| (i, Revision::with_id(m.docs[i].rev, &m.docs[i].contents) == h.revision))
}
enum Fails {
    Conflict(u8),
    Missing(u8),
    Exhausted,
}
enum Did {
    Nothing,
    Wrote(MDoc),
    Removed(u8),
}
fn apply(m: &mut Model, op: &Op) -> Result<Did, Fails> {
    match op {
        Op::Insert(id, c) => {
            let id = match id {
                Some(i) => *i,
                None => match m.highest {
                    None => 1,
                    Some(255) => return Err(Fails::Exhausted),
                    Some(h) => h + 1,
                },
            };
            if m.find(id).is_some() {
                return Err(Fails::Conflict(id));
            }
            let d = MDoc { id, contents: c.clone(), rev: 0 };
            m.set(d.clone());
            Ok(Did::Wrote(d))
        }
        Op::Update(h, c) => match matching(m, h) {
            None => Err(Fails::Missing(hid(h))),
            Some((_, false)) => Err(Fails::Conflict(hid(h))),
            Some((i, true)) => {
                let d = &mut m.docs[i];
                if d.contents != *c {
                    d.rev += 1;
                    d.contents = c.clone();
                }
                Ok(Did::Wrote(d.clone()))
            }
        },
        Op::Overwrite(id, c) => {
            let d = match m.find(*id) {
                Some(i) if m.docs[i].contents == *c => m.docs[i].clone(),
                Some(i) => MDoc { id: *id, contents: c.clone(), rev: m.docs[i].rev + 1 },
                None => MDoc { id: *id, contents: c.clone(), rev: 0 },
            };
            m.set(d.clone());
            Ok(Did::Wrote(d))
        }
        Op::Delete(h) => match matching(m, h) {
            None => Err(Fails::Missing(hid(h))),
            Some((_, false)) => Err(Fails::Conflict(hid(h))),
            Some((i, true)) => {
                m.docs.remove(i);
                Ok(Did::Removed(hid(h)))
            }
        },
        Op::Exists(id) => m.find(*id).map(|_| Did::Nothing).ok_or(Fails::Missing(*id)),
        Op::Current(h) => match matching(m, h) {
            None => Err(Fails::Missing(hid(h))),
            Some((_, false)) => Err(Fails::Conflict(hid(h))),
            Some((_, true)) => Ok(Did::Nothing),
        },
    }
}
fn operation(c: usize, op: &Op) -> Operation {
    let n = name(c);
    match op.clone() {
        Op::Insert(id, c) => Operation::insert(n, id.map(did), c),
        Op::Update(h, c) => Operation::update(n, h, c),
        Op::Overwrite(id, c) => Operation::overwrite(n, did(id), c),
        Op::Delete(h) => Operation::delete(n, h),
        Op::Exists(id) => {
            if c == 0 { Operation::check_document_exists::<Plain>(&id) } else { Operation::check_document_exists::<Other>(&id) }.unwrap()
        }
        Op::Current(h) => {
            if c == 0 { Operation::check_document_is_current::<Plain, _>(&h) } else { Operation::check_document_is_current::<Other, _>(&h) }.unwrap()
        }
    }
}
fn listed(db: &Database, c: usize) -> Vec<bonsaidb_core::document::OwnedDocument> {
    if c == 0 { db.collection::<Plain>().all().query().unwrap() } else { db.collection::<Other>().all().query().unwrap() }
}
fn same(db: &Database, models: &[Model; 2]) {
    for c in 0..2 {
        let (all, want) = (listed(db, c), models[c].sorted());
        kh::check(all.len() == want.len(), "after a transaction, a collection holds exactly the documents it should");
        for (a, b) in all.iter().zip(&want) {
            check_doc(a, b);
        }
    }
}
/// param 0: operations; param 1: contents bytes; param 2: 1 = one collection only
#[no_mangle]
pub extern "C" fn l02_txn() {
    let db = open::<PlainSchema>();
    let mut models = [Model::default(), Model::default()];
    let mut handles: Vec<Header> = Vec::new();
    // one document that has been rewritten: an outdated header and a current one
    let (id, c0, c1) = (kh::u8("first id"), vec![kh::u8("first contents")], vec![kh::u8("second contents")]);
    for c in [c0, c1] {
        let h = Header::try_from(LowLevelConnection::overwrite::<Plain, u8>(&db, &id, c.clone()).unwrap()).unwrap();
        apply(&mut models[0], &Op::Overwrite(id, c)).ok().unwrap();
        handles.push(h);
    }
    let before = db.list_executed_transactions(None, None).unwrap();
    kh::check(before.len() == 2, "each applied transaction is listed");
    let cols = if kh::param(2) == 1 { 1 } else { 2 };
    let (mut tx, mut expected, mut fails, mut after) = (Transaction::new(), Vec::new(), None, models.clone());
    for _ in 0..kh::param(0) {
        let c = kh::choose(cols);
        let op = match kh::choose(if c == 0 { 7 } else { 4 }) {
            0 => Op::Insert(Some(kh::u8("id")), contents("contents", kh::param(1))),
            1 => Op::Insert(None, contents("contents", kh::param(1))),
            2 => Op::Overwrite(kh::u8("id"), contents("contents", kh::param(1))),
            3 => Op::Exists(kh::u8("id")),
            4 => Op::Update(handles[kh::choose(2)].clone(), contents("contents", kh::param(1))),
            5 => Op::Delete(handles[kh::choose(2)].clone()),
            _ => Op::Current(handles[kh::choose(2)].clone()),
        };
        tx.push(operation(c, &op));
        if fails.is_none() {
            match apply(&mut after[c], &op) {
                Ok(d) => expected.push((c, d)),
                Err(f) => fails = Some((c, f)),
            }
        }
    }
    match (tx.apply(&db), fails) {
        (Ok(results), None) => {
            kh::check(results.len() == expected.len(), "one result per operation");
            let mut changes = Vec::new();
            for (r, (c, d)) in results.iter().zip(&expected) {
                match (r, d) {
                    (OperationResult::Success, Did::Nothing) => {}
                    (OperationResult::DocumentUpdated { collection, header }, Did::Wrote(d)) => {
                        kh::check(*collection == name(*c), "a result names its collection");
                        check_header(header, d);
                        changes.push((name(*c), d.id, false));
                    }
                    (OperationResult::DocumentDeleted { collection, id }, Did::Removed(d)) => {
                        kh::check(*collection == name(*c) && *id == did(*d), "a result names the deleted document");
                        changes.push((name(*c), *d, true));
                    }
                    _ => kh::check(false, "each result is of its operation's kind"),
                }
            }
            same(&db, &after);
            let listed = db.list_executed_transactions(None, None).unwrap();
            kh::check(listed.len() == 3 && listed[2].id > before[1].id, "an applied transaction is listed once, after those before it");
            kh::check(db.last_transaction_id().unwrap() == Some(listed[2].id), "the last transaction is the one applied last");
            match &listed[2].changes {
                Changes::Documents(d) => {
                    kh::check(d.documents.len() == changes.len(), "an executed transaction lists its changes");
                    for (a, (c, id, del)) in d.documents.iter().zip(&changes) {
                        kh::check(d.collections[usize::from(a.collection)] == *c && a.id == did(*id) && a.deleted == *del, "an executed transaction lists the documents it changed in order");
                    }
                }
                Changes::Keys(_) => kh::check(false, "a document transaction lists document changes"),
            }
            kh::reach("committed");
        }
        (Err(e), Some((c, f))) => {
            let right = match f {
                Fails::Conflict(id) => matches!(&e, Error::DocumentConflict(n, h) if *n == name(c) && h.id == did(id)),
                Fails::Missing(id) => matches!(&e, Error::DocumentNotFound(n, i) if *n == name(c) && **i == did(id)),
                Fails::Exhausted => true,
            };
            kh::check(right, "a refused transaction reports the first operation that failed");
            same(&db, &models);
            kh::check(db.list_executed_transactions(None, None).unwrap().len() == 2, "a refused transaction isn't listed as executed");
            kh::reach("refused");
            // the database keeps working
            let h = LowLevelConnection::overwrite::<Plain, u8>(&db, &id, vec![1u8]).unwrap();
            drop(h);
        }
        (Ok(_), Some(_)) => kh::check(false, "a transaction with a failing operation is refused"),
        (Err(_), None) => kh::check(false, "a transaction whose operations all succeed is applied"),
    }
}
