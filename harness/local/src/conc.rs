//! several threads at once: the outcome is that of some order of what they did
use crate::docs::did;
use crate::kh;
use crate::kv::text;
use crate::schema::*;
use crate::views::{bytes, check_view, put, Docs, VDoc};
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::Header;
use bonsaidb_core::keyvalue::{KeyStatus, KeyValue, Value};
use bonsaidb_core::schema::{Collection, Schema, SerializedView, View};
use bonsaidb_core::Error;
use bonsaidb_local::{Database, Storage};

/// both at once; param 0: deviations from round robin; param 5: 1 = the second in the new thread
fn both<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    let swap = kh::param(5) == 1;
    std::thread::scope(|s| {
        kh::schedules(kh::param(0) as u64);
        let r = if swap {
            let b = s.spawn(b);
            let a = a();
            (a, b.join().unwrap())
        } else {
            let a = s.spawn(a);
            let b = b();
            (a.join().unwrap(), b)
        };
        kh::schedules(0);
        r
    })
}
fn write<C: Collection<PrimaryKey = u8>>(db: &Database, id: u8, p: (u8, u8)) -> Result<VDoc, Error> {
    let h = LowLevelConnection::overwrite::<C, u8>(db, &id, bytes(&[p]))?;
    Ok(VDoc { id, pairs: vec![p], header: Header::try_from(h).unwrap() })
}
fn done(docs: &mut Docs, d: VDoc) {
    docs.retain(|x| x.id != d.id);
    docs.push(d);
}

/// one of n, or param i - 1
fn chosen(i: usize, n: usize) -> usize {
    match kh::param(i) {
        0 => kh::choose(n),
        given => given - 1,
    }
}
/// param 1: workers; the start: param 2; the other document: param 3; the operation: param 4
fn views<C, V>(policy: AccessPolicy, unique: bool)
where
    C: Collection<PrimaryKey = u8>,
    V: SerializedView<Key = u8, Value = u8> + View<Key = u8, Value = u8, Collection = C> + Clone,
{
    let mut c = config();
    c.workers.worker_count = kh::param(1);
    let db = Database::open::<ViewSchemas>(c).unwrap();
    let mut docs = Docs::new();
    match chosen(2, 3) {
        0 => {}
        1 => put::<C>(&db, &mut docs, 0, vec![(5, 1)]).unwrap(),
        _ => {
            put::<C>(&db, &mut docs, 0, vec![(5, 1)]).unwrap();
            drop(db.view::<V>().query().unwrap());
        }
    }
    let had = docs.len();
    // another document, or the same, under its key or another
    let which = chosen(3, 4) as u8;
    let (id, key) = (which & 1, 5 + (which >> 1));
    let other = db.clone();
    let op = chosen(4, 3);
    let (a, b) = both(move || write::<C>(&other, id, (key, 2)), || match op {
        0 => {
            let n = db.view::<V>().with_access_policy(policy).query().map(|v| v.len());
            (n.ok(), None, false)
        }
        1 => (None, Some(write::<C>(&db, 1, (6, 4))), false),
        _ => {
            if had == 1 {
                // a document that is overwritten meanwhile isn't deleted
                match db.view::<V>().with_key(&5).delete_docs() {
                    Ok(_) => return (None, None, true),
                    Err(Error::DocumentConflict(..)) => {}
                    Err(_) => kh::check(false, "documents can be deleted while others are written"),
                }
            }
            (None, None, false)
        }
    });
    // what happened
    let before = docs.len();
    match op {
        0 => {
            let clash = unique && had == 1 && id == 1 && key == 5;
            kh::check(a.is_ok() != clash, "a write succeeds while a view is queried, unless its key is taken");
            if let Ok(d) = a { done(&mut docs, d); }
            kh::check(matches!(b.0, Some(n) if n == before || n == docs.len()), "a query while a document is written returns the mappings before or after");
        }
        1 => {
            let b = b.1.unwrap();
            if unique {
                // doc 1 holds (6); the other may clash with it, or with document 0
                kh::check(a.is_ok() | b.is_ok(), "of two writes, one succeeds");
                if id == 0 && key == 6 {
                    kh::check(a.is_ok() != b.is_ok(), "of two writes of one unique key, exactly one succeeds");
                }
                if id == 0 && key == 5 { kh::check(a.is_ok() & b.is_ok(), "writes of different unique keys succeed"); }
            } else {
                kh::check(a.is_ok() & b.is_ok(), "writes succeed at the same time");
            }
            match (a, b) {
                (Ok(a), Ok(b)) if a.id == b.id => {
                    // either was last: revisions tell
                    let last = if a.header.revision.id > b.header.revision.id { a } else { b };
                    done(&mut docs, last);
                }
                (a, b) => {
                    if let Ok(a) = a { done(&mut docs, a); }
                    if let Ok(b) = b { done(&mut docs, b); }
                }
            }
        }
        _ => {
            // documents of key 5 were deleted, before or after the write
            let there: Vec<u8> = db.collection::<C>().all().query().unwrap().into_iter().map(|d| d.header.id.deserialize::<u8>().unwrap()).collect();
            let wrote = a.is_ok();
            if !unique { kh::check(wrote, "a write succeeds while documents are deleted"); }
            if let Ok(d) = a { done(&mut docs, d); }
            if had == 1 && b.2 {
                docs.retain(|d| there.contains(&d.id));
                kh::check(!there.contains(&0) || (wrote && id == 0), "documents a query matches are deleted, unless they are written after");
            }
            kh::check(!wrote || id == 0 || key == 5 || there.contains(&1), "a document written at the same time as others are deleted is there");
        }
    }
    check_view::<V>(&db, &docs, policy, &[0]);
    kh::reach("concurrent");
}
#[no_mangle]
pub extern "C" fn l20_lazy() {
    views::<LazyDocs, LazyView>(AccessPolicy::UpdateBefore, false);
}
#[no_mangle]
pub extern "C" fn l20_eager() {
    views::<EagerDocs, EagerView>(AccessPolicy::NoUpdate, false);
}
#[no_mangle]
pub extern "C" fn l20_unique() {
    views::<UniqueDocs, UniqueView>(AccessPolicy::UpdateBefore, true);
}

/// documents: conflicting and unrelated operations
#[no_mangle]
pub extern "C" fn l20_docs() {
    let db = open::<PlainSchema>();
    let first = LowLevelConnection::overwrite::<Plain, u8>(&db, &0, vec![1]).unwrap();
    let header = Header::try_from(first).unwrap();
    let ops = [kh::choose(4), kh::choose(4)];
    fn act(db: &Database, op: usize, h: &Header, v: u8) -> Result<u32, Error> {
        match op {
            0 => {
                let mut d = db.collection::<Plain>().get(&0).unwrap().ok_or_else(|| Error::DocumentNotFound(Plain::collection_name(), Box::new(did(0))))?;
                d.header = h.clone();
                d.contents = vec![v].into();
                LowLevelConnection::update::<Plain, _>(db, &mut d).map(|()| d.header.revision.id)
            }
            1 => LowLevelConnection::overwrite::<Plain, u8>(db, &0, vec![v]).map(|h| h.revision.id),
            2 => LowLevelConnection::delete::<Plain, _>(db, h).map(|()| 0),
            _ => LowLevelConnection::insert::<Plain, u8, _>(db, None, vec![v]).map(|h| u32::from(h.id)),
        }
    }
    let (other, h2) = (db.clone(), header.clone());
    let op = ops[0];
    let (a, b) = both(move || act(&other, op, &h2, 2), || act(&db, ops[1], &header, 3));
    let all: Vec<(u8, u32, u8)> = db.collection::<Plain>().all().query().unwrap().into_iter().map(|d| (d.header.id.deserialize::<u8>().unwrap(), d.header.revision.id, d.contents[0])).collect();
    let zero = all.iter().find(|d| d.0 == 0).map(|d| (d.1, d.2));
    // the outcomes of one order, or of the other
    let mut fits = false;
    for order in [[0, 1], [1, 0]] {
        let mut doc = Some((0u32, 1u8));
        let mut inserted = Vec::new();
        let mut same = true;
        for i in order {
            let (r, v) = if i == 0 { (&a, 2) } else { (&b, 3) };
            match ops[i] {
                0 => match doc {
                    Some((0, _)) => { same &= matches!(r, Ok(1)); doc = Some((1, v)); }
                    Some(_) => same &= matches!(r, Err(Error::DocumentConflict(..))),
                    None => same &= matches!(r, Err(Error::DocumentNotFound(..))),
                },
                1 => { let n = doc.map_or(0, |d| d.0 + 1); same &= matches!(r, Ok(m) if *m == n); doc = Some((n, v)); }
                2 => match doc {
                    Some((0, 1)) => { same &= r.is_ok(); doc = None; }
                    Some(_) => same &= matches!(r, Err(Error::DocumentConflict(..))),
                    None => same &= matches!(r, Err(Error::DocumentNotFound(..))),
                },
                _ => { let n = 1 + inserted.len() as u32; same &= matches!(r, Ok(m) if *m == n); inserted.push(v); }
            }
        }
        same &= doc == zero && all.len() == inserted.len() + usize::from(doc.is_some());
        for (i, v) in inserted.iter().enumerate() {
            same &= all.iter().any(|d| d.0 == 1 + i as u8 && d.2 == *v);
        }
        fits |= same;
    }
    kh::check(fits, "two operations on documents at once give what one order of them gives");
    let listed = db.list_executed_transactions(None, None).unwrap();
    kh::check(listed.len() == 1 + usize::from(a.is_ok()) + usize::from(b.is_ok()), "transactions applied at the same time are all listed");
    kh::reach("concurrent");
}

/// keys: operations are atomic; param 1: 1 = in files, opened again
#[no_mangle]
pub extern "C" fn l20_kv() {
    let files = kh::param(1) == 1;
    let c = || if files { disk() } else { config() };
    let db = Database::open::<PlainSchema>(c()).unwrap();
    let ops = [kh::choose(4), kh::choose(4)];
    if kh::boolean() {
        db.set_numeric_key("n", 10u64).execute().unwrap();
        if kh::boolean() { kh::settle(); }
    }
    let start = db.get_key("n").into_u64().unwrap();
    // 0: what it saw, or nothing; for set, 1 if it was set
    fn act(db: &Database, op: usize, by: u64) -> Option<u64> {
        match op {
            0 => Some(db.increment_key_by("n", by).execute().unwrap()),
            1 => match db.set_key("n", &by).only_if_vacant().execute().unwrap() { KeyStatus::Inserted => Some(1), _ => None },
            2 => db.delete_key("n").map(|s| matches!(s, KeyStatus::Deleted).then_some(1)).unwrap(),
            _ => db.get_key("n").into_u64().unwrap(),
        }
    }
    fn model(n: Option<u64>, op: usize, by: u64) -> (Option<u64>, Option<u64>) {
        match op {
            0 => { let v = n.unwrap_or(0) + by; (Some(v), Some(v)) }
            1 => if n.is_some() { (n, None) } else { (Some(by), Some(1)) },
            2 => (None, n.map(|_| 1)),
            _ => (n, n),
        }
    }
    let other = db.clone();
    let op = ops[0];
    let (a, b) = both(move || act2(&other, op, 3), || act2(&db, ops[1], 100));
    fn act2(db: &Database, op: usize, by: u64) -> Option<u64> {
        if op == 1 {
            match db.set_numeric_key("n", by).only_if_vacant().execute().unwrap() { KeyStatus::Inserted => Some(1), _ => None }
        } else {
            act(db, op, by)
        }
    }
    let (n1, ra1) = model(start, ops[0], 3);
    let (n1, rb1) = model(n1, ops[1], 100);
    let (n2, rb2) = model(start, ops[1], 100);
    let (n2, ra2) = model(n2, ops[0], 3);
    let db = if files {
        drop(db);
        Database::open::<PlainSchema>(c()).unwrap()
    } else {
        if kh::boolean() { kh::settle(); }
        db
    };
    let end = db.get_key("n").into_u64().unwrap();
    kh::check((a == ra1 && b == rb1 && end == n1) || (a == ra2 && b == rb2 && end == n2), "two operations on a key at once give what one order of them gives");
    let _ = (text(b'a'), Value::Numeric(bonsaidb_core::keyvalue::Numeric::UnsignedInteger(0)));
    kh::reach("concurrent");
}

/// databases: created and deleted at once; param 1: 1 = in files
#[no_mangle]
pub extern "C" fn l20_dbs() {
    use bonsaidb_local::config::Builder;
    let c = if kh::param(1) == 1 { disk() } else { config() };
    let s = Storage::open(c.with_schema::<PlainSchema>().unwrap()).unwrap();
    let there = kh::boolean();
    if there {
        drop(s.create_database::<PlainSchema>("d", false).unwrap());
    }
    let ops = [kh::choose(3), kh::choose(3)];
    fn act(s: &Storage, op: usize) -> bool {
        match op {
            // (create_database also opens it, which a deletion may precede)
            0 => s.create_database_with_schema("d", PlainSchema::schema_name(), false).is_ok(),
            1 => s.create_database_with_schema("d", PlainSchema::schema_name(), true).is_ok(),
            _ => s.delete_database("d").is_ok(),
        }
    }
    fn model(there: bool, op: usize) -> (bool, bool) {
        match op {
            0 => (true, !there),
            1 => (true, true),
            _ => (false, there),
        }
    }
    let other = s.clone();
    let op = ops[0];
    let (a, b) = both(move || act(&other, op), || act(&s, ops[1]));
    let (t1, a1) = model(there, ops[0]);
    let (t1, b1) = model(t1, ops[1]);
    let (t2, b2) = model(there, ops[1]);
    let (t2, a2) = model(t2, ops[0]);
    let names = s.list_databases().unwrap().iter().filter(|d| d.name == "d").count();
    let end = names == 1;
    kh::check(names <= 1, "a database is listed once");
    kh::check((a == a1 && b == b1 && end == t1) || (a == a2 && b == b2 && end == t2), "creating and deleting a database at once gives what one order gives");
    if end {
        let db = s.database::<PlainSchema>("d").unwrap();
        LowLevelConnection::overwrite::<Plain, u8>(&db, &0, vec![1]).unwrap();
        let db2 = s.database::<PlainSchema>("d").unwrap();
        kh::check(db2.collection::<Plain>().get(&0).unwrap().is_some_and(|d| d.contents[..] == [1]), "a database created while another thread creates it is used by both");
    } else {
        kh::check(s.database::<PlainSchema>("d").is_err(), "a deleted database is gone");
    }
    kh::reach("concurrent");
}
