//! opening a database again, with the views its schema has then
use crate::kh;
use crate::schema::*;
use crate::views::{check_view, del, put, Docs, VDoc};
use bonsaidb_core::connection::{AccessPolicy, Connection, StorageConnection};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};

pub fn start(which: usize, check: bool) -> (Storage, Database) {
    try_start(which, check).unwrap()
}
pub fn try_start(which: usize, check: bool) -> Result<(Storage, Database), bonsaidb_core::Error> {
    let c = disk();
    let c = match which {
        0 => c.with_schema::<ViewsWithout>(),
        1 => c.with_schema::<Views0>(),
        2 => c.with_schema::<Views1>(),
        3 => c.with_schema::<Views2>(),
        _ => c.with_schema::<Views3>(),
    };
    let mut c = c.unwrap();
    c.views.check_integrity_on_open = check;
    let s = Storage::open(c)?;
    let db = match which {
        0 => s.create_database::<ViewsWithout>("default", true),
        1 => s.create_database::<Views0>("default", true),
        2 => s.create_database::<Views1>("default", true),
        3 => s.create_database::<Views2>("default", true),
        _ => s.create_database::<Views3>("default", true),
    };
    Ok((s, db?))
}
pub fn try_query(db: &Database, which: usize) -> Result<(), bonsaidb_core::Error> {
    match which {
        0 => Ok(()),
        1 => db.view::<LazyView>().query().map(drop),
        2 => db.view::<LazyOne>().query().map(drop),
        3 => db.view::<EagerTwo>().query().map(drop),
        _ => db.view::<UniqueThree>().query().map(drop),
    }
}
pub fn query(db: &Database, which: usize) {
    try_query(db, which).unwrap();
}
fn swapped(docs: &Docs) -> Docs {
    docs.iter().map(|d| VDoc { id: d.id, pairs: d.pairs.iter().map(|(k, v)| (*v, *k)).collect(), header: d.header.clone() }).collect()
}
pub fn look(db: &Database, docs: &Docs, which: usize, kinds: &[usize]) {
    match which {
        0 => kh::check(db.collection::<LazyDocs>().all().count().unwrap() == docs.len() as u64, "opening again keeps the documents"),
        1 => check_view::<LazyView>(db, docs, AccessPolicy::UpdateBefore, kinds),
        2 => check_view::<LazyOne>(db, &swapped(docs), AccessPolicy::UpdateBefore, kinds),
        3 => check_view::<EagerTwo>(db, docs, AccessPolicy::UpdateBefore, kinds),
        _ => check_view::<UniqueThree>(db, &swapped(docs), AccessPolicy::UpdateBefore, kinds),
    }
}
fn step(db: &Database, docs: &mut Docs, which: usize) {
    match kh::choose(4) {
        0 => {
            let id = kh::choose(2) as u8;
            let p = vec![(kh::u8("key"), kh::u8("value"))];
            let taken = which == 4 && docs.iter().any(|d| d.id != id && d.pairs[0].1 == p[0].1);
            let r = put::<LazyDocs>(db, docs, id, p);
            if taken {
                kh::check(matches!(r, Err(Error::UniqueKeyViolation { .. })), "a view that has become unique keeps keys unique");
                kh::reach("refused");
            } else {
                if let Err(e) = &r {
                    kh::print(&format!("{e:?}"));
                }
                kh::check(r.is_ok(), "documents can be written whatever views there were");
            }
        }
        1 => {
            if docs.is_empty() {
                kh::skip();
            }
            del::<LazyDocs>(db, docs, 0);
        }
        2 => look(db, docs, which, &[0]),
        _ => {}
    }
}
/// param 0: schemas one after the other, param 1: steps with each, param 2: 1 to check on every opening, not just the last
#[no_mangle]
pub extern "C" fn l19_upgrade() {
    let mut docs = Docs::new();
    let mut which = 0;
    for i in 0..kh::param(0) {
        // a view with another definition has another version; one that has been removed doesn't come back
        which = if i == 0 { kh::choose(4) } else { 1 + kh::choose(4) };
        if which == 4 {
            for d in 1..docs.len() {
                kh::assume(docs[0].pairs[0].1 != docs[d].pairs[0].1);
            }
        }
        let last = i + 1 == kh::param(0);
        let (s, db) = start(which, (last || kh::param(2) == 1) && kh::boolean());
        if last && kh::boolean() {
            kh::settle();
        }
        for _ in 0..kh::param(1) {
            step(&db, &mut docs, which);
        }
        if last {
            look(&db, &docs, which, &[0, 1, 2]);
            kh::reach("upgraded");
        }
        drop(db);
        drop(s);
    }
}
