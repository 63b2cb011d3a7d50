//! listing documents: ranges, order, limit, headers, counts
use crate::docs::*;
use crate::kh;
use crate::schema::*;
use bonsaidb_core::connection::{Bound, Connection, LowLevelConnection, Range};
use bonsaidb_core::document::Header;
use std::ops::RangeBounds;

pub fn bound(what: &str) -> Bound<u8> {
    match kh::choose(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(kh::u8(what)),
        _ => Bound::Excluded(kh::u8(what)),
    }
}
/// param 0: documents; param 1: documents deleted again; param 3: in order of their ids
fn filled(db: &bonsaidb_local::Database) -> Model {
    let mut m = Model::default();
    for i in 0..kh::param(0) {
        let id = kh::u8("id");
        if kh::param(3) == 1 {
            kh::assume(m.docs.iter().all(|d| d.id < id));
        } else {
            kh::assume(m.find(id).is_none());
        }
        let c = vec![i as u8 ^ 0x50];
        let h = LowLevelConnection::insert::<Plain, _, _>(db, Some(&id), c.clone()).unwrap();
        let d = MDoc { id, contents: c, rev: 0 };
        m.handles.push((Header::try_from(h).unwrap(), d.clone()));
        m.set(d);
    }
    for _ in 0..kh::param(1) {
        let n = kh::choose(m.handles.len());
        let (h, d) = m.handles.remove(n);
        LowLevelConnection::delete::<Plain, _>(db, &h).unwrap();
        let i = m.find(d.id).unwrap();
        m.docs.remove(i);
    }
    m
}
#[no_mangle]
pub extern "C" fn l03_list() {
    let db = open::<PlainSchema>();
    let m = filled(&db);
    let range = Range { start: bound("start"), end: bound("end") };
    let descending = kh::boolean();
    let limit = match kh::choose(kh::param(0) + 2) { 0 => None, n => Some(n as u32 - 1) };
    let mut want: Vec<MDoc> = m.sorted().into_iter().filter(|d| range.contains(&d.id)).collect();
    let total = want.len();
    if descending {
        want.reverse();
    }
    if let Some(l) = limit {
        want.truncate(l as usize);
    }
    let col = db.collection::<Plain>();
    let build = || {
        let b = col.list(range.map_ref(|x| x));
        let mut b = if descending { b.descending() } else { b.ascending() };
        if let Some(l) = limit {
            b = b.limit(l);
        }
        b
    };
    match kh::choose(3) {
        0 => {
            let docs = build().query().unwrap();
            kh::check(docs.len() == want.len(), "listing returns as many of the range's documents as the limit allows");
            for (a, b) in docs.iter().zip(&want) {
                check_doc(a, b);
            }
            kh::reach("documents");
        }
        1 => {
            let hs = build().headers().unwrap();
            kh::check(hs.len() == want.len(), "listing headers returns as many of the range's documents as the limit allows");
            for (a, b) in hs.iter().zip(&want) {
                check_header(a, b);
            }
            kh::reach("headers");
        }
        _ => {
            kh::check(col.list(range.map_ref(|x| x)).count().unwrap() == total as u64, "count is the number of documents in the range");
            kh::reach("count");
        }
    }
}
/// several ids at once, in any order, repeated, missing
#[no_mangle]
pub extern "C" fn l03_multiple() {
    let db = open::<PlainSchema>();
    let m = filled(&db);
    let ids: Vec<u8> = (0..kh::param(2)).map(|_| kh::u8("wanted")).collect();
    let docs = db.collection::<Plain>().get_multiple(&ids).unwrap();
    for d in &m.docs {
        let n = docs.iter().filter(|x| x.header.id == did(d.id)).count();
        if ids.contains(&d.id) {
            kh::check(n > 0, "get_multiple returns every document asked for that exists");
        } else {
            kh::check(n == 0, "get_multiple returns only documents asked for");
        }
    }
    for d in &docs {
        let i = m.docs.iter().position(|x| did(x.id) == d.header.id);
        kh::check(i.is_some(), "get_multiple returns only documents that exist");
        check_doc(d, &m.docs[i.unwrap()]);
    }
    kh::reach("multiple");
}
