//! views: what a query returns is what mapping the live documents gives
use crate::docs::*;
use crate::kh;
use crate::schema::*;
use bonsaidb_core::connection::{AccessPolicy, Bound, Connection, LowLevelConnection, Range, Sort, View as Query};
use bonsaidb_core::document::Header;
use bonsaidb_core::schema::{Collection, SerializedView, View};
use bonsaidb_core::Error;
use bonsaidb_local::Database;
use std::ops::RangeBounds;

#[derive(Clone)]
pub struct VDoc {
    pub id: u8,
    pub pairs: Vec<(u8, u8)>,
    pub header: Header,
}
pub type Docs = Vec<VDoc>;
/// 0..=max pairs with different keys
fn pairs(max: usize) -> Vec<(u8, u8)> {
    let n = kh::choose(max + 1);
    let v: Vec<(u8, u8)> = (0..n).map(|_| (kh::u8("key"), kh::u8("value"))).collect();
    for i in 0..n {
        for j in 0..i {
            kh::assume(v[i].0 != v[j].0);
        }
    }
    v
}
pub fn bytes(p: &[(u8, u8)]) -> Vec<u8> {
    p.iter().flat_map(|(k, v)| [*k, *v]).collect()
}
pub fn put<C: Collection<PrimaryKey = u8>>(db: &Database, docs: &mut Docs, id: u8, p: Vec<(u8, u8)>) -> Result<(), Error> {
    let h = LowLevelConnection::overwrite::<C, u8>(db, &id, bytes(&p))?;
    let d = VDoc { id, pairs: p, header: Header::try_from(h).unwrap() };
    match docs.iter().position(|x| x.id == id) {
        Some(i) => docs[i] = d,
        None => docs.push(d),
    }
    Ok(())
}
pub fn del<C: Collection<PrimaryKey = u8>>(db: &Database, docs: &mut Docs, i: usize) {
    LowLevelConnection::delete::<C, _>(db, &docs[i].header).unwrap();
    docs.remove(i);
}
/// (key, value, document index), keys ascending
pub fn expected(docs: &Docs) -> Vec<(u8, u8, usize)> {
    let mut v: Vec<(u8, u8, usize)> = docs.iter().enumerate().flat_map(|(i, d)| d.pairs.iter().map(move |(k, v)| (*k, *v, i))).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn sum<'a>(w: impl Iterator<Item = &'a (u8, u8, usize)>) -> u8 {
    w.fold(0u8, |a, m| a.wrapping_add(m.1))
}
/// `got` lists exactly the mappings wanted; keys in the order given
fn same_mappings(got: &[(Header, u8, u8)], want: &[(u8, u8, usize)], docs: &Docs) {
    kh::check(got.len() == want.len(), "a query returns each of the range's mappings once");
    for w in want {
        let n = got.iter().filter(|(h, k, _)| h.id == did(docs[w.2].id) && *k == w.0).collect::<Vec<_>>();
        kh::check(n.len() == 1, "a query returns the mappings of the live documents");
        kh::check(n[0].2 == w.1, "a mapping has the value last emitted");
        kh::check(n[0].0 == docs[w.2].header, "a mapping's source is the document's current header");
    }
    for (g, w) in got.iter().zip(want) {
        kh::check(g.1 == w.0, "a query returns mappings in key order");
    }
}
fn key() -> u8 {
    kh::u8("wanted key")
}
/// one of every kind of query, against the model
pub fn check_view<V: SerializedView<Key = u8, Value = u8> + View<Key = u8, Value = u8> + Clone>(db: &Database, docs: &Docs, policy: AccessPolicy, kinds: &[usize])
where
    V::Collection: Collection<PrimaryKey = u8>,
{
    let view = || -> Query<'_, Database, V, u8> { db.view::<V>().with_access_policy(policy) };
    let want = expected(docs);
    match kinds[kh::choose(kinds.len())] {
        0 => {
            let got: Vec<_> = view().query().unwrap().into_iter().map(|m| (m.source.try_into().unwrap(), m.key, m.value)).collect();
            same_mappings(&got, &want, docs);
            kh::reach("query");
        }
        1 => {
            kh::check(view().reduce().unwrap() == sum(want.iter()), "the reduced value is that of every mapping");
            let g = view().reduce_grouped().unwrap();
            let mut keys: Vec<u8> = want.iter().map(|w| w.0).collect();
            keys.dedup();
            kh::check(g.len() == keys.len(), "a grouped reduction has one value per key");
            for (g, k) in g.iter().zip(&keys) {
                kh::check(g.key == *k, "a grouped reduction is in key order");
                kh::check(g.value == sum(want.iter().filter(|w| w.0 == *k)), "a key's reduced value is that of its mappings");
            }
            kh::reach("reduce");
        }
        2 => {
            let k = key();
            let w: Vec<_> = want.iter().filter(|w| w.0 == k).cloned().collect();
            let got: Vec<_> = view().with_key(&k).query().unwrap().into_iter().map(|m| (m.source.try_into().unwrap(), m.key, m.value)).collect();
            same_mappings(&got, &w, docs);
            kh::check(view().with_key(&k).reduce().unwrap() == sum(w.iter()), "a key's reduction is that of its mappings");
            kh::reach("key");
        }
        3 => {
            let docs_got = view().query_with_docs().unwrap();
            let got: Vec<_> = docs_got.mappings.iter().map(|m| (Header::try_from(m.source.clone()).unwrap(), m.key, m.value)).collect();
            same_mappings(&got, &want, docs);
            for m in docs_got.iter() {
                let d = docs.iter().find(|d| m.document.header.id == did(d.id));
                kh::check(d.map_or(false, |d| m.document.contents[..] == bytes(&d.pairs)[..]), "a query with documents returns each mapping's document");
                kh::check(d.map_or(false, |d| d.pairs.iter().any(|p| p.0 == *m.key)), "a query with documents pairs mappings with the documents that emitted them");
            }
            kh::reach("with docs");
        }
        4 => {
            let range = Range { start: crate::list::bound("start"), end: crate::list::bound("end") };
            if let (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) = (&range.start, &range.end) {
                kh::assume(a <= b);
            }
            let desc = kh::boolean();
            let limit = match kh::choose(4) { 0 => None, n => Some(n as u32 - 1) };
            let mut w: Vec<_> = want.iter().filter(|w| range.contains(&w.0)).cloned().collect();
            if desc {
                w.reverse();
            }
            let r = LowLevelConnection::query::<V, u8>(db, 
                Some(bonsaidb_core::connection::QueryKey::Range(bonsaidb_core::connection::RangeRef::owned(range.clone()))),
                if desc { Sort::Descending } else { Sort::Ascending }, limit, policy,
            ).unwrap();
            let got: Vec<_> = r.into_iter().map(|m| (Header::try_from(m.source).unwrap(), m.key, m.value)).collect();
            limited(&got, &w, limit, docs);
            kh::reach("range");
        }
        5 => {
            let ks: Vec<u8> = (0..2).map(|_| key()).collect();
            let desc = kh::boolean();
            let limit = match kh::choose(4) { 0 => None, n => Some(n as u32 - 1) };
            let v = view().with_keys(&ks);
            let v = if desc { v.descending() } else { v };
            let v = if let Some(l) = limit { v.limit(l) } else { v };
            let got: Vec<_> = v.query().unwrap().into_iter().map(|m| (m.source.try_into().unwrap(), m.key, m.value)).collect();
            let mut w: Vec<_> = want.iter().filter(|w| ks.contains(&w.0)).cloned().collect();
            if desc {
                w.reverse();
            }
            limited(&got, &w, limit, docs);
            kh::reach("keys");
        }
        6 => {
            // updated after a query: that query gives some earlier state, later ones this one
            let first = db.view::<V>().with_access_policy(AccessPolicy::UpdateAfter).query().unwrap();
            kh::check(first.len() <= 4, "an outdated query returns mappings that were there");
            kh::settle();
            let got: Vec<_> = db.view::<V>().with_access_policy(AccessPolicy::NoUpdate).query().unwrap().into_iter().map(|m| (m.source.try_into().unwrap(), m.key, m.value)).collect();
            same_mappings(&got, &want, docs);
            kh::reach("updated after");
        }
        7 => {
            let (lo, hi) = (key(), key());
            kh::assume(lo <= hi);
            let w: Vec<_> = want.iter().filter(|w| lo <= w.0 && w.0 <= hi).cloned().collect();
            let v = || view().with_key_range(lo..=hi);
            kh::check(v().reduce().unwrap() == sum(w.iter()), "a range's reduction is that of its mappings");
            let g = v().reduce_grouped().unwrap();
            let mut keys: Vec<u8> = w.iter().map(|w| w.0).collect();
            keys.dedup();
            kh::check(g.len() == keys.len(), "a range's grouped reduction has one value per key");
            for (g, k) in g.iter().zip(&keys) {
                kh::check(g.key == *k && g.value == sum(w.iter().filter(|w| w.0 == *k)), "a range's grouped reduction has each key's value");
            }
            kh::reach("range reduced");
        }
        8 => {
            let (lo, hi, desc) = (key(), key(), kh::boolean());
            kh::assume(lo <= hi);
            let limit = match kh::choose(3) { 0 => None, n => Some(n as u32) };
            let mut w: Vec<_> = want.iter().filter(|w| lo <= w.0 && w.0 <= hi).cloned().collect();
            let v = view().with_key_range(lo..=hi);
            let v = if desc { w.reverse(); v.descending() } else { v };
            let v = if let Some(l) = limit { v.limit(l) } else { v };
            let r = v.query_with_docs().unwrap();
            let got: Vec<_> = r.mappings.iter().map(|m| (Header::try_from(m.source.clone()).unwrap(), m.key, m.value)).collect();
            limited(&got, &w, limit, docs);
            for m in r.iter() {
                let d = docs.iter().find(|d| m.document.header == d.header);
                kh::check(d.map_or(false, |d| m.document.contents[..] == bytes(&d.pairs)[..]), "a query with documents returns each mapping's document");
            }
            kh::check(r.documents.iter().all(|(_, d)| got.iter().any(|g| g.0 == d.header)), "a query with documents returns only its mappings' documents");
            kh::reach("range with docs");
        }
        _ => unreachable!(),
    }
}
/// at most `limit` of the wanted mappings, the first in key order
fn limited(got: &[(Header, u8, u8)], want: &[(u8, u8, usize)], limit: Option<u32>, docs: &Docs) {
    let n = limit.map_or(want.len(), |l| want.len().min(l as usize));
    kh::check(got.len() == n, "a query returns as many of the mappings wanted as the limit allows");
    for (g, w) in got.iter().zip(want) {
        kh::check(g.1 == w.0, "a query returns mappings in key order");
    }
    for (i, g) in got.iter().enumerate() {
        kh::check(want.iter().any(|w| w.0 == g.1 && w.1 == g.2 && g.0 == docs[w.2].header), "a query returns only mappings of the live documents");
        kh::check(got[..i].iter().all(|o| !(o.1 == g.1 && o.0.id == g.0.id)), "a query returns a mapping once");
    }
}
/// param 0: operations, 1: pairs per document
fn history<C: Collection<PrimaryKey = u8>>(db: &Database, between: impl Fn(&Database, &Docs)) -> Docs {
    let mut docs = Docs::new();
    for i in 0..kh::param(0) {
        if i > 0 && kh::boolean() {
            between(db, &docs);
        }
        if docs.is_empty() || kh::boolean() {
            put::<C>(db, &mut docs, kh::choose(2) as u8, pairs(kh::param(1))).unwrap();
        } else {
            let n = kh::choose(docs.len());
            del::<C>(db, &mut docs, n);
        }
    }
    docs
}
#[no_mangle]
pub extern "C" fn l04_lazy() {
    let db = open::<ViewSchemas>();
    let docs = history::<LazyDocs>(&db, |db, _| drop(db.view::<LazyView>().query().unwrap()));
    check_view::<LazyView>(&db, &docs, AccessPolicy::UpdateBefore, &[0, 1, 2, 3, 6]);
}
/// several documents changed between two queries. param 0: documents
#[no_mangle]
pub extern "C" fn l04_batch() {
    let db = open::<ViewSchemas>();
    let mut docs = Docs::new();
    for i in 0..kh::param(0) {
        put::<LazyDocs>(&db, &mut docs, i as u8, vec![(kh::u8("key"), kh::u8("value"))]).unwrap();
    }
    drop(db.view::<LazyView>().query().unwrap());
    for i in (0..kh::param(0)).rev() {
        match kh::choose(3) {
            0 => put::<LazyDocs>(&db, &mut docs, i as u8, vec![(kh::u8("key"), kh::u8("value"))]).unwrap(),
            1 => del::<LazyDocs>(&db, &mut docs, i),
            _ => {}
        }
    }
    check_view::<LazyView>(&db, &docs, AccessPolicy::UpdateBefore, &[0, 1]);
}
#[no_mangle]
pub extern "C" fn l04_eager() {
    let db = open::<ViewSchemas>();
    let docs = history::<EagerDocs>(&db, |_, _| kh::skip());
    check_view::<EagerView>(&db, &docs, AccessPolicy::NoUpdate, &[0, 1, 2, 3]);
}
/// ranges, key sets, order and limit. param 0: documents, 1: pairs each, 2: in order of their keys, 3: kinds
#[no_mangle]
pub extern "C" fn l05_query() {
    let db = open::<ViewSchemas>();
    let mut docs = Docs::new();
    for i in 0..kh::param(0) {
        let p = pairs(kh::param(1));
        if kh::param(2) == 1 {
            kh::assume(docs.iter().flat_map(|d| &d.pairs).all(|a| p.iter().all(|b| a.0 <= b.0)));
        }
        put::<EagerDocs>(&db, &mut docs, i as u8, p).unwrap();
    }
    check_view::<EagerView>(&db, &docs, AccessPolicy::UpdateBefore, if kh::param(3) == 1 { &[7, 8] } else { &[4, 5] });
}
/// deleting the documents a query matches. param 0: documents, 1: pairs each
#[no_mangle]
pub extern "C" fn l05_delete() {
    let db = open::<ViewSchemas>();
    let mut docs = Docs::new();
    for i in 0..kh::param(0) {
        put::<LazyDocs>(&db, &mut docs, i as u8, pairs(kh::param(1))).unwrap();
    }
    let (lo, hi) = (kh::u8("first key"), kh::u8("last key"));
    kh::assume(lo <= hi);
    let n = db.view::<LazyView>().with_key_range(lo..=hi).delete_docs();
    let before = docs.len();
    docs.retain(|d| !d.pairs.iter().any(|p| lo <= p.0 && p.0 <= hi));
    kh::check(n.is_ok(), "deleting the documents of a query succeeds");
    kh::check(n.unwrap() == (before - docs.len()) as u64, "deleting the documents of a query returns how many there were");
    let left = db.collection::<LazyDocs>().all().query().unwrap();
    kh::check(left.len() == docs.len(), "deleting the documents of a query leaves the others");
    for (a, b) in left.iter().zip(&docs) {
        kh::check(a.header == b.header && a.contents[..] == bytes(&b.pairs)[..], "deleting the documents of a query leaves the others as they were");
    }
    check_view::<LazyView>(&db, &docs, AccessPolicy::UpdateBefore, &[0]);
    kh::reach("deleted");
}
/// param 0: operations, 1: pairs each
#[no_mangle]
pub extern "C" fn l06_unique() {
    let db = open::<ViewSchemas>();
    let mut docs = Docs::new();
    for _ in 0..kh::param(0) {
        if docs.is_empty() || kh::boolean() {
            let id = kh::choose(2) as u8;
            let p = pairs(kh::param(1));
            let taken = docs.iter().find(|d| d.id != id && d.pairs.iter().any(|x| p.iter().any(|y| x.0 == y.0))).map(|d| d.header.clone());
            match (put::<UniqueDocs>(&db, &mut docs, id, p), taken) {
                (Ok(()), None) => kh::reach("kept unique"),
                (Err(Error::UniqueKeyViolation { view, existing_document, conflicting_document }), Some(h)) => {
                    kh::check(view == UniqueView.view_name(), "a uniqueness violation names the view");
                    kh::check(*existing_document == h && conflicting_document.id == did(id), "a uniqueness violation names both documents");
                    kh::reach("refused");
                }
                (Ok(()), Some(_)) => kh::check(false, "a second document with a unique key is refused"),
                (Err(_), _) => kh::check(false, "a write that violates no uniqueness succeeds"),
            }
        } else {
            let n = kh::choose(docs.len());
            del::<UniqueDocs>(&db, &mut docs, n);
        }
    }
    let all = db.collection::<UniqueDocs>().all().query().unwrap();
    kh::check(all.len() == docs.len(), "a refused write changes nothing");
    for d in &docs {
        let a = all.iter().find(|a| a.header.id == did(d.id));
        kh::check(a.map_or(false, |a| a.header == d.header && a.contents[..] == bytes(&d.pairs)[..]), "a refused write changes no document");
    }
    check_view::<UniqueView>(&db, &docs, AccessPolicy::UpdateBefore, &[0, 2]);
}
