//! documents: create, read, update, overwrite, delete against a model
use crate::kh;
use crate::schema::*;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Connection, LowLevelConnection, Sort};
use bonsaidb_core::document::{CollectionHeader, DocumentId, Header, OwnedDocument, Revision};
use bonsaidb_core::schema::Collection;
use bonsaidb_core::transaction::{Operation, OperationResult, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::Database;

#[derive(Clone)]
pub struct MDoc {
    pub id: u8,
    pub contents: Vec<u8>,
    pub rev: u32,
}
/// what the collection must contain
#[derive(Clone, Default)]
pub struct Model {
    pub docs: Vec<MDoc>,
    /// every header the caller was ever given: id, revision number, contents
    pub handles: Vec<(Header, MDoc)>,
    pub highest: Option<u8>,
}
impl Model {
    pub fn find(&self, id: u8) -> Option<usize> {
        self.docs.iter().position(|d| d.id == id)
    }
    pub fn set(&mut self, d: MDoc) {
        if self.highest.map_or(true, |h| h < d.id) {
            self.highest = Some(d.id);
        }
        match self.find(d.id) {
            Some(i) => self.docs[i] = d,
            None => self.docs.push(d),
        }
    }
    pub fn sorted(&self) -> Vec<MDoc> {
        let mut v = self.docs.clone();
        v.sort_by(|a, b| a.id.cmp(&b.id));
        v
    }
}
pub fn did(id: u8) -> DocumentId {
    DocumentId::new(&id).unwrap()
}
pub fn contents(name: &str, max: usize) -> Vec<u8> {
    kh::vec(name, 1, max)
}
pub fn check_doc(doc: &OwnedDocument, m: &MDoc) {
    kh::check(doc.header.id == did(m.id), "a document has the id asked for");
    kh::check(doc.contents[..] == m.contents[..], "a document has the contents last written");
    kh::check(doc.header.revision == Revision::with_id(m.rev, &m.contents), "a document has the revision of its contents");
}
pub fn check_header(h: &Header, m: &MDoc) {
    kh::check(h.id == did(m.id), "a header has the document's id");
    kh::check(h.revision == Revision::with_id(m.rev, &m.contents), "a header has the revision of the contents");
}
pub fn is_conflict(e: &Error, id: u8) -> bool {
    matches!(e, Error::DocumentConflict(c, h) if *c == Plain::collection_name() && h.id == did(id))
}
pub fn is_missing(e: &Error, id: u8) -> bool {
    matches!(e, Error::DocumentNotFound(c, i) if *c == Plain::collection_name() && **i == did(id))
}
/// every way of reading agrees with the model
pub fn check_state(db: &Database, m: &Model) {
    let docs = m.sorted();
    let all = db.collection::<Plain>().all().query().unwrap();
    kh::check(all.len() == docs.len(), "listing returns every document and nothing else");
    for (a, b) in all.iter().zip(&docs) {
        check_doc(a, b);
    }
    kh::check(db.collection::<Plain>().all().count().unwrap() == docs.len() as u64, "count is the number of documents");
    let probe = kh::u8("probe");
    match (db.collection::<Plain>().get(&probe).unwrap(), m.find(probe)) {
        (Some(d), Some(i)) => check_doc(&d, &m.docs[i]),
        (None, None) => {}
        (Some(_), None) => kh::check(false, "get returned a document that was deleted or never written"),
        (None, Some(_)) => kh::check(false, "get did not find a document that exists"),
    }
}
/// one operation through the connection API
pub fn step(db: &Database, m: &mut Model, ops: usize, max: usize) {
    match kh::choose(ops) {
        0 => {
            let (id, c) = (kh::u8("insert id"), contents("insert contents", max));
            let exists = m.find(id);
            match LowLevelConnection::insert::<Plain, _, _>(db, Some(&id), c.clone()) {
                Ok(h) => {
                    kh::check(exists.is_none(), "inserting an id that exists is refused");
                    let d = MDoc { id, contents: c, rev: 0 };
                    let h = Header::try_from(h).unwrap();
                    check_header(&h, &d);
                    m.handles.push((h, d.clone()));
                    m.set(d);
                    kh::reach("inserted");
                }
                Err(e) => {
                    kh::check(exists.is_some() && is_conflict(&e, id), "inserting a new id succeeds");
                    if let (Error::DocumentConflict(_, h), Some(i)) = (&e, exists) {
                        check_header(h, &m.docs[i]);
                    }
                    kh::reach("insert conflict");
                }
            }
        }
        1 => {
            let n = kh::choose(m.handles.len());
            let (h, hd) = m.handles[n].clone();
            let c = contents("update contents", max);
            let mut doc = OwnedDocument { header: h.clone(), contents: Bytes::from(c.clone()) };
            let r = LowLevelConnection::update::<Plain, _>(db, &mut doc);
            let current = m.find(hd.id);
            match current {
                None => {
                    kh::check(r.map_or_else(|e| is_missing(&e, hd.id), |_| false), "updating a deleted document is refused");
                    kh::reach("update missing");
                }
                Some(i) if m.docs[i].rev == hd.rev && m.docs[i].contents == hd.contents => {
                    kh::check(r.is_ok(), "updating the current revision succeeds");
                    let rev = if c == hd.contents { hd.rev } else { hd.rev + 1 };
                    let d = MDoc { id: hd.id, contents: c, rev };
                    check_header(&doc.header, &d);
                    m.handles.push((doc.header, d.clone()));
                    m.set(d);
                    kh::reach("updated");
                }
                Some(i) => {
                    match r {
                        Err(Error::DocumentConflict(_, header)) => check_header(&header, &m.docs[i]),
                        _ => kh::check(false, "updating an outdated revision is refused"),
                    }
                    kh::reach("update conflict");
                }
            }
        }
        2 => {
            let n = kh::choose(m.handles.len());
            let (h, hd) = m.handles[n].clone();
            let r = LowLevelConnection::delete::<Plain, _>(db, &h);
            match m.find(hd.id) {
                None => {
                    kh::check(r.map_or_else(|e| is_missing(&e, hd.id), |_| false), "deleting a deleted document is refused");
                    kh::reach("delete missing");
                }
                Some(i) if m.docs[i].rev == hd.rev && m.docs[i].contents == hd.contents => {
                    kh::check(r.is_ok(), "deleting the current revision succeeds");
                    m.docs.remove(i);
                    kh::reach("deleted");
                }
                Some(_) => {
                    kh::check(r.map_or_else(|e| is_conflict(&e, hd.id), |_| false), "deleting an outdated revision is refused");
                    kh::reach("delete conflict");
                }
            }
        }
        3 => {
            let (id, c) = (kh::u8("overwrite id"), contents("overwrite contents", max));
            let r = LowLevelConnection::overwrite::<Plain, _>(db, &id, c.clone());
            let rev = match m.find(id) {
                Some(i) if m.docs[i].contents == c => m.docs[i].rev,
                Some(i) => m.docs[i].rev + 1,
                None => 0,
            };
            kh::check(r.is_ok(), "overwriting always succeeds");
            let d = MDoc { id, contents: c, rev };
            let h = Header::try_from(r.unwrap()).unwrap();
            check_header(&h, &d);
            m.handles.push((h, d.clone()));
            m.set(d);
            kh::reach("overwritten");
        }
        _ => {
            let c = contents("push contents", max);
            match LowLevelConnection::insert::<Plain, u8, _>(db, None, c.clone()) {
                Ok(h) => {
                    let h: CollectionHeader<u8> = h;
                    kh::check(m.docs.iter().all(|d| d.id < h.id), "a generated id is greater than every document's id");
                    let d = MDoc { id: h.id, contents: c, rev: 0 };
                    let h = Header::try_from(h).unwrap();
                    check_header(&h, &d);
                    m.handles.push((h, d.clone()));
                    m.set(d);
                    kh::reach("pushed");
                }
                Err(_) => {
                    kh::check(m.highest == Some(u8::MAX), "an id is generated unless the ids are exhausted");
                    kh::reach("push exhausted");
                }
            }
        }
    }
}
/// param 0: operations; param 1: contents bytes; param 2: 1 = starting with a document written again
#[no_mangle]
pub extern "C" fn l01_crud() {
    let db = open::<PlainSchema>();
    let mut m = Model::default();
    if kh::param(2) == 1 {
        // a document that was deleted and written again; the headers of both are outdated or not
        let id = kh::u8("id");
        for again in [true, false] {
            let c = contents("contents", kh::param(1));
            let h = LowLevelConnection::overwrite::<Plain, _>(&db, &id, c.clone()).unwrap();
            let h = Header::try_from(h).unwrap();
            let d = MDoc { id, contents: c, rev: 0 };
            check_header(&h, &d);
            if again {
                LowLevelConnection::delete::<Plain, _>(&db, &h).unwrap();
            } else {
                m.set(d.clone());
            }
            m.handles.push((h, d));
        }
    }
    for _ in 0..kh::param(0) {
        if m.handles.is_empty() {
            // the first operation has no handle to work with
            let k = kh::choose(3);
            let (id, c) = (kh::u8("id"), contents("contents", kh::param(1)));
            let h = match k {
                0 => LowLevelConnection::insert::<Plain, _, _>(&db, Some(&id), c.clone()).unwrap(),
                1 => LowLevelConnection::overwrite::<Plain, _>(&db, &id, c.clone()).unwrap(),
                _ => LowLevelConnection::insert::<Plain, u8, _>(&db, None, c.clone()).unwrap(),
            };
            let d = MDoc { id: if k == 2 { h.id } else { id }, contents: c, rev: 0 };
            let h = Header::try_from(h).unwrap();
            check_header(&h, &d);
            m.handles.push((h, d.clone()));
            m.set(d);
        } else {
            step(&db, &mut m, 5, kh::param(1));
        }
    }
    check_state(&db, &m);
    kh::reach("crud");
}
