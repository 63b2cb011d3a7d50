//! databases of a storage: created, deleted and listed; each has its own contents
use crate::kh;
use crate::schema::*;
use crate::views::{check_view, del, put, Docs};
use bonsaidb_core::connection::{AccessPolicy, Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::keyvalue::{KeyValue, Timestamp, Value};
use bonsaidb_core::schema::Schema;
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{Database, Storage};
use std::time::Duration;

const NAMES: [&str; 2] = ["a", "b"];
#[derive(Clone, Default)]
struct Db {
    views: bool,
    docs: Docs,
    plain: Option<u8>,
    key: Option<u8>,
}
type M = [Option<Db>; 2];
fn schemas(c: StorageConfiguration) -> StorageConfiguration {
    c.with_schema::<ViewSchemas>().unwrap().with_schema::<PlainSchema>().unwrap()
}
fn database(s: &Storage, n: usize, views: bool) -> Result<Database, Error> {
    if views { s.database::<ViewSchemas>(NAMES[n]) } else { s.database::<PlainSchema>(NAMES[n]) }
}
fn change(s: &Storage, m: &mut M, n: usize) {
    let d = m[n].as_mut().unwrap();
    let db = database(s, n, d.views).unwrap();
    match kh::choose(3) {
        0 => {
            let v = kh::u8("key value");
            db.set_binary_key("k", &[v]).execute().unwrap();
            d.key = Some(v);
        }
        1 if d.key.is_some() => {
            db.delete_key("k").unwrap();
            d.key = None;
        }
        1 if d.views && !d.docs.is_empty() => del::<LazyDocs>(&db, &mut d.docs, 0),
        1 => kh::skip(),
        _ if d.views => put::<LazyDocs>(&db, &mut d.docs, 1, vec![(kh::u8("key"), kh::u8("value"))]).unwrap(),
        _ => {
            let v = kh::u8("contents");
            LowLevelConnection::overwrite::<Plain, u8>(&db, &1, vec![v]).unwrap();
            d.plain = Some(v);
        }
    }
}
fn look(s: &Storage, m: &M) {
    let mut got: Vec<(String, bool)> = s.list_databases().unwrap().into_iter().map(|d| (d.name, d.schema == ViewSchemas::schema_name())).collect();
    got.retain(|d| d.0 != "_admin");
    got.sort();
    let want: Vec<(String, bool)> = (0..2).filter_map(|n| m[n].as_ref().map(|d| (NAMES[n].to_string(), d.views))).collect();
    kh::check(got == want, "the databases listed are those that were created and not deleted");
    for n in 0..2 {
        match &m[n] {
            None => kh::check(matches!(database(s, n, true), Err(Error::DatabaseNotFound(_))), "a database that doesn't exist isn't found"),
            Some(d) => {
                kh::check(matches!(database(s, n, !d.views), Err(Error::SchemaMismatch { .. })), "a database cannot be used with another schema");
                let db = match database(s, n, d.views) {
                    Ok(d) => d,
                    Err(e) => {
                        kh::print(&format!("{e:?}"));
                        return kh::check(false, "a database that was created can be used");
                    }
                };
                if d.views {
                    check_view::<LazyView>(&db, &d.docs, AccessPolicy::UpdateBefore, &[0]);
                } else {
                    let all = db.collection::<Plain>().all().query().unwrap();
                    kh::check(all.len() == d.plain.is_some() as usize, "a database has the documents stored in it");
                    if let Some(v) = d.plain {
                        kh::check(all[0].contents[..] == [v], "a database has the documents stored in it");
                    }
                }
                match (db.get_key("k").query().unwrap(), d.key) {
                    (None, None) => {}
                    (Some(Value::Bytes(b)), Some(v)) => kh::check(b[..] == [v], "a database has the keys stored in it"),
                    _ => kh::check(false, "a database has the keys stored in it"),
                }
            }
        }
    }
}
fn create(s: &Storage, m: &mut M, n: usize) {
    let (views, needed) = (kh::boolean(), kh::boolean());
    let r = if views { s.create_database::<ViewSchemas>(NAMES[n], needed) } else { s.create_database::<PlainSchema>(NAMES[n], needed) };
    match &m[n] {
        None => {
            kh::check(r.is_ok(), "a database of an unused name can be created");
            m[n] = Some(Db { views, ..Default::default() });
        }
        Some(_) if !needed => kh::check(matches!(r, Err(Error::DatabaseNameAlreadyTaken(_))), "a database's name cannot be used for another"),
        Some(d) if d.views == views => kh::check(r.is_ok(), "creating a database only if needed gives the existing one"),
        Some(_) => kh::check(matches!(r, Err(Error::SchemaMismatch { .. })), "a database cannot be used with another schema"),
    }
}
/// param 0: steps; param 1: 0 = in memory, 1 = in files, opened again in the end
#[no_mangle]
pub extern "C" fn l13_lifecycle() {
    let files = kh::param(1) == 1;
    let config = || schemas(if files { disk() } else { config() });
    let s = Storage::open(config()).unwrap();
    let mut m: M = [None, None];
    for _ in 0..kh::param(0) {
        let n = kh::choose(2);
        match kh::choose(3) {
            0 => create(&s, &mut m, n),
            1 => {
                let r = s.delete_database(NAMES[n]);
                if m[n].take().is_some() {
                    if let Err(e) = &r {
                        kh::print(&format!("{e:?}"));
                    }
                    kh::check(r.is_ok(), "a database can be deleted");
                    kh::reach("deleted");
                } else {
                    kh::check(matches!(r, Err(Error::DatabaseNotFound(_))), "only existing databases can be deleted");
                }
            }
            _ if m[n].is_some() => change(&s, &mut m, n),
            _ => kh::skip(),
        }
    }
    look(&s, &m);
    if files {
        drop(s);
        let s = match Storage::open(config()) {
            Ok(s) => s,
            Err(e) => {
                kh::print(&format!("{e:?}"));
                return kh::check(false, "a storage can be opened again");
            }
        };
        look(&s, &m);
        kh::reach("opened again");
    }
}
/// a database created again starts from nothing, whatever the one of its name
/// before held.  param 0: changes before, param 1: changes after, param 2: 1 = in files
#[no_mangle]
pub extern "C" fn l13_recreate() {
    let files = kh::param(2) == 1;
    let config = || schemas(if files { disk() } else { config() });
    let s = Storage::open(config()).unwrap();
    let views = kh::boolean();
    let new = |s: &Storage| if views { s.create_database::<ViewSchemas>("a", false) } else { s.create_database::<PlainSchema>("a", false) };
    let mut m: M = [None, None];
    drop(new(&s).unwrap());
    m[0] = Some(Db { views, ..Default::default() });
    for _ in 0..kh::param(0) {
        change(&s, &mut m, 0);
    }
    let mut held = None;
    match kh::choose(4) {
        0 => look(&s, &m),
        1 => kh::settle(),
        2 => held = Some(database(&s, 0, views).unwrap()),
        _ => {}
    }
    s.delete_database("a").unwrap();
    m[0] = None;
    if kh::boolean() {
        look(&s, &m);
    }
    match new(&s) {
        Ok(_) => {}
        Err(e) => {
            kh::print(&format!("{e:?}"));
            return kh::check(false, "a deleted database's name can be used again");
        }
    }
    m[0] = Some(Db { views, ..Default::default() });
    for _ in 0..kh::param(1) {
        change(&s, &mut m, 0);
    }
    if held.take().is_some() {
        kh::settle();
        kh::reach("held");
    }
    look(&s, &m);
    kh::reach("recreated");
    if files {
        drop(s);
        let s = Storage::open(config()).unwrap();
        look(&s, &m);
        kh::reach("opened again");
    }
}
/// a key that was to expire in the database of that name before.
#[no_mangle]
pub extern "C" fn l13_expiring() {
    kh::clock_set(1000, 0);
    let s = Storage::open(schemas(disk())).unwrap();
    let first = kh::boolean();
    let db = s.create_database::<PlainSchema>("a", false).unwrap();
    if first {
        db.set_binary_key("k", &[1]).expire_in(Duration::from_secs(10)).execute().unwrap();
    }
    drop(db);
    s.delete_database("a").unwrap();
    let db = s.create_database::<PlainSchema>("a", false).unwrap();
    let v = kh::u8("value");
    let at = kh::u8("expires after");
    let v1 = [v];
    let q = db.set_binary_key("k", &v1);
    let expires = kh::boolean();
    if expires { q.expire_in(Duration::from_secs(at as u64)).execute().unwrap() } else { q.execute().unwrap() };
    let pause = kh::u8("pause");
    kh::assume(at < 12 && pause < 16);
    if kh::boolean() {
        if kh::boolean() {
            kh::settle();
        }
        drop(db);
        drop(s);
        let s = Storage::open(schemas(disk())).unwrap();
        let db = s.database::<PlainSchema>("a").unwrap();
        expiring(&db, expires, at, v, pause);
        kh::reach("opened again");
    } else {
        expiring(&db, expires, at, v, pause);
    }
}
fn expiring(db: &Database, expires: bool, at: u8, v: u8, pause: u8) {
    if kh::boolean() {
        kh::settle();
    }
    kh::clock_set(1000 + pause as u64, 1);
    let got = db.get_key("k").query().unwrap();
    if expires && pause >= at {
        kh::check(got.is_none(), "an expired key is gone");
    } else {
        kh::check(matches!(got, Some(Value::Bytes(b)) if b[..] == [v]), "a key that hasn't expired is there");
    }
    kh::reach("expiring");
}
fn valid(name: &[u8]) -> bool {
    !name.is_empty() && name.iter().enumerate().all(|(i, c)| c.is_ascii_alphanumeric() || (i == 0 && *c == b'_') || (i > 0 && (*c == b'.' || *c == b'-')))
}
/// any name of up to two characters, and those of files; the other databases stay as they are
#[no_mangle]
pub extern "C" fn l13_names() {
    let s = Storage::open(schemas(disk())).unwrap();
    let other = s.create_database::<PlainSchema>("a", false).unwrap();
    LowLevelConnection::overwrite::<Plain, u8>(&other, &1, vec![5]).unwrap();
    let name = match kh::choose(7) {
        0 => "server-id".to_string(),
        1 => "storage-id".to_string(),
        2 => "master-keys".to_string(),
        3 => "vault-keys".to_string(),
        4 => format!("{}{}", ["a", "_", ".", "-", "/", "0"][kh::choose(6)], kh::ascii("second", 1, 1)),
        5 => String::from("\u{e4}"),
        _ => kh::ascii("name", 0, 1),
    };
    named(&s, &name, &other);
    drop(other);
    drop(s);
    let s = match Storage::open(schemas(disk())) {
        Ok(s) => s,
        Err(e) => {
            kh::print(&format!("{e:?}"));
            return kh::check(false, "a storage can be opened again");
        }
    };
    let other = s.database::<PlainSchema>("a").unwrap();
    kh::check(other.collection::<Plain>().get(&1).unwrap().map_or(false, |d| d.contents[..] == [5]), "the other databases keep their contents");
}
fn named(s: &Storage, name: &str, other: &Database) {
    if kh::boolean() {
        // nothing of that name
        if name == "a" || name == "_admin" {
            kh::skip();
        }
        kh::check(matches!(s.delete_database(name), Err(Error::DatabaseNotFound(_))), "only existing databases can be deleted");
    } else {
        let r = s.create_database::<PlainSchema>(name, false);
        if let Err(e) = &r {
            kh::print(&format!("{e:?}"));
        }
        if name == "a" {
            kh::check(matches!(r, Err(Error::DatabaseNameAlreadyTaken(_))), "a name can be taken once");
        } else if valid(name.as_bytes()) && name.len() <= 2 {
            kh::check(r.is_ok(), "a database of any valid name can be created");
        } else if !valid(name.as_bytes()) {
            kh::check(matches!(r, Err(Error::InvalidDatabaseName(_))), "an invalid name is refused");
            kh::reach("invalid");
        }
        if let Ok(db) = r {
            LowLevelConnection::overwrite::<Plain, u8>(&db, &1, vec![7]).unwrap();
            if kh::boolean() {
                let r = s.delete_database(name);
                if let Err(e) = &r {
                    kh::print(&format!("{e:?}"));
                }
                kh::check(r.is_ok(), "a database can be deleted");
            }
            kh::reach("created");
        }
    }
    kh::check(other.collection::<Plain>().get(&1).unwrap().map_or(false, |d| d.contents[..] == [5]), "the other databases keep their contents");
    let _ = Timestamp::now();
}
