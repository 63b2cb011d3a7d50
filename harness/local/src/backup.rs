//! backups: restoring one gives the documents, keys and users there were
use crate::docs::did;
use crate::kh;
use crate::kv::{get, op, symbolic_key};
use crate::schema::*;
use bonsaidb_core::arc_bytes::serde::Bytes;
use bonsaidb_core::connection::{Connection, LowLevelConnection, StorageConnection};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::keyvalue::{Command, KeyOperation, KeyValue, Numeric, Output, SetCommand, Timestamp, Value};
use bonsaidb_core::schema::{Collection, CollectionName, Qualified, Schema, SchemaName, Schematic};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::{BackupLocation, Database, Storage};
use std::path::PathBuf;
use std::sync::Mutex;

/// keys are text
#[derive(Debug)]
pub struct Named;
impl Collection for Named {
    type PrimaryKey = String;
    fn collection_name() -> CollectionName { CollectionName::new("kh", "named") }
    fn define_views(_: &mut Schematic) -> Result<(), Error> { Ok(()) }
}
#[derive(Debug)]
pub struct NamedSchema;
impl Schema for NamedSchema {
    fn schema_name() -> SchemaName { SchemaName::new("kh", "named") }
    fn define_collections(schema: &mut Schematic) -> Result<(), Error> { schema.define_collection::<Named>() }
}
/// no collections
#[derive(Debug)]
pub struct NoSchema;
impl Schema for NoSchema {
    fn schema_name() -> SchemaName { SchemaName::new("kh", "none") }
    fn define_collections(_: &mut Schematic) -> Result<(), Error> { Ok(()) }
}
fn all(c: StorageConfiguration) -> Storage {
    Storage::open(c.with_schema::<PlainSchema>().unwrap().with_schema::<NamedSchema>().unwrap().with_schema::<NoSchema>().unwrap().with_schema::<ViewSchemas>().unwrap()).unwrap()
}
/// a location that keeps what it is given
#[derive(Default)]
struct Kept(Mutex<Vec<(SchemaName, String, String, String, Vec<u8>)>>);
impl BackupLocation for Kept {
    type Error = Error;
    fn store(&self, schema: &SchemaName, database_name: &str, container: &str, name: &str, object: &[u8]) -> Result<(), Error> {
        let mut all = self.0.lock().unwrap();
        let same = |o: &(SchemaName, String, String, String, Vec<u8>)| o.0 == *schema && o.1 == database_name && o.2 == container && o.3 == name;
        all.retain(|o| !same(o));
        all.push((schema.clone(), database_name.to_string(), container.to_string(), name.to_string(), object.to_vec()));
        Ok(())
    }
    fn list_schemas(&self) -> Result<Vec<SchemaName>, Error> {
        let mut v: Vec<SchemaName> = self.0.lock().unwrap().iter().map(|o| o.0.clone()).collect();
        v.sort();
        v.dedup();
        Ok(v)
    }
    fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Error> {
        let mut v: Vec<String> = self.0.lock().unwrap().iter().filter(|o| o.0 == *schema).map(|o| o.1.clone()).collect();
        v.sort();
        v.dedup();
        Ok(v)
    }
    fn list_stored(&self, schema: &SchemaName, database_name: &str, container: &str) -> Result<Vec<String>, Error> {
        Ok(self.0.lock().unwrap().iter().filter(|o| o.0 == *schema && o.1 == database_name && o.2 == container).map(|o| o.3.clone()).collect())
    }
    fn load(&self, schema: &SchemaName, database_name: &str, container: &str, name: &str) -> Result<Vec<u8>, Error> {
        let all = self.0.lock().unwrap();
        let o = all.iter().find(|o| o.0 == *schema && o.1 == database_name && o.2 == container && o.3 == name);
        kh::check(o.is_some(), "restoring loads what was stored");
        Ok(o.unwrap().4.clone())
    }
}
const T0: u64 = 1_800_000_000;
/// param 0: changes; param 1: 1 = background work done or not before the backup
#[no_mangle]
pub extern "C" fn l21_backup() {
    kh::clock_set(T0, 0);
    let from = all(config());
    let names = ["a", ["b-1", "_kv"][kh::choose(2)]];
    let none = kh::boolean();
    let first = from.create_database::<PlainSchema>(names[0], false).unwrap();
    let second = if none { from.create_database::<NoSchema>(names[1], false).unwrap() } else { from.create_database::<PlainSchema>(names[1], false).unwrap() };
    // (database, other collection, id, contents)
    let mut docs: Vec<(usize, bool, u8, Vec<u8>)> = Vec::new();
    // (database, namespace, key, value, expiration)
    let mut keys: Vec<(usize, Option<u8>, u8, Value, Option<u8>)> = Vec::new();
    for _ in 0..kh::param(0) {
        let d = kh::choose(2);
        let db = [&first, &second][d];
        match kh::choose(3) {
            0 if !(d == 1 && none) => {
                let (other, id, c) = (kh::boolean(), kh::u8("id"), kh::vec("contents", 0, 1));
                if other {
                    LowLevelConnection::overwrite::<Other, u8>(db, &id, c.clone()).unwrap();
                } else {
                    LowLevelConnection::overwrite::<Plain, u8>(db, &id, c.clone()).unwrap();
                }
                docs.retain(|x| !(x.0 == d && x.1 == other && x.2 == id));
                docs.push((d, other, id, c));
            }
            1 if !docs.is_empty() => {
                let (d, other, id, _) = docs.remove(0);
                let db = [&first, &second][d];
                if other {
                    db.collection::<Other>().get(&id).unwrap().map(|x| db.collection::<Other>().delete(&x).unwrap());
                } else {
                    db.collection::<Plain>().get(&id).unwrap().map(|x| db.collection::<Plain>().delete(&x).unwrap());
                }
            }
            2 => {
                let (ns, key) = (if kh::boolean() { Some(symbolic_key("namespace")) } else { None }, symbolic_key("key"));
                let value = if kh::boolean() { Value::Bytes(Bytes::from(kh::vec("value", 0, 1))) } else { Value::Numeric(Numeric::UnsignedInteger(u64::from(kh::u8("number")))) };
                let expires = if kh::boolean() { Some(1 + kh::choose(2) as u8 * 60) } else { None };
                db.execute_key_operation(op(ns, key, Command::Set(SetCommand { value: value.clone(), expiration: expires.map(|e| Timestamp { seconds: T0 + u64::from(e), nanos: 0 }), keep_existing_expiration: false, check: None, return_previous_value: false }))).unwrap();
                keys.retain(|x| !(x.0 == d && x.1 == ns && x.2 == key));
                keys.push((d, ns, key, value, expires));
            }
            _ => kh::skip(),
        }
    }
    if kh::param(1) == 1 && kh::boolean() {
        kh::settle();
    }
    let user = from.create_user("u").unwrap();
    let kept = Kept::default();
    kh::check(from.backup(&kept).is_ok(), "a backup succeeds");
    let mut c = config();
    c.path = Some(PathBuf::from("to.kh"));
    let to = all(c);
    kh::check(to.restore(&kept).is_ok(), "a backup is restored");
    let u = <bonsaidb_core::admin::User as bonsaidb_core::schema::NamedCollection>::load("u", &to.admin()).unwrap();
    kh::check(u.map_or(false, |u| u.header.id == user), "users are restored");
    kh::clock_set(T0 + 30, 0);
    keys.retain(|k| k.4.map_or(true, |e| e > 30));
    for d in 0..2 {
        if !docs.iter().any(|x| x.0 == d) && !keys.iter().any(|x| x.0 == d) {
            continue;
        }
        let db = if d == 1 && none { to.database::<NoSchema>(names[d]) } else { to.database::<PlainSchema>(names[d]) };
        kh::check(db.is_ok(), "a database with documents or keys is restored");
        let db = db.unwrap();
        if !(d == 1 && none) {
            for other in [false, true] {
                let got = if other { db.collection::<Other>().all().query() } else { db.collection::<Plain>().all().query() }.unwrap();
                kh::check(got.len() == docs.iter().filter(|x| x.0 == d && x.1 == other).count(), "as many documents are restored as there were");
                for x in docs.iter().filter(|x| x.0 == d && x.1 == other) {
                    kh::check(got.iter().any(|g| g.header.id == did(x.2) && g.contents[..] == x.3[..]), "documents are restored with their ids and contents");
                }
            }
        }
        for k in keys.iter().filter(|k| k.0 == d) {
            kh::check(get(&db, k.1, k.2).as_ref() == Some(&k.3), "keys are restored with their values");
        }
    }
    if kh::boolean() {
        kh::clock_set(T0 + 61, 0);
        for d in 0..2 {
            if let Some(db) = if d == 1 && none { to.database::<NoSchema>(names[d]) } else { to.database::<PlainSchema>(names[d]) }.ok() {
                for k in keys.iter().filter(|k| k.0 == d) {
                    kh::check(get(&db, k.1, k.2).is_some() == k.4.is_none(), "keys are restored with their expirations");
                }
            }
        }
        kh::reach("expirations");
    }
    if docs.is_empty() { kh::reach("keys"); } else { kh::reach("documents"); }
}
/// text as ids, keys and namespaces, in a directory
#[no_mangle]
pub extern "C" fn l21_names() {
    const TEXTS: [&str; 14] = ["a", "a/b", "/", "..", ".", "%2F", "%", "a._key._b", "$61", "\u{e9}", "../x", "", "/etc/none/x", "_kv"];
    let dir = PathBuf::from("backup.kh");
    let from = all(config());
    let db = from.create_database::<NamedSchema>("d", false).unwrap();
    let text = TEXTS[kh::choose(TEXTS.len())];
    let kind = kh::choose(3);
    if kind == 2 && text.contains("._key._") {
        kh::region("namespace-separator");
    }
    let key = |ns: Option<&str>, key: &str, command| KeyOperation { namespace: ns.map(str::to_string), key: key.to_string(), command };
    let set = || Command::Set(SetCommand { value: Value::Numeric(Numeric::UnsignedInteger(7)), expiration: None, keep_existing_expiration: false, check: None, return_previous_value: false });
    let (ns, k) = match kind { 1 => (None, text), _ => (Some(text), "k") };
    match kind {
        0 => drop(LowLevelConnection::overwrite::<Named, String>(&db, &text.to_string(), vec![1]).unwrap()),
        _ => drop(db.execute_key_operation(key(ns, k, set())).unwrap()),
    }
    kh::check(from.backup(&dir).is_ok(), "a backup to a directory succeeds");
    let mut c = config();
    c.path = Some(PathBuf::from("to.kh"));
    let to = all(c);
    kh::check(to.restore(&dir).is_ok(), "a backup in a directory is restored");
    let db = to.database::<NamedSchema>("d");
    kh::check(db.is_ok(), "a database with documents or keys is restored");
    let db = db.unwrap();
    if kind == 0 {
        let got = db.collection::<Named>().all().query().unwrap();
        kh::check(got.len() == 1 && got[0].header.id == DocumentId::new(text).unwrap() && got[0].contents[..] == [1], "documents are restored with their ids and contents");
        kh::reach("document");
    } else {
        let got = db.execute_key_operation(key(ns, k, Command::Get { delete: false })).unwrap();
        kh::check(matches!(got, Output::Value(Some(Value::Numeric(Numeric::UnsignedInteger(7))))), "keys are restored with their values");
        kh::reach("key");
    }
}
