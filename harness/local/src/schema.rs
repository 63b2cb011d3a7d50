//! the schema the entries use: raw documents of a few bytes, hand-written views
use bonsaidb_core::schema::{Collection, CollectionName, Qualified, Schema, SchemaName, Schematic};
use bonsaidb_core::Error;
use bonsaidb_local::config::{Builder, StorageConfiguration};
use bonsaidb_local::Database;

macro_rules! collection {
    ($n:ident $k:ty, $name:literal, $($v:expr),*) => {
        #[derive(Debug)]
        pub struct $n;
        impl Collection for $n {
            type PrimaryKey = $k;
            fn collection_name() -> CollectionName { CollectionName::new("kh", $name) }
            #[allow(unused_variables)]
            fn define_views(schema: &mut Schematic) -> Result<(), Error> { $(schema.define_view($v)?;)* Ok(()) }
        }
    };
}
macro_rules! schema {
    ($n:ident, $name:literal, $($c:ty),*) => {
        #[derive(Debug)]
        pub struct $n;
        impl Schema for $n {
            fn schema_name() -> SchemaName { SchemaName::new("kh", $name) }
            fn define_collections(schema: &mut Schematic) -> Result<(), Error> { $(schema.define_collection::<$c>()?;)* Ok(()) }
        }
    };
}
collection!(Plain u8, "plain",);
collection!(Other u8, "other",);
schema!(PlainSchema, "plain", Plain, Other);

pub fn config() -> StorageConfiguration {
    let mut c = StorageConfiguration::new("db.kh").memory_only();
    c.workers.worker_count = 1;
    c.workers.parallelization = 1;
    c
}
/// like [`config`], in files
pub fn disk() -> StorageConfiguration {
    let mut c = config();
    c.memory_only = false;
    c
}
pub fn open<S: Schema>() -> Database {
    Database::open::<S>(config()).unwrap()
}

// ---- views: contents are (key, value) pairs of bytes; a trailing odd byte is ignored
use bonsaidb_core::document::{BorrowedDocument, Emit};
use bonsaidb_core::schema::view::map::MappedValue;
use bonsaidb_core::schema::{MapReduce, Name, SerializedView, View, ViewMapResult, ViewSchema};
use bonsaidb_core::schema::view::ViewUpdatePolicy;
use bonsaidb_core::transmog_pot::Pot;
macro_rules! kv_view {
    ($n:ident of $c:ty, $name:literal, $policy:ident, $version:expr) => { kv_view!($n of $c, $name, $policy, $version, 0); };
    ($n:ident of $c:ty, $name:literal, $policy:ident, $version:expr, $key:literal) => {
        #[derive(Debug, Clone)]
        pub struct $n;
        impl View for $n {
            type Collection = $c;
            type Key = u8;
            type Value = u8;
            fn name(&self) -> Name { Name::new($name) }
        }
        impl ViewSchema for $n {
            type View = Self;
            type MappedKey<'doc> = u8;
            fn update_policy(&self) -> ViewUpdatePolicy { ViewUpdatePolicy::$policy }
            fn version(&self) -> u64 { $version }
        }
        impl SerializedView for $n {
            type Format = Pot;
            fn format() -> Pot { Pot::default() }
            fn serialize(item: &u8) -> Result<Vec<u8>, Error> { Ok(vec![*item]) }
            fn deserialize(data: &[u8]) -> Result<u8, Error> { Ok(data[0]) }
        }
        impl MapReduce for $n {
            fn map<'doc>(&self, document: &'doc BorrowedDocument<'_>) -> ViewMapResult<'doc, Self> {
                let mut m = bonsaidb_core::schema::view::map::Mappings::none();
                for p in document.contents.chunks_exact(2) {
                    m.push(document.header.emit_key_and_value(p[$key], p[1 - $key])?.into_iter().next().unwrap());
                }
                Ok(m)
            }
            fn reduce(&self, mappings: &[MappedValue<u8, u8>], _rereduce: bool) -> Result<u8, Error> {
                Ok(mappings.iter().fold(0u8, |a, m| a.wrapping_add(m.value)))
            }
        }
    };
}
kv_view!(LazyView of LazyDocs, "lazy", Lazy, 0);
kv_view!(EagerView of EagerDocs, "eager", Eager, 0);
kv_view!(UniqueView of UniqueDocs, "unique", Unique, 0);
collection!(LazyDocs u8, "lazy-docs", LazyView);
collection!(EagerDocs u8, "eager-docs", EagerView);
collection!(UniqueDocs u8, "unique-docs", UniqueView);
schema!(ViewSchemas, "views", LazyDocs, EagerDocs, UniqueDocs);

// ---- the same database after its schema has changed
kv_view!(LazyOne of LazyDocs1, "lazy", Lazy, 1, 1);
kv_view!(EagerTwo of LazyDocs2, "lazy", Eager, 2, 0);
kv_view!(UniqueThree of LazyDocs3, "lazy", Unique, 3, 1);
collection!(LazyDocsWithout u8, "lazy-docs",);
collection!(LazyDocs1 u8, "lazy-docs", LazyOne);
collection!(LazyDocs2 u8, "lazy-docs", EagerTwo);
collection!(LazyDocs3 u8, "lazy-docs", UniqueThree);
schema!(Views0, "views", LazyDocs);
schema!(ViewsWithout, "views", LazyDocsWithout);
schema!(Views1, "views", LazyDocs1);
schema!(Views2, "views", LazyDocs2);
schema!(Views3, "views", LazyDocs3);
