//! permissions: an operation succeeds exactly when everything it needs is allowed
use crate::docs::did;
use crate::kh;
use crate::kv::text;
use crate::schema::*;
use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{AccessPolicy, AuthenticationMethod, Connection, IdentityReference, LowLevelConnection, Range, Sort, StorageConnection};
use bonsaidb_core::document::{DocumentId, Header};
use bonsaidb_core::keyvalue::{KeyValue, Value};
use bonsaidb_core::permissions::bonsai::{BonsaiAction, DatabaseAction, DocumentAction, KeyValueAction, PubSubAction, ServerAction, TransactionAction, ViewAction};
use bonsaidb_core::permissions::{Identifier, Permissions, ResourceName, Statement};
use bonsaidb_core::pubsub::{PubSub, Subscriber};
use bonsaidb_core::schema::{Collection, Nameable, Schema, SerializedCollection, View};
use bonsaidb_core::transaction::{Operation, Transaction};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage};

const ACTIONS: usize = 29;
fn action(i: usize) -> BonsaiAction {
    use BonsaiAction::{Database as D, Server as S};
    use DatabaseAction as A;
    match i {
        0 => S(ServerAction::ListAvailableSchemas),
        1 => S(ServerAction::ListDatabases),
        2 => S(ServerAction::CreateDatabase),
        3 => S(ServerAction::DeleteDatabase),
        4 => S(ServerAction::CreateUser),
        5 => S(ServerAction::DeleteUser),
        6 => S(ServerAction::AssumeIdentity),
        7 => S(ServerAction::ModifyUserPermissionGroups),
        8 => S(ServerAction::ModifyUserRoles),
        9 => D(A::Compact),
        10 => D(A::Document(DocumentAction::Get)),
        11 => D(A::Document(DocumentAction::List)),
        12 => D(A::Document(DocumentAction::ListHeaders)),
        13 => D(A::Document(DocumentAction::Count)),
        14 => D(A::Document(DocumentAction::Insert)),
        15 => D(A::Document(DocumentAction::Update)),
        16 => D(A::Document(DocumentAction::Overwrite)),
        17 => D(A::Document(DocumentAction::Delete)),
        18 => D(A::View(ViewAction::Query)),
        19 => D(A::View(ViewAction::Reduce)),
        20 => D(A::View(ViewAction::DeleteDocs)),
        21 => D(A::Transaction(TransactionAction::ListExecuted)),
        22 => D(A::Transaction(TransactionAction::GetLastId)),
        23 => D(A::PubSub(PubSubAction::CreateSuscriber)),
        24 => D(A::PubSub(PubSubAction::Publish)),
        25 => D(A::PubSub(PubSubAction::SubscribeTo)),
        26 => D(A::PubSub(PubSubAction::UnsubscribeFrom)),
        27 => D(A::KeyValue(KeyValueAction::ExecuteOperation)),
        _ => S(ServerAction::Authenticate(AuthenticationMethod::Token)),
    }
}
type Path = Vec<Identifier<'static>>;
type Need = (Path, usize);
fn path(p: &[&str]) -> Path {
    std::iter::once("bonsaidb").chain(p.iter().cloned()).map(|s| Identifier::from(s.to_string())).collect()
}
fn and(mut p: Path, last: impl Into<Identifier<'static>>) -> Path {
    p.push(last.into());
    p
}
fn eager() -> String {
    EagerDocs::collection_name().to_string()
}
fn document(id: u8) -> Path {
    and(path(&["default", &eager(), "document"]), vec![id])
}
fn collection() -> Path {
    path(&["default", &eager()])
}
fn view() -> Path {
    path(&["default", &eager(), "view", "eager"])
}
fn topic(t: u8) -> Path {
    and(path(&["default", "pubsub"]), vec![t])
}
fn named(p: &Path) -> ResourceName<'static> {
    ResourceName::from(&p[..])
}

struct World {
    storage: Storage,
    db: Database,
    ids: [u8; 2],
    user: u64,
    role: u64,
    group: u64,
}
fn world(users: bool) -> World {
    let storage = Storage::open(config().with_schema::<ViewSchemas>().unwrap()).unwrap();
    let db = storage.create_database::<ViewSchemas>("default", false).unwrap();
    let ids = [3, 7];
    for id in &ids {
        LowLevelConnection::overwrite::<EagerDocs, u8>(&db, id, vec![*id, 1]).unwrap();
    }
    let mut w = World { storage, db, ids, user: 0, role: 0, group: 0 };
    if users {
        let admin = w.storage.admin();
        w.user = w.storage.create_user("u").unwrap();
        w.role = Role::named("r").push_into(&admin).unwrap().header.id;
        w.group = PermissionGroup::named("g").push_into(&admin).unwrap().header.id;
    }
    w
}
const DB_OPS: usize = 25;
const OPS: usize = 38;
/// what the operation needs, and the operation
fn operation<'w>(w: &'w World, op: usize) -> (Vec<Need>, Box<dyn Fn(&Storage, &Database) -> Result<(), Error> + 'w>) {
    let (x, y) = (w.ids[0], w.ids[1]);
    let name = EagerDocs::collection_name;
    let vname = || EagerView.view_name();
    let header = move || Header::from(w.db.collection::<EagerDocs>().get(&x).unwrap().unwrap().header.clone());
    match op {
        0 => (vec![(document(x), 10)], Box::new(move |_, d| d.get_from_collection(did(x), &name()).map(drop))),
        1 => (vec![(document(x), 10), (document(y), 10)], Box::new(move |_, d| d.get_multiple_from_collection(&[did(x), did(y)], &name()).map(drop))),
        2 => (vec![(collection(), 11)], Box::new(move |_, d| d.list_from_collection(Range::from(..), Sort::Ascending, None, &name()).map(drop))),
        3 => (vec![(collection(), 12)], Box::new(move |_, d| d.list_headers_from_collection(Range::from(..), Sort::Ascending, None, &name()).map(drop))),
        4 => (vec![(collection(), 13)], Box::new(move |_, d| d.count_from_collection(Range::from(..), &name()).map(drop))),
        5 => (vec![(collection(), 14)], Box::new(move |_, d| Operation::insert_raw(d, name(), Some(did(9)), vec![1, 2]))),
        6 => (vec![(document(x), 15)], Box::new(move |_, d| single(d, Operation::update(name(), header(), vec![1, 2])))),
        7 => (vec![(document(x), 16)], Box::new(move |_, d| single(d, Operation::overwrite(name(), did(x), vec![1, 2])))),
        8 => (vec![(document(x), 17)], Box::new(move |_, d| single(d, Operation::delete(name(), header())))),
        9 => (vec![(document(x), 10)], Box::new(move |_, d| single(d, Operation::check_document_exists::<EagerDocs>(&x).unwrap()))),
        10 => (
            vec![(collection(), 14), (document(y), 17)],
            Box::new(move |_, d| {
                let h = Header::from(w.db.collection::<EagerDocs>().get(&y).unwrap().unwrap().header.clone());
                let mut t = Transaction::new();
                t.push(Operation::insert(name(), Some(did(9)), vec![1, 2]));
                t.push(Operation::delete(name(), h));
                LowLevelConnection::apply_transaction(d, t).map(drop)
            }),
        ),
        11 => (vec![(view(), 18)], Box::new(move |_, d| d.query_by_name(&vname(), None, Sort::Ascending, None, AccessPolicy::UpdateBefore).map(drop))),
        12 => (vec![(view(), 18), (document(x), 10), (document(y), 10)], Box::new(move |_, d| d.query_by_name_with_docs(&vname(), None, Sort::Ascending, None, AccessPolicy::UpdateBefore).map(drop))),
        13 => (vec![(view(), 19)], Box::new(move |_, d| d.reduce_by_name(&vname(), None, AccessPolicy::UpdateBefore).map(drop))),
        14 => (vec![(view(), 19)], Box::new(move |_, d| d.reduce_grouped_by_name(&vname(), None, AccessPolicy::NoUpdate).map(drop))),
        15 => (vec![(view(), 20), (document(x), 17), (document(y), 17)], Box::new(move |_, d| d.delete_docs_by_name(&vname(), None, AccessPolicy::UpdateBefore).map(drop))),
        16 => (vec![(path(&["default"]), 21)], Box::new(move |_, d| d.list_executed_transactions(None, None).map(drop))),
        17 => (vec![(path(&["default"]), 22)], Box::new(move |_, d| d.last_transaction_id().map(drop))),
        18 => (vec![(path(&["default"]), 9)], Box::new(move |_, d| d.compact())),
        19 => (vec![(collection(), 9)], Box::new(move |_, d| d.compact_collection_by_name(name()))),
        20 => (vec![(path(&["default", "keyvalue"]), 9)], Box::new(move |_, d| d.compact_key_value_store())),
        21 => (
            vec![(and(path(&["default", "keyvalue", ""]), "k".to_string()), 27)],
            Box::new(move |_, d| d.set_binary_key("k", &[1]).execute().map(drop)),
        ),
        22 => (vec![(path(&["default"]), 23)], Box::new(move |_, d| d.create_subscriber().map(drop))),
        23 => (vec![(topic(x), 24)], Box::new(move |_, d| d.publish_bytes(vec![x], vec![]))),
        24 => (vec![(topic(x), 24), (topic(y), 24)], Box::new(move |_, d| d.publish_bytes_to_all([vec![x], vec![y]], vec![]))),
        25 => (vec![(path(&["new"]), 2)], Box::new(move |s, _| s.create_database::<ViewSchemas>("new", false).map(drop))),
        26 => (vec![(path(&["default"]), 3)], Box::new(move |s, _| s.delete_database("default"))),
        27 => (vec![(path(&[]), 1)], Box::new(move |s, _| s.list_databases().map(drop))),
        28 => (vec![(path(&[]), 0)], Box::new(move |s, _| s.list_available_schemas().map(drop))),
        29 => (vec![(path(&[]), 4)], Box::new(move |s, _| s.create_user("v").map(drop))),
        30 => (vec![(and(path(&["user"]), w.user), 5)], Box::new(move |s, _| s.delete_user(w.user))),
        31 => (vec![(and(path(&["user"]), w.user), 7)], Box::new(move |s, _| s.add_permission_group_to_user(w.user, w.group))),
        32 => (vec![(and(path(&["user"]), w.user), 7)], Box::new(move |s, _| s.remove_permission_group_from_user(w.user, w.group))),
        33 => (vec![(and(path(&["user"]), w.user), 8)], Box::new(move |s, _| s.add_role_to_user(w.user, w.role))),
        34 => (vec![(and(path(&["user"]), w.user), 8)], Box::new(move |s, _| s.remove_role_from_user(w.user, w.role))),
        35 => (vec![(and(path(&["user"]), w.user), 6)], Box::new(move |s, _| s.assume_identity(IdentityReference::user("u").unwrap()).map(drop))),
        36 => (vec![(and(path(&["role"]), w.role), 6)], Box::new(move |s, _| s.assume_identity(IdentityReference::role("r").unwrap()).map(drop))),
        _ => (vec![(path(&["_admin", &User::collection_name().to_string()]), 11)], Box::new(move |s, _| User::all(&s.admin()).query().map(drop))),
    }
}
fn single(d: &Database, op: Operation) -> Result<(), Error> {
    LowLevelConnection::apply_transaction(d, Transaction::from(op)).map(drop)
}
trait Raw {
    fn insert_raw(d: &Database, c: bonsaidb_core::schema::CollectionName, id: Option<DocumentId>, v: Vec<u8>) -> Result<(), Error>;
}
impl Raw for Operation {
    fn insert_raw(d: &Database, c: bonsaidb_core::schema::CollectionName, id: Option<DocumentId>, v: Vec<u8>) -> Result<(), Error> {
        single(d, Operation::insert(c, id, v))
    }
}
/// what can be seen of the world
fn seen(w: &World) -> (Vec<(Header, Vec<u8>)>, Vec<String>, Vec<(u64, Vec<u64>, Vec<u64>)>, bool) {
    let mut names: Vec<String> = w.storage.list_databases().unwrap().into_iter().map(|d| d.name).collect();
    names.sort();
    let users = User::all(&w.storage.admin()).query().unwrap().into_iter().map(|u| (u.header.id, u.contents.groups, u.contents.roles)).collect();
    let docs = w.db.collection::<EagerDocs>().all().query().unwrap().into_iter().map(|d| (d.header, d.contents.to_vec())).collect();
    (docs, names, users, w.db.get_key("k").query().unwrap().is_some())
}
fn restricted(w: &World, p: Vec<Statement>) -> (Storage, Database) {
    let s = w.storage.with_effective_permissions(Permissions::from(p)).unwrap();
    let d = match kh::choose(2) {
        0 => s.database::<ViewSchemas>("default").unwrap(),
        _ => w.db.with_effective_permissions(s_permissions(&s)).unwrap(),
    };
    (s, d)
}
fn s_permissions(s: &Storage) -> Permissions {
    use bonsaidb_core::connection::HasSession;
    s.session().unwrap().permissions.clone()
}
fn decide(w: &World, s: &Storage, d: &Database, run: &dyn Fn(&Storage, &Database) -> Result<(), Error>, allowed: bool) {
    if allowed {
        let r = run(s, d);
        if let Err(e) = &r {
            kh::print(&format!("{e:?}"));
        }
        kh::check(r.is_ok(), "an operation whose every action is allowed succeeds");
        kh::reach("allowed");
    } else {
        let before = seen(w);
        match run(s, d) {
            Err(Error::PermissionDenied(_)) => {}
            Err(e) => {
                kh::print(&format!("{e:?}"));
                kh::check(false, "an operation that is not allowed reports that permission is denied");
            }
            Ok(()) => kh::check(false, "an operation that is not allowed is refused"),
        }
        kh::check(seen(w) == before, "an operation that is not allowed changes nothing");
        kh::reach("denied");
    }
}
/// one statement: every operation, resource and action.  param 0: first
/// operation, param 1: how many
#[no_mangle]
pub extern "C" fn l11_single() {
    let op = kh::param(0) + kh::choose(kh::param(1));
    let w = world(op >= 29);
    let (needs, run) = operation(&w, op);
    let (p, a) = needs[0].clone();
    // the statement: any prefix of the resource, its last part maybe another; or any action on everything
    let (resource, act, covers);
    if kh::boolean() {
        let k = kh::choose(p.len() + 1);
        let mut r: Path = p[..k].to_vec();
        let mut same = true;
        let last = if k > 0 { kh::choose(3) } else { 0 };
        if last == 1 {
            r[k - 1] = Identifier::Any;
        }
        if last == 2 {
            r[k - 1] = match &p[k - 1] {
                Identifier::Bytes(b) => {
                    let o = kh::u8("other");
                    same = b[..] == [o];
                    Identifier::from(vec![o])
                }
                Identifier::Integer(i) => {
                    let o = kh::u64("other");
                    same = *i == o;
                    Identifier::from(o)
                }
                Identifier::String(s) => {
                    same = false;
                    Identifier::from(format!("{s}x"))
                }
                _ => unreachable!(),
            };
        }
        resource = r;
        act = if kh::boolean() { Some(a) } else { None };
        covers = same;
    } else {
        resource = Vec::new();
        act = Some(kh::choose(ACTIONS));
        covers = true;
    }
    // what the statement allows
    let ok = |n: &Need| covers && n.0.len() >= resource.len() && resource.iter().zip(&n.0).all(|(r, n)| matches!(r, Identifier::Any) || r == n) && act.map_or(true, |a| a == n.1);
    let allowed = needs.iter().all(ok);
    let st = Statement::for_resource(named(&resource));
    let st = match act {
        Some(a) => st.allowing(&action(a)),
        None => st.allowing_all(),
    };
    let (s, d) = restricted(&w, vec![st]);
    decide(&w, &s, &d, &*run, allowed);
}
/// exactly what is needed, or all but one
#[no_mangle]
pub extern "C" fn l11_exact() {
    let op = kh::choose(OPS);
    let w = world(op >= 29);
    let (needs, run) = operation(&w, op);
    let without = kh::choose(needs.len() + 1);
    let mut st: Vec<Statement> = needs.iter().enumerate().filter(|(i, _)| *i != without).map(|(_, (p, a))| Statement::for_resource(named(p)).allowing(&action(*a))).collect();
    st.push(Statement::for_resource(named(&path(&["nothing"]))).allowing_all());
    let (s, d) = restricted(&w, st);
    decide(&w, &s, &d, &*run, without == needs.len());
}
/// subscribers need the permission for each topic
#[no_mangle]
pub extern "C" fn l11_subscriber() {
    let w = world(false);
    let (t, o, a) = (kh::u8("topic"), kh::u8("allowed topic"), kh::choose(ACTIONS));
    let st = vec![
        Statement::for_resource(named(&path(&["default"]))).allowing(&action(23)),
        Statement::for_resource(named(&topic(o))).allowing(&action(a)),
    ];
    let (_, d) = restricted(&w, st);
    let sub = d.create_subscriber().unwrap();
    let (r, needed) = if kh::boolean() { (sub.subscribe_to_bytes(vec![t]), 25) } else { (sub.unsubscribe_from_bytes(&[t]), 26) };
    if a == needed && t == o {
        kh::check(r.is_ok(), "a topic that is allowed can be subscribed to");
        kh::reach("allowed");
    } else {
        kh::check(matches!(r, Err(Error::PermissionDenied(_))), "a topic that is not allowed cannot be subscribed to");
        w.db.publish_bytes(vec![t], vec![1]).unwrap();
        kh::check(sub.receiver().try_receive().is_err(), "nothing is received from a topic that is not allowed");
        kh::reach("denied");
    }
}
