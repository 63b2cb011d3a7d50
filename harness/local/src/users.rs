//! users, roles and permission groups: what an identity may do
use crate::kh;
use crate::schema::*;
use bonsaidb_core::admin::{PermissionGroup, Role, User};
use bonsaidb_core::connection::{AuthenticationMethod, HasSession, Identity, IdentityReference, SessionAuthentication, StorageConnection};
use bonsaidb_core::permissions::bonsai::{BonsaiAction, ServerAction};
use bonsaidb_core::permissions::{Permissions, ResourceName, Statement};
use bonsaidb_core::schema::{NamedCollection, NamedReference, SerializedCollection};
use bonsaidb_core::Error;
use bonsaidb_local::config::Builder;
use bonsaidb_local::Storage;

fn action(i: usize) -> BonsaiAction {
    BonsaiAction::Server(match i {
        0 => ServerAction::CreateUser,
        1 => ServerAction::DeleteDatabase,
        _ => ServerAction::Authenticate(AuthenticationMethod::Token),
    })
}
fn resource(r: u8) -> ResourceName<'static> {
    ResourceName::named("bonsaidb".to_string()).and(vec![r])
}
#[derive(Default, Clone)]
struct Account {
    id: u64,
    groups: Vec<usize>,
    roles: Vec<usize>,
}
#[derive(Clone)]
struct Group {
    id: u64,
    exists: bool,
    resource: u8,
    action: usize,
}
struct Part {
    id: u64,
    exists: bool,
    groups: Vec<usize>,
}
const USERS: [&str; 2] = ["u", "v"];
const ROLES: [&str; 2] = ["r", "s"];
const GROUPS: [&str; 2] = ["g", "h"];
struct World {
    by_name: bool,
    users: [Option<Account>; 2],
    roles: Vec<Part>,
    groups: Vec<Group>,
    authenticated: (u8, usize),
}
fn name(by_name: bool, names: &[&'static str], i: usize, id: u64) -> NamedReference<'static, u64> {
    if by_name { NamedReference::from(names[i]) } else { NamedReference::Key(id) }
}
fn step(s: &Storage, w: &mut World) {
    let op = kh::choose(8);
    let u = if op >= 2 && op <= 5 { 0 } else { kh::choose(2) };
    let missing = w.users[u].is_none();
    let uid = w.users[u].as_ref().map_or(0xffff_ffff_ffff, |a| a.id);
    match op {
        0 => {
            let r = s.create_user(USERS[u]);
            match r {
                Ok(id) => {
                    kh::check(missing, "a user's name is given once");
                    w.users[u] = Some(Account { id, ..Default::default() });
                }
                Err(Error::UniqueKeyViolation { .. }) if !missing => {}
                Err(e) => {
                    kh::print(&format!("{e:?}"));
                    kh::check(false, "a user of an unused name can be created")
                }
            }
        }
        1 => {
            let r = s.delete_user(name(w.by_name, &USERS, u, uid));
            if missing {
                kh::check(matches!(r, Err(Error::UserNotFound)), "a user that doesn't exist isn't found");
            } else {
                kh::check(r.is_ok(), "a user can be deleted");
                w.users[u] = None;
            }
        }
        2 | 3 => {
            let g = kh::choose(2);
            let gn = name(w.by_name, &GROUPS, g, w.groups[g].id);
            let by_name = matches!(gn, NamedReference::Name(_));
            let un = name(w.by_name, &USERS, u, uid);
            let r = if op == 2 { s.add_permission_group_to_user(un, gn) } else { s.remove_permission_group_from_user(un, gn) };
            let Some(a) = w.users[u].as_mut().filter(|_| w.groups[g].exists || !by_name) else {
                return kh::check(matches!(r, Err(Error::UserNotFound)), "a user or group that doesn't exist isn't found");
            };
            kh::check(r.is_ok(), "a user's groups can be changed");
            a.groups.retain(|x| *x != g);
            if op == 2 {
                a.groups.push(g);
            }
        }
        4 | 5 => {
            let x = kh::choose(2);
            let rn = name(w.by_name, &ROLES, x, w.roles[x].id);
            let by_name = matches!(rn, NamedReference::Name(_));
            let un = name(w.by_name, &USERS, u, uid);
            let r = if op == 4 { s.add_role_to_user(un, rn) } else { s.remove_role_from_user(un, rn) };
            let Some(a) = w.users[u].as_mut().filter(|_| w.roles[x].exists || !by_name) else {
                return kh::check(matches!(r, Err(Error::UserNotFound)), "a user or role that doesn't exist isn't found");
            };
            kh::check(r.is_ok(), "a user's roles can be changed");
            a.roles.retain(|y| *y != x);
            if op == 4 {
                a.roles.push(x);
            }
        }
        6 => {
            let admin = s.admin();
            if kh::boolean() {
                if !w.roles[u].exists {
                    kh::skip();
                }
                Role::load(ROLES[u], &admin).unwrap().unwrap().delete(&admin).unwrap();
                w.roles[u].exists = false;
            } else {
                if !w.groups[u].exists {
                    kh::skip();
                }
                PermissionGroup::load(GROUPS[u], &admin).unwrap().unwrap().delete(&admin).unwrap();
                w.groups[u].exists = false;
            }
        }
        _ => {
            let admin = s.admin();
            if !w.roles[u].exists {
                kh::skip();
            }
            let g = kh::choose(2);
            let mut d = Role::load(ROLES[u], &admin).unwrap().unwrap();
            d.contents.groups = vec![w.groups[g].id];
            d.update(&admin).unwrap();
            w.roles[u].groups = vec![g];
        }
    }
}
/// param 0: steps
#[no_mangle]
pub extern "C" fn l14_users() {
    let authenticated = (0x41, 0);
    let everyone = Permissions::from(vec![Statement::for_resource(resource(authenticated.0)).allowing(&action(authenticated.1))]);
    let mut c = config();
    if kh::param(1) == 1 {
        c = disk();
    }
    let s = Storage::open(c.authenticated_permissions(everyone.clone())).unwrap();
    let mut w = World { by_name: kh::boolean(), users: [None, None], roles: Vec::new(), groups: Vec::new(), authenticated };
    {
        let admin = s.admin();
        for (i, g) in GROUPS.iter().enumerate() {
            let (r, a) = (kh::u8("group's resource"), i);
            let mut group = PermissionGroup::named(*g);
            group.statements = vec![Statement::for_resource(resource(r)).allowing(&action(a))];
            let id = group.push_into(&admin).unwrap().header.id;
            w.groups.push(Group { id, exists: true, resource: r, action: a });
        }
        for (i, r) in ROLES.iter().enumerate() {
            let groups: Vec<usize> = if i == 0 { vec![1, 0] } else { vec![] };
            let id = Role::named(*r).with_group_ids(groups.iter().map(|g| w.groups[*g].id)).push_into(&admin).unwrap().header.id;
            w.roles.push(Part { id, exists: true, groups });
        }
    }
    let id = s.create_user(USERS[0]).unwrap();
    w.users[0] = Some(Account { id, ..Default::default() });
    let id = s.create_user(USERS[1]).unwrap();
    s.add_permission_group_to_user(id, w.groups[1].id).unwrap();
    w.users[1] = Some(Account { id, groups: vec![1], ..Default::default() });
    for _ in 0..kh::param(0) {
        step(&s, &mut w);
    }
    if kh::param(1) == 1 {
        drop(s);
        let s = Storage::open(disk().authenticated_permissions(everyone)).unwrap();
        identities(&s, &w);
        kh::reach("opened again");
    } else {
        identities(&s, &w);
    }
}
fn identities(s: &Storage, w: &World) {
    for i in 0..2 {
        let got = s.admin_user(USERS[i]);
        kh::check(got == w.users[i].as_ref().map(|a| a.id), "a user has its name exactly while it exists");
    }
    let r = kh::u8("resource");
    for which in 0..2 {
        for user in [true, false] {
            identity(s, w, which, user, r);
        }
    }
}
fn identity(s: &Storage, w: &World, which: usize, user: bool, r: u8) {
    let mut groups: Vec<usize> = Vec::new();
    let got;
    let expected;
    if user {
        let id = w.users[which].as_ref().map_or(0xffff_ffff_ffff, |a| a.id);
        got = s.assume_identity(IdentityReference::User(name(w.by_name, &USERS, which, id)));
        let Some(a) = &w.users[which] else {
            return kh::check(matches!(got, Err(Error::InvalidCredentials)), "a user that doesn't exist can't be assumed");
        };
        groups.extend(&a.groups);
        for r in &a.roles {
            if w.roles[*r].exists {
                groups.extend(&w.roles[*r].groups);
            }
        }
        expected = Identity::User { id, username: USERS[which].to_string() };
        kh::reach("user");
    } else {
        let id = w.roles[which].id;
        got = s.assume_identity(IdentityReference::Role(name(w.by_name, &ROLES, which, id)));
        if !w.roles[which].exists {
            return kh::check(matches!(got, Err(Error::InvalidCredentials)), "a role that doesn't exist can't be assumed");
        }
        groups.extend(&w.roles[which].groups);
        expected = Identity::Role { id, name: ROLES[which].to_string() };
        kh::reach("role");
    }
    let got = match got {
        Ok(s) => s,
        Err(e) => {
            kh::print(&format!("{e:?}"));
            return kh::check(false, "an identity that exists can be assumed");
        }
    };
    let session = got.session().unwrap();
    kh::check(matches!(&session.authentication, SessionAuthentication::Identity(i) if **i == expected), "the session is that of the identity");
    for a in 0..3 {
        let mut allowed = (w.authenticated.0 == r) & (w.authenticated.1 == a);
        for g in &groups {
            let g = &w.groups[*g];
            allowed |= g.exists & (g.resource == r) & (g.action == a);
        }
        kh::check(session.allowed_to(&resource(r), &action(a)) == allowed, "an identity may do exactly what its groups, its roles' groups and every identity may do");
    }
    kh::check(s.session().is_none(), "assuming an identity doesn't change the session it is assumed from");
    kh::reach("permissions");
}
trait ByName {
    fn admin_user(&self, name: &str) -> Option<u64>;
}
impl ByName for Storage {
    fn admin_user(&self, name: &str) -> Option<u64> {
        User::load(name, &self.admin()).unwrap().map(|u| {
            kh::check(u.contents.username == name, "a user is found by its name");
            u.header.id
        })
    }
}
