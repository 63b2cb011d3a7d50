//! publishing and subscribing
use crate::kh;
use crate::schema::*;
use bonsaidb_core::connection::StorageConnection;
use bonsaidb_core::pubsub::{PubSub, Subscriber as _, TryReceiveError};
use bonsaidb_local::config::Builder;
use bonsaidb_local::{Database, Storage, Subscriber};

struct Sub {
    sub: Option<Subscriber>,
    db: usize,
    topics: Vec<Vec<u8>>,
    messages: Vec<(Vec<u8>, Vec<u8>)>,
    read: usize,
}
fn receive(s: &mut Sub, most: usize) {
    for _ in 0..most {
        let Some(r) = &s.sub else { return };
        match r.receiver().try_receive() {
            Ok(m) => {
                let Some(want) = s.messages.get(s.read) else {
                    return kh::check(false, "only messages published to subscribed topics are received");
                };
                kh::check(m.topic[..] == want.0[..], "messages are received in order, each with its topic");
                kh::check(m.payload[..] == want.1[..], "messages are received in order, each with its payload");
                s.read += 1;
                kh::reach("received");
            }
            Err(TryReceiveError::Empty) => {
                return kh::check(s.read == s.messages.len(), "every message published to a subscribed topic is received");
            }
            Err(_) => return kh::check(false, "a subscriber stays connected"),
        }
    }
}
fn published(subs: &mut [Sub], db: usize, topic: &[u8], payload: &[u8]) {
    for s in subs.iter_mut().filter(|s| s.db == db && s.sub.is_some()) {
        if s.topics.iter().any(|t| t[..] == *topic) {
            s.messages.push((topic.to_vec(), payload.to_vec()));
        }
    }
}
fn topic() -> Vec<u8> {
    match kh::choose(kh::param(2)) {
        0 => vec![kh::u8("topic")],
        1 => vec![],
        _ => vec![0, 7],
    }
}
/// param 0: steps; param 1: 1 = both subscribers on one database
#[no_mangle]
pub extern "C" fn l15_pubsub() {
    let s = Storage::open(config().with_schema::<PlainSchema>().unwrap()).unwrap();
    let dbs: Vec<Database> = ["a", "ab"].iter().map(|n| s.create_database::<PlainSchema>(n, false).unwrap()).collect();
    let mut subs: Vec<Sub> = (0..2)
        .map(|i| {
            let db = if kh::param(1) == 1 { 0 } else { i };
            Sub { sub: Some(dbs[db].create_subscriber().unwrap()), db, topics: Vec::new(), messages: Vec::new(), read: 0 }
        })
        .collect();
    let t = topic();
    subs[0].sub.as_ref().unwrap().subscribe_to_bytes(t.clone()).unwrap();
    subs[0].topics.push(t);
    for n in 0..kh::param(0) {
        let i = kh::choose(2);
        match kh::choose(7) {
            0 => {
                let t = topic();
                let Some(r) = &subs[i].sub else { kh::skip() };
                r.subscribe_to_bytes(t.clone()).unwrap();
                subs[i].topics.push(t);
            }
            1 => {
                let t = topic();
                let Some(r) = &subs[i].sub else { kh::skip() };
                r.unsubscribe_from_bytes(&t).unwrap();
                subs[i].topics.retain(|x| *x != t);
            }
            2 => {
                let (t, p) = (topic(), vec![kh::u8("payload"), n as u8]);
                dbs[i].publish_bytes(t.clone(), p.clone()).unwrap();
                published(&mut subs, i, &t, &p);
            }
            3 => {
                let (t, u, p) = (topic(), topic(), vec![kh::u8("payload")]);
                dbs[i].publish_bytes_to_all([t.clone(), u.clone()], p.clone()).unwrap();
                published(&mut subs, i, &t, &p);
                published(&mut subs, i, &u, &p);
                kh::reach("several topics");
            }
            4 => receive(&mut subs[i], 1),
            5 => {
                // what is subscribed to outlives one of its handles
                let Some(r) = &subs[i].sub else { kh::skip() };
                drop(r.clone());
            }
            _ => {
                subs[i].sub = None;
                if kh::boolean() {
                    let db = subs[i].db;
                    subs[i] = Sub { sub: Some(dbs[db].create_subscriber().unwrap()), db, topics: Vec::new(), messages: Vec::new(), read: 0 };
                }
            }
        }
    }
    for s in &mut subs {
        receive(s, 10);
    }
    kh::reach("pubsub");
}
