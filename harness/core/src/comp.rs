//! Composite keys, decoders on arbitrary bytes, prefix ranges.
use crate::kh;
use arc_bytes::serde::{Bytes, CowBytes};
use arc_bytes::ArcBytes;
use bonsaidb_core::arc_bytes;
use bonsaidb_core::connection::*;
use bonsaidb_core::key::time::*;
use bonsaidb_core::key::*;
use bonsaidb_core::keyvalue::Timestamp;
use std::borrow::Cow;
use std::fmt::Debug;
use std::ops::RangeBounds;
use std::time::{Duration, SystemTime};

/// where two byte strings differ because one is a prefix of the other and the
/// rest starts with a null byte
fn nulled(a: &[u8], b: &[u8]) -> bool {
    let (s, l) = if a.len() < b.len() { (a, b) } else { (b, a) };
    s.len() < l.len() && l[..s.len()] == *s && l[s.len()] == 0
}
/// key values: where does the known composite-order defect apply
trait Field: PartialEq {
    /// None: the values are equal; Some(known): they differ, and `known` says
    /// whether the pair is in the known region
    fn diff(&self, o: &Self) -> Option<bool> {
        (self != o).then_some(false)
    }
}
impl Field for Vec<u8> {
    fn diff(&self, o: &Self) -> Option<bool> {
        (self != o).then(|| nulled(self, o))
    }
}
impl Field for String {
    fn diff(&self, o: &Self) -> Option<bool> {
        (self != o).then(|| nulled(self.as_bytes(), o.as_bytes()))
    }
}
impl Field for u8 {}
impl Field for u16 {}
impl Field for u32 {}
impl Field for bool {}
impl Field for () {}
impl Field for usize {}
impl Field for isize {}
impl Field for VarInt<u16> {}
impl Field for VarInt<i16> {}
impl<T: Field> Field for Option<T> {
    fn diff(&self, o: &Self) -> Option<bool> {
        match (self, o) {
            (Some(a), Some(b)) => a.diff(b),
            (None, None) => None,
            _ => Some(false),
        }
    }
}
impl<T: Field, E: Field> Field for Result<T, E> {
    fn diff(&self, o: &Self) -> Option<bool> {
        match (self, o) {
            (Ok(a), Ok(b)) => a.diff(b),
            (Err(a), Err(b)) => a.diff(b),
            _ => Some(false),
        }
    }
}
macro_rules! tuples {
    ($(($($i:tt $t:ident),+))*) => {$(
        impl<$($t: Field),+> Field for ($($t,)+) {
            fn diff(&self, o: &Self) -> Option<bool> {
                $(if let Some(k) = self.$i.diff(&o.$i) { return Some(k); })+
                None
            }
        }
    )*};
}
tuples!((0 A) (0 A, 1 B) (0 A, 1 B, 2 C) (0 A, 1 B, 2 C, 3 D) (0 A, 1 B, 2 C, 3 D, 4 E) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G) (0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H));

#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
struct Pair {
    name: Vec<u8>,
    rank: u8,
}
impl Field for Pair {
    fn diff(&self, o: &Self) -> Option<bool> {
        self.name.diff(&o.name).or_else(|| self.rank.diff(&o.rank))
    }
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = allow)]
struct Allow(Vec<u8>, Vec<u8>);
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, null_handling = deny)]
struct Deny(Vec<u8>, u16, Vec<u8>);
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
struct Wrap(u32);
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core)]
enum Mixed {
    Unit,
    One(u16),
    Named { a: Vec<u8>, b: bool },
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(core = bonsaidb_core, enum_repr = u16)]
enum Plain {
    A = 1,
    B = 0x0102,
    C = 0x0200,
    D = 0xfffe,
}
impl Field for Mixed {
    fn diff(&self, o: &Self) -> Option<bool> {
        match (self, o) {
            (Mixed::Unit, Mixed::Unit) => None,
            (Mixed::One(a), Mixed::One(b)) => a.diff(b),
            (Mixed::Named { a, b }, Mixed::Named { a: c, b: d }) => a.diff(c).or_else(|| b.diff(d)),
            _ => Some(false),
        }
    }
}
impl Field for Wrap {}

const ID: &str = "escaped-null-prefix-order";
fn both<K: for<'k> Key<'k> + Ord + Debug + Field>(mk: impl Fn(&str) -> K, what: &str) {
    let a = mk("a");
    let ea = a.as_ord_bytes().ok().expect("encode").into_owned();
    if kh::choose(2) == 0 {
        let src = match kh::choose(3) {
            0 => K::from_ord_bytes(ByteSource::Borrowed(Box::leak(ea.into_boxed_slice()))),
            1 => K::from_ord_bytes(ByteSource::Ephemeral(Box::leak(ea.into_boxed_slice()))),
            _ => K::from_ord_bytes(ByteSource::Owned(ea)),
        };
        kh::check(matches!(&src, Ok(v) if *v == a), &format!("{what}: decode inverts encode"));
        kh::reach(what);
        return;
    }
    let b = mk("b");
    let eb = b.as_ord_bytes().ok().expect("encode").into_owned();
    let same = a.cmp(&b) == ea.cmp(&eb);
    if a.diff(&b) == Some(true) {
        kh::check_known(same, &format!("{what}: encoded order is value order"), ID);
    } else {
        kh::check(same, &format!("{what}: encoded order is value order"));
    }
}
fn v(n: &str) -> Vec<u8> {
    kh::vec(n, 0, kh::param(0))
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    kh::boolean().then(f)
}
fn res<T, E>(f: impl FnOnce() -> T, g: impl FnOnce() -> E) -> Result<T, E> {
    if kh::boolean() {
        Ok(f())
    } else {
        Err(g())
    }
}

#[no_mangle]
pub extern "C" fn k02_composite() {
    match kh::choose(25) {
        0 => both(|n| (v(n),), "(bytes,)"),
        1 => both(|n| (v(n), v(n)), "(bytes, bytes)"),
        2 => both(|n| (v(n), kh::u8(n)), "(bytes, u8)"),
        3 => both(|n| (kh::u16(n), v(n)), "(u16, bytes)"),
        4 => both(|n| (kh::u8(n), kh::u16(n), kh::u32(n)), "(u8, u16, u32)"),
        5 => both(|n| (opt(|| kh::u8(n)), kh::u16(n)), "(Option<u8>, u16)"),
        6 => both(|n| (kh::u8(n), opt(|| kh::u16(n))), "(u8, Option<u16>)"),
        7 => both(|n| (opt(|| v(n)), kh::u8(n)), "(Option<bytes>, u8)"),
        8 => both(|n| (res(|| kh::u8(n), || kh::u16(n)), kh::u8(n)), "(Result<u8, u16>, u8)"),
        9 => both(|n| (VarInt(kh::u16(n)), kh::u8(n)), "(VarInt<u16>, u8)"),
        10 => both(|n| (VarInt(kh::i16(n)), v(n)), "(VarInt<i16>, bytes)"),
        11 => both(|n| (kh::u8(n), (v(n), kh::u8(n))), "(u8, (bytes, u8))"),
        12 => both(|n| ((v(n), kh::u8(n)), kh::u8(n)), "((bytes, u8), u8)"),
        13 => both(|n| Pair { name: v(n), rank: kh::u8(n) }, "derived struct"),
        14 => both(|n| Wrap(kh::u32(n)), "derived newtype"),
        15 => both(
            |n| match kh::choose(3) {
                0 => Mixed::Unit,
                1 => Mixed::One(kh::u16(n)),
                _ => Mixed::Named { a: v(n), b: kh::boolean() },
            },
            "derived enum",
        ),
        16 => both(|n| opt(|| opt(|| kh::u8(n))), "Option<Option<u8>>"),
        17 => both(|n| (opt(|| opt(|| kh::u8(n))), kh::u8(n)), "(Option<Option<u8>>, u8)"),
        18 => both(|n| opt(|| v(n)), "Option<bytes>"),
        19 => both(|n| res(|| (v(n),), || (kh::u8(n),)), "Result<(bytes,), (u8,)>"),
        20 => both(|n| (kh::ascii(n, 0, kh::param(0)), kh::boolean()), "(String, bool)"),
        21 => both(|n| (kh::i16(n) as isize, kh::u8(n)), "(isize, u8)"),
        22 => both(|n| ((), kh::u8(n), ()), "((), u8, ())"),
        23 => both(|n| ((opt(|| kh::u8(n)), kh::u8(n)), opt(|| kh::u8(n))), "((Option<u8>, u8), Option<u8>)"),
        _ => both(|n| (kh::u8(n), kh::u8(n), kh::u8(n), kh::u8(n), kh::u8(n), kh::u8(n), kh::u8(n), kh::u8(n)), "8-tuple"),
    }
}
#[no_mangle]
pub extern "C" fn k02_nulls() {
    match kh::choose(3) {
        0 => {
            let a = Allow(v("a"), v("b"));
            let e = a.as_ord_bytes().ok().expect("encode").into_owned();
            kh::check(matches!(Allow::from_ord_bytes(ByteSource::Owned(e.clone())), Ok(x) if x == a), "allowing nulls: decode inverts encode");
            let b = Allow(v("c"), v("d"));
            let null = |x: &Allow| x.0.contains(&0) || x.1.contains(&0);
            if !null(&a) && !null(&b) {
                let f = b.as_ord_bytes().ok().expect("encode").into_owned();
                kh::check(a.cmp(&b) == e.cmp(&f), "allowing nulls: null-free fields keep their order");
            }
            kh::reach("allow");
        }
        1 => {
            let a = Deny(v("a"), kh::u16("b"), v("c"));
            let null = a.0.contains(&0) || a.2.contains(&0);
            match a.as_ord_bytes() {
                Err(_) => kh::check(null, "denying nulls: only a variable-length field with a null byte is rejected"),
                Ok(e) => {
                    kh::check(!null, "denying nulls: a null byte in a variable-length field is rejected");
                    kh::check(matches!(Deny::from_ord_bytes(ByteSource::Owned(e.to_vec())), Ok(x) if x == a), "denying nulls: decode inverts encode");
                }
            }
            kh::reach("deny");
        }
        _ => {
            let all = [Plain::A, Plain::B, Plain::C, Plain::D];
            let (a, b) = (&all[kh::choose(4)], &all[kh::choose(4)]);
            let (e, f) = (a.as_ord_bytes().ok().unwrap(), b.as_ord_bytes().ok().unwrap());
            kh::check(a.cmp(b) == e.cmp(&f), "plain enum order");
            kh::check(matches!(Plain::from_ord_bytes(ByteSource::Borrowed(&e)), Ok(x) if x == *a), "plain enum round trip");
            kh::reach("plain");
        }
    }
}
/// field lengths around the points where the length suffix changes size
#[no_mangle]
pub extern "C" fn k02_lengths() {
    let lens = [0, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 65534, 65535, 65536];
    let mk = |n: &str| {
        let l = lens[kh::choose(lens.len())];
        let mut d = vec![7u8; l];
        if l > 0 {
            // null bytes are escaped, which would change the length class
            d[l - 1] = kh::u8(n);
            kh::assume(d[l - 1] != 0);
        }
        d
    };
    let t = (mk("a"), kh::u8("m"), mk("b"));
    match t.as_ord_bytes() {
        Ok(e) => {
            let back = <(Vec<u8>, u8, Vec<u8>)>::from_ord_bytes(ByteSource::Borrowed(&e));
            kh::check(matches!(&back, Ok(x) if *x == t), "decode inverts encode at every length class");
            kh::reach("lengths");
        }
        Err(_) => kh::check(t.0.len() > 65535 || t.2.len() > 65535, "only fields longer than 65535 bytes are rejected"),
    }
    if t.0.len() > 65535 || t.2.len() > 65535 {
        kh::check(t.as_ord_bytes().is_err(), "a field longer than 65535 bytes is rejected");
        kh::reach("too long");
    }
}

// ------------------------------------------------------- K03 decoders are total
fn total<K: for<'k> Key<'k>>(b: &[u8], fixed: Option<usize>) {
    let leak: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
    let r = match kh::choose(3) {
        0 => K::from_ord_bytes(ByteSource::Borrowed(leak)).is_ok(),
        1 => K::from_ord_bytes(ByteSource::Ephemeral(leak)).is_ok(),
        _ => K::from_ord_bytes(ByteSource::Owned(leak.to_vec())).is_ok(),
    };
    if let Some(n) = fixed {
        if b.len() != n {
            kh::check(!r, "input of the wrong length is rejected");
        }
    } else {
        kh::check(true, "decoder returns");
    }
}
#[no_mangle]
pub extern "C" fn k03_total() {
    let which = kh::choose(44);
    let b = kh::vec("bytes", 0, if which < 24 { kh::param(1) } else { kh::param(0) });
    let b = &b[..];
    match which {
        0 => total::<u8>(b, Some(1)),
        1 => total::<u16>(b, Some(2)),
        2 => total::<u32>(b, Some(4)),
        3 => total::<u64>(b, Some(8)),
        4 => total::<u128>(b, Some(16)),
        5 => total::<i64>(b, Some(8)),
        6 => total::<std::num::NonZeroU32>(b, Some(4)),
        7 => total::<std::num::NonZeroUsize>(b, None),
        8 => total::<usize>(b, None),
        9 => total::<isize>(b, None),
        10 => total::<VarInt<u8>>(b, None),
        11 => total::<VarInt<u64>>(b, None),
        12 => total::<VarInt<i128>>(b, None),
        13 => total::<bool>(b, None),
        14 => total::<()>(b, None),
        15 => total::<[u8; 5]>(b, Some(5)),
        16 => total::<Duration>(b, None),
        17 => total::<SystemTime>(b, None),
        18 => total::<Timestamp>(b, Some(12)),
        19 => total::<TimestampAsNanoseconds>(b, None),
        20 => total::<Weeks>(b, None),
        21 => total::<ordered_varint::Unsigned>(b, None),
        22 => total::<ordered_varint::Signed>(b, None),
        23 => total::<bonsaidb_core::document::DocumentId>(b, None),
        24 => total::<String>(b, None),
        25 => total::<Vec<u8>>(b, None),
        26 => total::<Option<u16>>(b, None),
        27 => total::<Option<Vec<u8>>>(b, None),
        28 => total::<Result<u8, u16>>(b, None),
        29 => total::<(u8,)>(b, Some(1)),
        30 => total::<(u16, u8)>(b, Some(3)),
        31 => total::<(Vec<u8>,)>(b, None),
        32 => total::<(Vec<u8>, u8)>(b, None),
        33 => total::<(Vec<u8>, Vec<u8>)>(b, None),
        34 => total::<(Vec<u8>, Vec<u8>, Vec<u8>)>(b, None),
        35 => total::<(u8, Vec<u8>, ())>(b, None),
        36 => total::<(Option<u8>, Option<Vec<u8>>)>(b, None),
        37 => total::<(String, usize)>(b, None),
        38 => total::<(Result<(u8,), (Vec<u8>,)>, u8)>(b, None),
        39 => total::<((Vec<u8>, u8), Vec<u8>)>(b, None),
        40 => total::<Pair>(b, None),
        41 => total::<Allow>(b, None),
        42 => total::<Mixed>(b, None),
        _ => total::<Plain>(b, None),
    }
    kh::reach("decoded");
}

/// Longer inputs, for the kinds whose values take more than a few bytes.
#[no_mangle]
pub extern "C" fn k03_long() {
    let which = kh::choose(20);
    let b = kh::vec("bytes", kh::param(0), kh::param(1));
    let b = &b[..];
    match which {
        0 => total::<u64>(b, Some(8)),
        1 => total::<i128>(b, Some(16)),
        2 => total::<u128>(b, Some(16)),
        3 => total::<std::num::NonZeroU64>(b, Some(8)),
        4 => total::<usize>(b, None),
        5 => total::<isize>(b, None),
        6 => total::<VarInt<u64>>(b, None),
        7 => total::<VarInt<i64>>(b, None),
        8 => total::<VarInt<u128>>(b, None),
        9 => total::<VarInt<i128>>(b, None),
        10 => total::<[u8; 12]>(b, Some(12)),
        11 => total::<Duration>(b, None),
        12 => total::<SystemTime>(b, None),
        13 => total::<Timestamp>(b, Some(12)),
        14 => total::<TimestampAsNanoseconds>(b, None),
        15 => total::<Weeks>(b, None),
        16 => total::<ordered_varint::Unsigned>(b, None),
        17 => total::<ordered_varint::Signed>(b, None),
        18 => total::<(u64, u32, i16)>(b, Some(14)),
        _ => total::<bonsaidb_core::document::DocumentId>(b, None),
    }
    kh::reach("decoded long");
}

// ------------------------------------------------------------ K04 prefix ranges
fn prefix<O, B: ?Sized>(p: &B, x: &B, starts: bool, what: &str)
where
    O: std::borrow::Borrow<B> + PartialEq<B> + PartialOrd,
    B: for<'a> IntoPrefixRange<'a, O> + PartialOrd,
{
    let r = p.to_prefix_range();
    let inside = r.contains(x);
    kh::check(inside == starts, what);
    kh::reach(what);
}
/// the range as the stores see it: encoded bounds compared bytewise
fn prefix_bytes<O, B: ?Sized>(p: &B, x: &[u8], starts: bool, what: &str)
where
    O: std::borrow::Borrow<B> + PartialEq<B> + for<'k> Key<'k>,
    B: for<'a> IntoPrefixRange<'a, O> + KeyEncoding<O>,
{
    let range = p.to_prefix_range();
    let r = range.as_ord_bytes().ok().expect("encode");
    let after = match &r.start {
        Bound::Unbounded => true,
        Bound::Included(s) => x >= &s[..],
        Bound::Excluded(s) => x > &s[..],
    };
    let before = match &r.end {
        Bound::Unbounded => true,
        Bound::Included(s) => x <= &s[..],
        Bound::Excluded(s) => x < &s[..],
    };
    kh::check((after && before) == starts, what);
}
#[no_mangle]
pub extern "C" fn k04_prefix() {
    let n = kh::param(0);
    match kh::choose(7) {
        0 => {
            let (p, x) = (kh::vec("p", 0, n), kh::vec("x", 0, n + 1));
            prefix::<Vec<u8>, Vec<u8>>(&p, &x, x.starts_with(&p), "Vec<u8> prefix range");
            prefix_bytes::<Vec<u8>, Vec<u8>>(&p, &x, x.starts_with(&p), "Vec<u8> encoded prefix range");
        }
        1 => {
            let (p, x) = (kh::vec("p", 0, n), kh::vec("x", 0, n + 1));
            let s = x.starts_with(&p);
            let (p, x) = (Cow::<'static, [u8]>::Owned(p), Cow::<'static, [u8]>::Owned(x));
            let r = p.to_prefix_range();
            kh::check(r.contains(&x) == s, "Cow<[u8]> prefix range");
        }
        2 => {
            let (p, x) = (kh::vec("p", 0, n), kh::vec("x", 0, n + 1));
            let s = x.starts_with(&p);
            let (p, x) = (ArcBytes::owned(p), ArcBytes::owned(x));
            let r = p.to_prefix_range();
            kh::check(r.contains(&x) == s, "ArcBytes prefix range");
        }
        3 => {
            let (p, x) = (kh::vec("p", 0, n), kh::vec("x", 0, n + 1));
            let s = x.starts_with(&p);
            let (p, x) = (CowBytes::from(p), CowBytes::from(x));
            let r = p.to_prefix_range();
            kh::check(r.contains(&x) == s, "CowBytes prefix range");
        }
        4 => {
            let (p, x) = (kh::vec("p", 0, n), kh::vec("x", 0, n + 1));
            let s = x.starts_with(&p);
            prefix_bytes::<Bytes, Bytes>(&Bytes::from(p.clone()), &x, s, "Bytes encoded prefix range");
            prefix::<Bytes, Bytes>(&Bytes::from(p), &Bytes::from(x), s, "Bytes prefix range");
        }
        k => {
            let chars = |name: &str, hi: usize| {
                let mut s = String::new();
                for _ in 0..kh::choose(hi + 1) {
                    let c = kh::u32(name);
                    kh::assume(c < 0x110000);
                    kh::assume(!(0xd800..0xe000).contains(&c));
                    s.push(char::from_u32(c).unwrap());
                }
                s
            };
            let (p, x) = (chars("p", kh::param(2)), chars("x", kh::param(3)));
            let s = x.as_bytes().starts_with(p.as_bytes());
            if k == 5 {
                prefix::<String, String>(&p, &x, s, "String prefix range");
                prefix_bytes::<String, String>(&p, x.as_bytes(), s, "String encoded prefix range");
            } else {
                prefix::<String, str>(&p, &x, s, "str prefix range");
            }
        }
    }
}
