use crate::kh;
use bonsaidb_core::key::*;
use ordered_varint::{Signed, Unsigned};
use std::fmt::Debug;
use std::num::*;

/// K01 core statement for a pair of values of one key type: encoded order is
/// value order and decoding inverts encoding (for every byte source flavour).
fn pair<K: for<'k> Key<'k> + Ord + Debug>(a: &K, b: &K, what: &str) {
    let ea = a.as_ord_bytes().ok().expect("encode").to_vec();
    let eb = b.as_ord_bytes().ok().expect("encode").to_vec();
    let vo = a.cmp(b);
    let bo = ea.cmp(&eb);
    kh::check(vo == bo, what);
    kh::reach(what);
}
fn pair_known<K: for<'k> Key<'k> + Ord + Debug>(a: &K, b: &K, known: bool, what: &str, id: &str) {
    let ea = a.as_ord_bytes().ok().expect("encode").to_vec();
    let eb = b.as_ord_bytes().ok().expect("encode").to_vec();
    let same = a.cmp(b) == ea.cmp(&eb);
    if known {
        kh::check_known(same, what, id);
    } else {
        kh::check(same, what);
    }
    kh::reach(what);
}
pub fn round<K: for<'k> Key<'k> + PartialEq + Debug>(a: &K, what: &str) {
    let mut e = a.as_ord_bytes().ok().expect("encode").to_vec();
    if let Some(n) = <K as KeyEncoding<K>>::LENGTH {
        kh::check(e.len() == n, "encoded length equals declared LENGTH");
    }
    match kh::choose(3) {
        0 => match K::from_ord_bytes(ByteSource::Borrowed(Box::leak(e.into_boxed_slice()))) {
            Ok(v) => kh::check(v == *a, what),
            Err(_) => kh::check(false, what),
        },
        1 => match K::from_ord_bytes(ByteSource::Ephemeral(&mut e)) {
            Ok(v) => kh::check(v == *a, what),
            Err(_) => kh::check(false, what),
        },
        _ => match K::from_ord_bytes(ByteSource::Owned(e)) {
            Ok(v) => kh::check(v == *a, what),
            Err(_) => kh::check(false, what),
        },
    }
    kh::reach(what);
}

macro_rules! unsigned {
    ($f:ident) => {{
        let (a, b) = (kh::$f("a"), kh::$f("b"));
        if kh::boolean() {
            pair(&a, &b, concat!(stringify!($f), " order"));
        } else {
            round(&a, concat!(stringify!($f), " round trip"));
        }
    }};
}
macro_rules! signed {
    ($f:ident) => {{
        let (a, b) = (kh::$f("a"), kh::$f("b"));
        // fixed-width signed integers are stored as two's complement: values
        // of different sign sort the wrong way round (known finding)
        let mixed = (a < 0) != (b < 0);
        if kh::boolean() {
            pair_known(&a, &b, mixed, concat!(stringify!($f), " order"), "signed-fixed-width-sign");
        } else {
            round(&a, concat!(stringify!($f), " round trip"));
        }
    }};
}
macro_rules! nonzero {
    ($f:ident, $nz:ident, $signed:expr) => {{
        let (a, b) = (kh::$f("a"), kh::$f("b"));
        kh::assume(a != 0);
        kh::assume(b != 0);
        #[allow(unused_comparisons)]
        let mixed = $signed && ((a < 0) != (b < 0));
        let (a, b) = ($nz::new(a).unwrap(), $nz::new(b).unwrap());
        if kh::boolean() {
            pair_known(&a, &b, mixed, concat!(stringify!($nz), " order"), "signed-fixed-width-sign");
        } else {
            round(&a, concat!(stringify!($nz), " round trip"));
        }
    }};
}
/// ordered-varint keeps four bits of the first byte for the length: 128-bit
/// values beyond these limits are documented to be rejected, and only those.
fn fits<K: for<'k> Key<'k>>(v: &K, small: bool, what: &str) -> bool {
    let ok = v.as_ord_bytes().is_ok();
    kh::check(ok || !small, what);
    ok
}
fn small_u(v: u128) -> bool {
    v < 1 << 124
}
fn small_i(v: i128) -> bool {
    v < 1 << 123 && v >= -(1 << 123)
}
macro_rules! var128 {
    ($f:ident, $small:ident, $w:expr) => {{
        let (x, y) = (kh::$f("a"), kh::$f("b"));
        let (a, b) = ($w(x), $w(y));
        let fa = fits(&a, $small(x), concat!(stringify!($f), ": a value within the documented range is rejected"));
        kh::assume(fa);
        if kh::boolean() {
            let fb = fits(&b, $small(y), concat!(stringify!($f), ": a value within the documented range is rejected"));
            kh::assume(fb);
            pair(&a, &b, concat!(stringify!($w), "<", stringify!($f), "> order"));
        } else {
            round(&a, concat!(stringify!($w), "<", stringify!($f), "> round trip"));
        }
    }};
}
macro_rules! var {
    ($f:ident) => {{
        let (a, b) = (VarInt(kh::$f("a")), VarInt(kh::$f("b")));
        if kh::boolean() {
            pair(&a, &b, concat!("VarInt<", stringify!($f), "> order"));
        } else {
            round(&a, concat!("VarInt<", stringify!($f), "> round trip"));
        }
    }};
}

#[no_mangle]
pub extern "C" fn k01_ints() {
    match kh::choose(24) {
        0 => unsigned!(u8),
        1 => unsigned!(u16),
        2 => unsigned!(u32),
        3 => unsigned!(u64),
        4 => unsigned!(u128),
        5 => unsigned!(usize),
        6 => unsigned!(isize),
        7 => signed!(i8),
        8 => signed!(i16),
        9 => signed!(i32),
        10 => signed!(i64),
        11 => signed!(i128),
        12 => nonzero!(u8, NonZeroU8, false),
        13 => nonzero!(u16, NonZeroU16, false),
        14 => nonzero!(u32, NonZeroU32, false),
        15 => nonzero!(u64, NonZeroU64, false),
        16 => nonzero!(u128, NonZeroU128, false),
        17 => nonzero!(i8, NonZeroI8, true),
        18 => nonzero!(i16, NonZeroI16, true),
        19 => nonzero!(i32, NonZeroI32, true),
        20 => nonzero!(i64, NonZeroI64, true),
        21 => nonzero!(i128, NonZeroI128, true),
        22 => nonzero!(usize, NonZeroUsize, false),
        _ => nonzero!(isize, NonZeroIsize, false),
    }
}
#[no_mangle]
pub extern "C" fn k01_varints() {
    match kh::choose(14) {
        0 => var!(u8),
        1 => var!(u16),
        2 => var!(u32),
        3 => var!(u64),
        4 => var128!(u128, small_u, VarInt),
        5 => var!(usize),
        6 => var!(i8),
        7 => var!(i16),
        8 => var!(i32),
        9 => var!(i64),
        10 => var128!(i128, small_i, VarInt),
        11 => var!(isize),
        12 => var128!(u128, small_u, unsigned),
        _ => var128!(i128, small_i, signed),
    }
}
fn unsigned(v: u128) -> Unsigned {
    Unsigned::from(v)
}
fn signed(v: i128) -> Signed {
    Signed::from(v)
}

// ---------------------------------------------------------------- K05 next_value
macro_rules! next {
    ($f:ident) => {{
        let a = kh::$f("a");
        match Key::next_value(&a) {
            Ok(n) => {
                kh::check(a != $f::MAX, concat!(stringify!($f), ": next_value of the maximum"));
                kh::check(n > a && n.wrapping_sub(a) == 1, concat!(stringify!($f), ": next_value is the successor"));
            }
            Err(_) => kh::check(a == $f::MAX, concat!(stringify!($f), ": next_value fails only at the maximum")),
        }
        kh::check(matches!(<$f as Key>::first_value(), Ok(0)), concat!(stringify!($f), ": first_value is zero"));
        // inside Option and Result the successor is that of the contents
        let o = if kh::boolean() { Some(a) } else { None };
        match o.next_value() {
            Ok(n) => kh::check(n > o, concat!(stringify!($f), ": Option::next_value is greater")),
            Err(_) => kh::check(o == Some($f::MAX), concat!(stringify!($f), ": Option::next_value fails only at the maximum")),
        }
        let r: Result<$f, $f> = if kh::boolean() { Ok(a) } else { Err(a) };
        match r.next_value() {
            Ok(n) => kh::check(n > r, concat!(stringify!($f), ": Result::next_value is greater")),
            Err(_) => kh::check(a == $f::MAX, concat!(stringify!($f), ": Result::next_value fails only at the maximum")),
        }
        kh::reach(concat!("next ", stringify!($f)));
    }};
}
macro_rules! next_nz {
    ($f:ident, $nz:ident) => {{
        let a = kh::$f("a");
        kh::assume(a != 0);
        let k = $nz::new(a).unwrap();
        match k.next_value() {
            Ok(n) => {
                let d = n.get().wrapping_sub(a);
                kh::check(n > k, concat!(stringify!($nz), ": next_value is greater"));
                #[allow(unused_comparisons)]
                let skip = a < 0 && n.get() > 0;
                kh::check(d == if skip { 2 } else { 1 }, concat!(stringify!($nz), ": next_value is the successor skipping zero"));
            }
            Err(_) => kh::check(a == $f::MAX, concat!(stringify!($nz), ": next_value fails only at the maximum")),
        }
        kh::check(matches!(<$nz as Key>::first_value(), Ok(n) if n.get() == 1), concat!(stringify!($nz), ": first_value is one"));
        kh::reach(concat!("next ", stringify!($nz)));
    }};
}
#[no_mangle]
pub extern "C" fn k05_next() {
    match kh::choose(26) {
        0 => next!(u8),
        1 => next!(u16),
        2 => next!(u32),
        3 => next!(u64),
        4 => next!(u128),
        5 => next!(usize),
        6 => next!(i8),
        7 => next!(i16),
        8 => next!(i32),
        9 => next!(i64),
        10 => next!(i128),
        11 => next!(isize),
        12 => next_nz!(u8, NonZeroU8),
        13 => next_nz!(u16, NonZeroU16),
        14 => next_nz!(u32, NonZeroU32),
        15 => next_nz!(u64, NonZeroU64),
        16 => next_nz!(u128, NonZeroU128),
        17 => next_nz!(i8, NonZeroI8),
        18 => next_nz!(i16, NonZeroI16),
        19 => next_nz!(i32, NonZeroI32),
        20 => next_nz!(i64, NonZeroI64),
        21 => next_nz!(i128, NonZeroI128),
        22 => next_nz!(usize, NonZeroUsize),
        23 => next_nz!(isize, NonZeroIsize),
        24 => {
            let a = kh::u128("a");
            match Unsigned::from(a).next_value() {
                Ok(n) => kh::check(u128::from(n) > a && u128::from(n) - a == 1, "Unsigned::next_value is the successor"),
                Err(_) => kh::check(a == u128::MAX, "Unsigned::next_value fails only at the maximum"),
            }
        }
        _ => {
            let a = kh::i128("a");
            match Signed::from(a).next_value() {
                Ok(n) => kh::check(i128::from(n) > a && i128::from(n) - a == 1, "Signed::next_value is the successor"),
                Err(_) => kh::check(a == i128::MAX, "Signed::next_value fails only at the maximum"),
            }
        }
    }
}
