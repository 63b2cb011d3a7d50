//! Time keys: Duration, SystemTime, limited-resolution durations and timestamps.
use crate::kh;
use bonsaidb_core::key::time::limited::*;
use bonsaidb_core::key::*;
use std::fmt::Debug;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// any duration whose seconds have at most param(0) significant bits
fn duration(n: &str) -> Duration {
    let secs = kh::u64(n);
    let bits = kh::param(0);
    if bits < 64 {
        kh::assume(secs >> bits == 0);
    }
    let nanos = kh::u32(n);
    kh::assume(nanos < 1_000_000_000);
    Duration::new(secs, nanos)
}
fn nanos(d: Duration) -> u128 {
    u128::from(d.as_secs()) * 1_000_000_000 + u128::from(d.subsec_nanos())
}
fn roundtrip<K: for<'k> Key<'k> + Ord + Debug>(a: &K, b: &K, what: &str) {
    let (ea, eb) = (a.as_ord_bytes().ok().expect("encode").into_owned(), b.as_ord_bytes().ok().expect("encode").into_owned());
    kh::check(a.cmp(b) == ea.cmp(&eb), what);
    kh::check(matches!(K::from_ord_bytes(ByteSource::Owned(ea)), Ok(x) if x == *a), what);
    kh::reach(what);
}
#[no_mangle]
pub extern "C" fn k06_keys() {
    match kh::choose(3) {
        0 => roundtrip(&duration("a"), &duration("b"), "Duration key: order and round trip"),
        1 => {
            let (a, b) = (duration("a"), duration("b"));
            match (UNIX_EPOCH.checked_add(a), UNIX_EPOCH.checked_add(b)) {
                (Some(a), Some(b)) => roundtrip(&a, &b, "SystemTime key: order and round trip"),
                _ => {}
            }
        }
        _ => {
            let a = duration("a");
            if let Some(t) = UNIX_EPOCH.checked_sub(a) {
                kh::check(t.as_ord_bytes().is_err() == (a != Duration::ZERO), "SystemTime before the epoch is rejected, not mis-encoded");
                kh::reach("before epoch");
            }
        }
    }
}

trait Unit: TimeResolution {
    /// nanoseconds per step
    const NANOS: i128;
    /// the representation's range
    const RANGE: (i64, i64);
    fn sym(n: &str) -> Self::Representation;
    fn to_i64(r: Self::Representation) -> i64;
}
macro_rules! unit {
    ($($u:ident $r:ident $f:ident $n:expr),*) => {$(
        impl Unit for $u {
            const NANOS: i128 = $n;
            const RANGE: (i64, i64) = ($r::MIN as i64, $r::MAX as i64);
            fn sym(n: &str) -> $r { kh::$f(n) }
            fn to_i64(r: $r) -> i64 { r as i64 }
        }
    )*};
}
unit!(Nanoseconds i64 i64 1, Microseconds i64 i64 1_000, Milliseconds i64 i64 1_000_000, Seconds i64 i64 1_000_000_000,
      Minutes i32 i32 60_000_000_000, Hours i32 i32 3_600_000_000_000, Days i32 i32 86_400_000_000_000, Weeks i32 i32 604_800_000_000_000);

/// sign and magnitude in nanoseconds
fn steps<U: Unit>(r: U::Representation) -> (bool, u128) {
    let r = U::to_i64(r);
    (r < 0, u128::from(r.unsigned_abs()) * U::NANOS as u128)
}
/// representation -> duration is exact
fn to_duration<U: Unit>() {
    let r = U::sym("r");
    let d = LimitedResolutionDuration::<U>::new(r);
    let (neg, v) = steps::<U>(r);
    match SignedDuration::try_from(d) {
        Ok(SignedDuration::Positive(d)) => kh::check((!neg || v == 0) && nanos(d) == v, "a limited-resolution duration converts exactly"),
        Ok(SignedDuration::Negative(d)) => kh::check((neg || v == 0) && nanos(d) == v, "a negative limited-resolution duration converts exactly"),
        Err(_) => kh::check(false, "every limited-resolution duration converts"),
    }
    if let Ok(p) = Duration::try_from(d) {
        kh::check(!neg && nanos(p) == v, "to an unsigned Duration exactly");
    } else {
        kh::check(neg, "only negative durations have no unsigned Duration");
    }
    kh::reach("to duration");
}
/// `at` is the last step not after neg/total
fn truncated<U: Unit>(r: U::Representation, neg: bool, total: u128) -> bool {
    let (rneg, at) = steps::<U>(r);
    if neg {
        (rneg || at == 0) && at >= total && at - total < U::NANOS as u128
    } else {
        !rneg && at <= total && total - at < U::NANOS as u128
    }
}
/// neg/total is beyond the representable steps (the least one may be refused)
fn outside<U: Unit>(neg: bool, total: u128) -> bool {
    let max = (U::RANGE.1 as u128 + 1) * U::NANOS as u128;
    if neg {
        total > max - U::NANOS as u128
    } else {
        total >= max
    }
}
/// duration -> representation truncates towards minus infinity
fn from_duration<U: Unit>() {
    let d = duration("d");
    let neg = kh::boolean();
    let s = if neg { SignedDuration::Negative(d) } else { SignedDuration::Positive(d) };
    match LimitedResolutionDuration::<U>::try_from(s) {
        Ok(l) => {
            kh::check(truncated::<U>(l.representation(), neg, nanos(d)), "the converted duration is the last step not after the original");
            kh::reach("from duration");
        }
        Err(_) => kh::check(outside::<U>(neg, nanos(d)), "only durations outside of the range are refused"),
    }
}
fn keys<U: Unit>()
where
    U::Representation: Debug,
{
    let (a, b) = (LimitedResolutionDuration::<U>::new(U::sym("a")), LimitedResolutionDuration::<U>::new(U::sym("b")));
    kh::check(a.cmp(&b) == U::to_i64(a.representation()).cmp(&U::to_i64(b.representation())), "limited-resolution durations order by their value");
    roundtrip(&a, &b, "limited-resolution key: order and round trip");
}
macro_rules! units {
    ($m:ident) => {
        match kh::choose(8) {
            0 => $m!(Nanoseconds),
            1 => $m!(Microseconds),
            2 => $m!(Milliseconds),
            3 => $m!(Seconds),
            4 => $m!(Minutes),
            5 => $m!(Hours),
            6 => $m!(Days),
            _ => $m!(Weeks),
        }
    };
}
macro_rules! each {
    ($f:ident) => {
        match kh::choose(8) {
            0 => $f::<Nanoseconds>(),
            1 => $f::<Microseconds>(),
            2 => $f::<Milliseconds>(),
            3 => $f::<Seconds>(),
            4 => $f::<Minutes>(),
            5 => $f::<Hours>(),
            6 => $f::<Days>(),
            _ => $f::<Weeks>(),
        }
    };
}
#[no_mangle]
pub extern "C" fn k06_to_duration() {
    each!(to_duration)
}
#[no_mangle]
pub extern "C" fn k06_from_duration() {
    each!(from_duration)
}
#[no_mangle]
pub extern "C" fn k06_limited_keys() {
    each!(keys)
}
/// timestamps: SystemTime -> timestamp -> SystemTime truncates to the step
fn timestamp<U: Unit, E: TimeEpoch>() {
    let d = duration("t");
    let before = kh::boolean();
    let epoch = E::epoch_offset();
    let t = if before { UNIX_EPOCH.checked_sub(d) } else { UNIX_EPOCH.checked_add(d) };
    let Some(t) = t else { return };
    let (n, e) = (nanos(d), nanos(epoch));
    // relative to the epoch
    let (neg, total) = if before { (true, n + e) } else if n < e { (true, e - n) } else { (false, n - e) };
    match LimitedResolutionTimestamp::<U, E>::try_from(t) {
        Ok(l) => {
            kh::check(truncated::<U>(l.representation(), neg, total), "a timestamp is its time truncated to the resolution");
            kh::reach("timestamp");
        }
        Err(_) => kh::check(outside::<U>(neg, total), "only times outside of the range are refused"),
    }
}
/// timestamp -> SystemTime and duration since the unix epoch are exact
fn timestamp_back<U: Unit, E: TimeEpoch>() {
    let l = LimitedResolutionTimestamp::<U, E>::from_representation(U::sym("r"));
    let (neg, at) = steps::<U>(l.representation());
    kh::assume(U::to_i64(l.representation()).unsigned_abs() >> kh::param(4) == 0);
    let e = nanos(E::epoch_offset());
    // relative to the unix epoch
    let (neg, at) = if !neg { (false, e + at) } else if at > e { (true, at - e) } else { (false, e - at) };
    match SystemTime::try_from(l) {
        Ok(t) => match t.duration_since(UNIX_EPOCH) {
            Ok(d) => kh::check((!neg || at == 0) && nanos(d) == at, "a timestamp converts to its exact time"),
            Err(x) => kh::check((neg || at == 0) && nanos(x.duration()) == at, "a timestamp before 1970 converts to its exact time"),
        },
        Err(_) => kh::check(at >= (1 << 62) * 1_000_000_000, "a timestamp of a representable time converts"),
    }
    match l.duration_since_unix_epoch() {
        Ok(d) => kh::check((!neg || at == 0) && nanos(d) == at, "duration since the unix epoch is exact"),
        Err(_) => kh::check(neg, "only times before the unix epoch have no duration since it"),
    }
    kh::reach("timestamp back");
}
#[no_mangle]
pub extern "C" fn k06_timestamp() {
    if kh::boolean() {
        macro_rules! f { ($u:ident) => { timestamp::<$u, UnixEpoch>() }; }
        units!(f)
    } else {
        macro_rules! f { ($u:ident) => { timestamp::<$u, BonsaiEpoch>() }; }
        units!(f)
    }
}
#[no_mangle]
pub extern "C" fn k06_timestamp_back() {
    if kh::boolean() {
        macro_rules! f { ($u:ident) => { timestamp_back::<$u, UnixEpoch>() }; }
        units!(f)
    } else {
        macro_rules! f { ($u:ident) => { timestamp_back::<$u, BonsaiEpoch>() }; }
        units!(f)
    }
}
/// text: whatever a timestamp displays as parses to the same timestamp
fn text<U: Unit, E: TimeEpoch>(lo: i64, span: u16, mk: impl Fn(i64) -> U::Representation) {
    let off = kh::u16("r");
    kh::assume(off < span);
    let r = lo + i64::from(off);
    let t = LimitedResolutionTimestamp::<U, E>::from_representation(mk(r));
    if let Ok(s) = t.to_timestamp_string() {
        let back = s.parse::<LimitedResolutionTimestamp<U, E>>();
        kh::check(matches!(&back, Ok(x) if *x == t), "a displayed timestamp parses to itself");
        kh::reach("text");
    }
}
#[no_mangle]
pub extern "C" fn k06_text() {
    let w = kh::param(1) as u16;
    let e = 1_931_747_507i64;
    match kh::choose(9) {
        0 => text::<Nanoseconds, UnixEpoch>(0, w, |r| r),
        1 => text::<Nanoseconds, UnixEpoch>(1_999_999_900, w, |r| r),
        2 => text::<Nanoseconds, BonsaiEpoch>(-30, w, |r| r),
        3 => text::<Microseconds, BonsaiEpoch>(-30, w, |r| r),
        4 => text::<Milliseconds, BonsaiEpoch>(-30, w, |r| r),
        5 => text::<Milliseconds, UnixEpoch>(99_980, w, |r| r),
        6 => text::<Seconds, BonsaiEpoch>(-e, w, |r| r),
        7 => text::<Minutes, UnixEpoch>(0, w, |r| r as i32),
        _ => text::<Weeks, UnixEpoch>(0, w, |r| r as i32),
    }
}
/// parsing any short text never panics, and digits mean what they say
#[no_mangle]
pub extern "C" fn k06_parse() {
    let s = kh::ascii("text", 0, kh::param(2));
    let r = s.parse::<LimitedResolutionTimestamp<Nanoseconds, UnixEpoch>>();
    let b = s.as_bytes();
    if let Some(dot) = b.iter().position(|c| *c == b'.') {
        let (x, y) = (&b[..dot], &b[dot + 1..]);
        if !x.is_empty() && !y.is_empty() && y.len() <= 9 && x.iter().chain(y).all(u8::is_ascii_digit) {
            let mut v = 0i64;
            for c in x {
                v = v * 10 + i64::from(c - b'0');
            }
            for i in 0..9 {
                v = v * 10 + y.get(i).map_or(0, |c| i64::from(c - b'0'));
            }
            kh::check(matches!(r, Ok(t) if t.representation() == v), "a decimal timestamp parses to its value");
            kh::reach("decimal");
        } else {
            kh::check(true, "parser returns");
        }
    } else {
        kh::check(true, "parser returns");
    }
}
#[no_mangle]
pub extern "C" fn k06_sum() {
    let (a, b) = (kh::i64("a"), kh::i64("b"));
    let s = [LimitedResolutionDuration::<Nanoseconds>::new(a), LimitedResolutionDuration::new(b)].into_iter().sum::<Option<LimitedResolutionDuration<Nanoseconds>>>();
    match a.checked_add(b) {
        Some(v) => kh::check(matches!(s, Some(x) if x.representation() == v), "a sum of durations is their exact sum"),
        None => kh::check(s.is_none(), "an unrepresentable sum is None"),
    }
    kh::reach("sum");
}
