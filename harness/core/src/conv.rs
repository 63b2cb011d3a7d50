//! Document ids, numerics, timestamps, names, ranges.
use crate::kh;
use arc_bytes::serde::Bytes;
use bonsaidb_core::arc_bytes;
use bonsaidb_core::connection::{Bound, Range};
use bonsaidb_core::document::DocumentId;
use bonsaidb_core::key::*;
use bonsaidb_core::keyvalue::{Numeric, Timestamp, Value};
use bonsaidb_core::schema::{Authority, CollectionName, Name, Qualified, QualifiedName, SchemaName, ViewName};
use serde::de::value::{BytesDeserializer, Error as ValueError};
use serde::Deserialize;
use std::ops::RangeBounds;
use std::str::FromStr;
use std::time::Duration;

// ----------------------------------------------------------------- K07 ids
#[no_mangle]
pub extern "C" fn k07_text() {
    let b = kh::vec("id", 0, kh::param(0));
    let id = DocumentId::try_from(&b[..]).expect("short id");
    kh::check(*id == b[..], "a document id holds its bytes");
    let s = id.to_string();
    let back = DocumentId::from_str(&s);
    kh::check(matches!(&back, Ok(x) if *x == id), "a displayed document id parses to itself");
    kh::reach("text");
}
#[no_mangle]
pub extern "C" fn k07_parse() {
    let s = kh::ascii("text", 0, kh::param(1));
    match DocumentId::from_str(&s) {
        Ok(id) => {
            kh::check(id.len() <= DocumentId::MAX_LENGTH, "a parsed id respects the maximum length");
            if !s.contains('$') {
                kh::check(*id == *s.as_bytes(), "text without a $ is the id itself");
            }
            kh::reach("parsed");
        }
        Err(_) => {
            kh::check(s.contains('$'), "text without a $ always parses");
            kh::reach("refused");
        }
    }
}
/// around the maximum length, through every constructor
#[no_mangle]
pub extern "C" fn k07_length() {
    let lens = [0usize, 1, 15, 16, 17, 65534, 65535, 65536, 65537];
    let n = lens[kh::choose(lens.len())];
    let mut b = vec![b'x'; n];
    if n > 0 {
        b[0] = kh::u8("first");
        b[n - 1] = kh::u8("last");
    }
    let ok = n <= 65535;
    let good = |r: Option<DocumentId>, what: &str| match r {
        Some(id) => kh::check(ok && *id == b[..], what),
        None => kh::check(!ok, what),
    };
    match kh::choose(4) {
        0 => good(DocumentId::try_from(&b[..]).ok(), "TryFrom<&[u8]>"),
        1 => good(DocumentId::new::<Vec<u8>, Vec<u8>>(&b).ok(), "DocumentId::new"),
        2 => good(DocumentId::from_ord_bytes(ByteSource::Borrowed(&b)).ok(), "from_ord_bytes"),
        _ => {
            let d: BytesDeserializer<'_, ValueError> = BytesDeserializer::new(&b);
            good(<DocumentId as Deserialize>::deserialize(d).ok(), "serde");
        }
    }
    kh::reach(if ok { "fits" } else { "too long" });
}
#[no_mangle]
pub extern "C" fn k07_order() {
    let (a, b) = (kh::vec("a", 0, kh::param(2)), kh::vec("b", 0, kh::param(2)));
    let (x, y) = (DocumentId::try_from(&a[..]).unwrap(), DocumentId::try_from(&b[..]).unwrap());
    kh::check(x.cmp(&y) == a.cmp(&b), "document ids order bytewise");
    kh::check((x == y) == (a == b), "document ids are equal when their bytes are");
    kh::reach("order");
}
#[no_mangle]
pub extern "C" fn k07_ints() {
    let (a, b) = (kh::u64("a"), kh::u64("b"));
    let (x, y) = (DocumentId::from_u64(a), DocumentId::from_u64(b));
    kh::check(x.cmp(&y) == a.cmp(&b), "u64 ids order as numbers");
    kh::check(matches!(x.deserialize::<u64>(), Ok(v) if v == a), "a u64 id gives its number back");
    kh::check(matches!(DocumentId::new::<u64, u64>(&a), Ok(v) if v == x), "DocumentId::new of a u64 is from_u64");
    let c = kh::u32("c");
    kh::check(matches!(DocumentId::from_u32(c).deserialize::<u32>(), Ok(v) if v == c), "a u32 id gives its number back");
    kh::check(DocumentId::from_u32(c).deserialize::<u64>().is_err(), "a u32 id isn't a u64");
    kh::reach("ints");
}

// ------------------------------------------------------------- K08 numerics
fn f64_of(bits: u64) -> f64 {
    f64::from_bits(bits)
}
/// the integer a finite float denotes, by its bits: None if it has a fraction
/// or isn't below 2^64 in magnitude
fn exact(bits: u64) -> Option<i128> {
    let exp = ((bits >> 52) & 0x7ff) as i64;
    let frac = bits & ((1 << 52) - 1);
    let neg = bits >> 63 == 1;
    if exp == 0x7ff {
        return None;
    }
    if exp == 0 {
        return if frac == 0 { Some(0) } else { None };
    }
    let m = (frac | (1 << 52)) as u128;
    let shift = exp - 1075;
    let v = if shift >= 0 {
        if shift > 11 {
            return None;
        }
        (m << shift) as i128
    } else {
        if shift < -52 {
            return None;
        }
        let s = (-shift) as u32;
        if m & ((1u128 << s) - 1) != 0 {
            return None;
        }
        (m >> s) as i128
    };
    Some(if neg { -v } else { v })
}
#[no_mangle]
pub extern "C" fn k08_exact_float() {
    let bits = kh::u64("bits");
    let n = Numeric::Float(f64_of(bits));
    let e = exact(bits);
    let i = n.as_i64();
    let want = e.and_then(|v| i64::try_from(v).ok());
    kh::check(i == want, "as_i64 of a float is its exact value or None");
    let u = n.as_u64();
    let wantu = e.and_then(|v| u64::try_from(v).ok());
    // negative zero may be refused
    kh::check(u == wantu || (bits == 1 << 63 && u.is_none()), "as_u64 of a float is its exact value or None");
    kh::reach("float");
}
#[no_mangle]
pub extern "C" fn k08_ints() {
    let (i, u) = (kh::i64("i"), kh::u64("u"));
    let (a, b) = (Numeric::Integer(i), Numeric::UnsignedInteger(u));
    kh::check(a.as_i64() == Some(i) && b.as_u64() == Some(u), "integers convert to themselves");
    kh::check(a.as_u64() == u64::try_from(i).ok(), "as_u64 of a signed integer is exact or None");
    kh::check(b.as_i64() == i64::try_from(u).ok(), "as_i64 of an unsigned integer is exact or None");
    kh::check(a.as_i64_lossy(kh::boolean()) == i && b.as_u64_lossy(kh::boolean()) == u, "lossy conversions to the same type are exact");
    kh::check(a.as_u64_lossy(true) == if i < 0 { 0 } else { i as u64 }, "saturating conversion to u64");
    kh::check(b.as_i64_lossy(true) == if u > i64::MAX as u64 { i64::MAX } else { u as i64 }, "saturating conversion to i64");
    kh::check(a.as_u64_lossy(false) == i as u64 && b.as_i64_lossy(false) == u as i64, "wrapping conversions");
    let (va, vb) = (Value::Numeric(a), Value::Numeric(b));
    kh::check(va.as_i64() == Some(i) && va.as_u64() == u64::try_from(i).ok() && vb.as_u64() == Some(u) && vb.as_i64() == i64::try_from(u).ok(), "values convert as their numerics");
    kh::check(va.as_i64_lossy(true) == Some(i) && vb.as_u64_lossy(true) == Some(u), "values convert lossily as their numerics");
    kh::reach("ints");
}
#[no_mangle]
pub extern "C" fn k08_to_float() {
    let fits = |m: u64| {
        // exactly representable: at most 53 significant bits
        let t = if m == 0 { 0 } else { m >> m.trailing_zeros() };
        t >> 53 == 0
    };
    let (n, mag, v) = if kh::boolean() {
        let i = kh::i64("i");
        (Numeric::Integer(i), i.unsigned_abs(), i128::from(i))
    } else {
        let u = kh::u64("u");
        (Numeric::UnsignedInteger(u), u, i128::from(u))
    };
    match n.as_f64() {
        Some(f) => {
            kh::check(fits(mag), "as_f64 gives a value only without losing precision");
            kh::check(exact(f.to_bits()) == Some(v), "as_f64 is the exact value");
            kh::reach("exact");
        }
        None => {
            kh::check(mag > 1 << 53, "every integer up to 2^53 in magnitude has an f64");
            kh::reach("inexact");
        }
    }
}
#[no_mangle]
pub extern "C" fn k08_validate() {
    let bits = kh::u64("bits");
    let nan = (bits >> 52) & 0x7ff == 0x7ff && bits & ((1 << 52) - 1) != 0;
    match Value::Numeric(Numeric::Float(f64_of(bits))).validate() {
        Ok(Value::Numeric(Numeric::Float(f))) => kh::check(!nan && f.to_bits() == bits, "a valid float is kept as it is"),
        Ok(_) => kh::check(false, "validation keeps the value"),
        Err(_) => kh::check(nan, "only NaN is refused"),
    }
    let b = kh::vec("b", 0, 3);
    kh::check(matches!(Value::Bytes(Bytes::from(b.clone())).validate(), Ok(Value::Bytes(x)) if x[..] == b[..]), "bytes are always valid");
    kh::reach("validate");
}
fn ts(n: &str) -> Timestamp {
    let seconds = kh::u64(n);
    let nanos = kh::u32(n);
    kh::assume(nanos < 1_000_000_000);
    Timestamp { seconds, nanos }
}
#[no_mangle]
pub extern "C" fn k08_timestamp() {
    let a = ts("a");
    match kh::choose(3) {
        0 => {
            let b = ts("b");
            let total = |t: Timestamp| (t.seconds, t.nanos);
            kh::check(a.cmp(&b) == total(a).cmp(&total(b)), "timestamps order by time");
            let (ea, eb) = (a.as_ord_bytes().unwrap().into_owned(), b.as_ord_bytes().unwrap().into_owned());
            kh::check(ea.cmp(&eb) == a.cmp(&b), "timestamp key order");
            kh::check(matches!(Timestamp::from_ord_bytes(ByteSource::Owned(ea)), Ok(t) if t == a), "timestamp key round trip");
            kh::reach("order");
        }
        1 => {
            let b = ts("b");
            match a - b {
                Some(d) => {
                    kh::check(a >= b, "a difference exists only forwards");
                    kh::check(b + d == a, "the difference added back gives the timestamp");
                }
                None => kh::check(a < b, "a difference exists whenever the left isn't earlier"),
            }
            kh::reach("sub");
        }
        _ => {
            let (s, n) = (kh::u64("d"), kh::u32("d"));
            kh::assume(n < 1_000_000_000);
            let t = a + Duration::new(s, n);
            kh::check(t.nanos < 1_000_000_000, "a sum has less than a second of nanoseconds");
            let nn = a.nanos + n;
            let carry = u64::from(nn >= 1_000_000_000);
            if let Some(sec) = a.seconds.checked_add(s).and_then(|x| x.checked_add(carry)) {
                kh::check(t.seconds == sec && u64::from(t.nanos) + carry * 1_000_000_000 == u64::from(nn), "a sum is exact");
                kh::reach("add");
            } else {
                kh::check(t.seconds == u64::MAX, "an overflowing sum saturates");
                kh::reach("saturate");
            }
        }
    }
}

// ---------------------------------------------------------------- K09 names
fn clean(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
}
/// any UTF-8 text of up to n characters
fn text(name: &str, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..kh::choose(n + 1) {
        let c = kh::u32(name);
        kh::assume(c < 0x110000);
        kh::assume(!(0xd800..0xe000).contains(&c));
        s.push(char::from_u32(c).unwrap());
    }
    s
}
#[no_mangle]
pub extern "C" fn k09_name() {
    let s = text("name", kh::param(0));
    let n = Name::from(s.clone());
    let e = n.encoded();
    kh::check(clean(&e), "an encoded name has only alphanumerics, _ and -");
    kh::check(matches!(Name::parse_encoded(&e), Ok(x) if x == n && x.as_ref() == s), "an encoded name parses to itself");
    kh::check(n.to_string() == s, "a name displays as it is");
    kh::reach("name");
}
#[no_mangle]
pub extern "C" fn k09_injective() {
    let (a, b) = (kh::ascii("a", 0, kh::param(1)), kh::ascii("b", 0, kh::param(1)));
    let (x, y) = (Name::from(a.clone()), Name::from(b.clone()));
    kh::check((x.encoded() == y.encoded()) == (a == b), "different names never encode alike");
    kh::reach("injective");
}
#[no_mangle]
pub extern "C" fn k09_parse() {
    let s = kh::ascii("text", 0, kh::param(2));
    match Name::parse_encoded(&s) {
        Ok(n) => {
            // whatever parses encodes to something that parses to the same name
            kh::check(matches!(Name::parse_encoded(&n.encoded()), Ok(x) if x == n), "a parsed name survives encoding");
            kh::reach("parsed");
        }
        Err(_) => {
            kh::check(s.contains('_'), "only escape sequences can be invalid");
            kh::reach("refused");
        }
    }
    kh::check(QualifiedName::parse_encoded(&s).is_err() || s.matches('.').count() == 1, "a qualified name has exactly one period");
}
#[no_mangle]
pub extern "C" fn k09_qualified() {
    let (a, n, v) = (kh::ascii("authority", 0, kh::param(1)), kh::ascii("name", 0, kh::param(1)), kh::ascii("view", 0, 1));
    match kh::choose(3) {
        0 => {
            let q = SchemaName::new(Authority::from(a), Name::from(n));
            let e = q.encoded();
            kh::check(e.matches('.').count() == 1 && e.split('.').all(clean), "an encoded schema name is two clean parts");
            kh::check(matches!(SchemaName::parse_encoded(&e), Ok(x) if x == q), "an encoded schema name parses to itself");
        }
        1 => {
            let q = CollectionName::new(Authority::from(a), Name::from(n));
            kh::check(matches!(CollectionName::from_str(&q.encoded()), Ok(x) if x == q), "an encoded collection name parses to itself");
        }
        _ => {
            let q = ViewName { collection: CollectionName::new(Authority::from(a), Name::from(n)), name: Name::from(v) };
            let e = format!("{q:#}");
            kh::check(e.matches('.').count() == 2 && e.split('.').all(clean), "an encoded view name is three clean parts");
            kh::check(matches!(ViewName::from_str(&e), Ok(x) if x == q), "an encoded view name parses to itself");
        }
    }
    kh::reach("qualified");
}

// --------------------------------------------------------------- K10 ranges
fn bound(n: &str) -> Bound<u16> {
    match kh::choose(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(kh::u16(n)),
        _ => Bound::Excluded(kh::u16(n)),
    }
}
fn within(r: &Range<u16>, x: u16) -> bool {
    (match r.start {
        Bound::Unbounded => true,
        Bound::Included(a) => a <= x,
        Bound::Excluded(a) => a < x,
    }) && (match r.end {
        Bound::Unbounded => true,
        Bound::Included(a) => x <= a,
        Bound::Excluded(a) => x < a,
    })
}
#[no_mangle]
pub extern "C" fn k10_range() {
    let x = kh::u16("x");
    let r = Range { start: bound("start"), end: bound("end") };
    kh::check(r.contains(&x) == within(&r, x), "a range contains exactly the values its bounds allow");
    // through encoded bytes and back
    let e = r.clone().map(|v| Bytes::from(v.as_ord_bytes().unwrap().to_vec()));
    match e.deserialize::<u16>() {
        Ok(back) => kh::check(back == r, "an encoded range decodes to itself"),
        Err(_) => kh::check(false, "an encoded range decodes"),
    }
    let m = r.clone().map_result(|v| Ok::<_, ()>(u32::from(v) + 1)).unwrap();
    kh::check(m.contains(&(u32::from(x) + 1)) == within(&r, x), "map_result maps both bounds in place");
    let m = r.map_ref(|v| v);
    let (s, t): (std::ops::Bound<&u16>, std::ops::Bound<&u16>) = (m.start.into(), m.end.into());
    kh::check((s, t).contains(&x) == within(&r, x), "map_ref keeps both bounds in place");
    kh::reach("range");
}
#[no_mangle]
pub extern "C" fn k10_builders() {
    let (a, b, x) = (kh::u16("a"), kh::u16("b"), kh::u16("x"));
    let (r, want) = match kh::choose(16) {
        0 => (Range::default().after(a), x > a),
        1 => (Range::default().start_at(a), x >= a),
        2 => (Range::default().before(b), x < b),
        3 => (Range::default().end_at(b), x <= b),
        4 => (Range::default().after(a).before(b), x > a && x < b),
        5 => (Range::default().before(b).start_at(a), x >= a && x < b),
        6 => (Range::default().end_at(b).after(a), x > a && x <= b),
        7 => (Range::default().start_at(b).start_at(a).end_at(b), x >= a && x <= b),
        8 => (Range::from(a..b), x >= a && x < b),
        9 => (Range::from(a..=b), x >= a && x <= b),
        10 => (Range::from(a..), x >= a),
        11 => (Range::from(..b), x < b),
        12 => (Range::from(..=b), x <= b),
        13 => (Range::from(..), true),
        14 => {
            let rr = bonsaidb_core::connection::RangeRef::<'_, u16>::from(a..=b);
            match rr.as_ord_bytes().unwrap().deserialize::<u16>() {
                Ok(r) => (r, x >= a && x <= b),
                Err(_) => return kh::check(false, "decodes"),
            }
        }
        _ => {
            let rr = bonsaidb_core::connection::RangeRef::<'_, u16>::from(a..b);
            match rr.as_ord_bytes().unwrap().deserialize::<u16>() {
                Ok(r) => (r, x >= a && x < b),
                Err(_) => return kh::check(false, "decodes"),
            }
        }
    };
    kh::check(r.contains(&x) == want, "a built range contains exactly what was asked for");
    kh::reach("built");
}
