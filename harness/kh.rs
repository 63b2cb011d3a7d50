//! Harness intrinsics.  Under the symbolic executor these are modelled by the
//! engine; natively they are provided by /verif/engine/runner.c, which feeds
//! the bytes of a recorded counterexample.
#![allow(dead_code)]

extern "C" {
    fn kh_sym(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn kh_choose(n: u64) -> u64;
    fn kh_assume(c: u8);
    fn kh_check(c: u8, msg: *const u8, ml: usize);
    fn kh_check_known(c: u8, msg: *const u8, ml: usize, k: *const u8, kl: usize);
    fn kh_region(k: *const u8, kl: usize);
    fn kh_reach(l: *const u8, ll: usize);
    fn kh_param(i: u64) -> u64;
    fn kh_print(p: *const u8, n: usize);
    fn kh_clock_set(sec: u64, nsec: u64);
    fn kh_clock_auto();
    fn kh_clock_advance(ns: u64);
    fn kh_schedules(n: u64);
    fn kh_settle() -> u64;
    fn kh_sleep(ns: u64);
    fn kh_skip();
    fn kh_fork_all(p: *mut u8, n: usize);
    fn kh_and(a: u8, b: u8) -> u8;
    fn kh_or(a: u8, b: u8) -> u8;
    fn kh_is_sym(a: u64) -> u64;
    fn kh_crash_run(f: extern "C" fn(*mut u8), data: *mut u8) -> u64;
    fn kh_crash_end();
    fn kh_crash_hold(h: u8);
    fn kh_ack();
    fn kh_acks() -> u64;
    fn kh_torn() -> u64;
}

macro_rules! ints {
    ($($f:ident $t:ty),*) => {$(
        #[inline(never)]
        pub fn $f(name: &str) -> $t {
            let mut v: $t = 0;
            unsafe { kh_sym((&mut v as *mut $t).cast(), std::mem::size_of::<$t>(), name.as_ptr(), name.len()) };
            v
        }
    )*};
}
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 i8, i16 i16, i32 i32, i64 i64, i128 i128, usize usize, isize isize);

pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { kh_sym(v.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    v
}
/// a byte vector of symbolic contents and of every length in lo..=hi
pub fn vec(name: &str, lo: usize, hi: usize) -> Vec<u8> {
    let n = lo + choose(hi - lo + 1);
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { kh_sym(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    }
    v
}
/// an ASCII string (symbolic bytes < 0x80)
pub fn ascii(name: &str, lo: usize, hi: usize) -> String {
    let v = vec(name, lo, hi);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// one of 0..n; the executor explores every value
#[inline(never)]
pub fn choose(n: usize) -> usize {
    unsafe { kh_choose(n as u64) as usize }
}
pub fn boolean() -> bool {
    choose(2) == 1
}
#[inline(never)]
pub fn sym_bool(name: &str) -> bool {
    u8(name) & 1 == 1
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { kh_assume(c as u8) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { kh_check(c as u8, msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn check_known(c: bool, msg: &str, known: &str) {
    unsafe { kh_check_known(c as u8, msg.as_ptr(), msg.len(), known.as_ptr(), known.len()) }
}
/// everything reported while the region is non-empty carries its name
pub fn region(k: &str) {
    unsafe { kh_region(k.as_ptr(), k.len()) }
}
#[inline(never)]
pub fn reach(l: &str) {
    unsafe { kh_reach(l.as_ptr(), l.len()) }
}
pub fn param(i: usize) -> usize {
    unsafe { kh_param(i as u64) as usize }
}
pub fn print(s: &str) {
    unsafe { kh_print(s.as_ptr(), s.len()) }
}
pub fn clock_set(sec: u64, nsec: u32) {
    unsafe { kh_clock_set(sec, nsec as u64) }
}
pub fn clock_auto() {
    unsafe { kh_clock_auto() }
}
pub fn clock_advance(ns: u64) {
    unsafe { kh_clock_advance(ns) }
}
/// from now on, the schedule may deviate `n` times from round robin: another
/// runnable thread continues where one blocks or wakes another
pub fn schedules(n: u64) {
    unsafe { kh_schedules(n) }
}
/// let every other thread run until all of them block
pub fn settle() {
    while unsafe { kh_settle() } != 0 {}
}
pub fn sleep(ns: u64) {
    unsafe { kh_sleep(ns) }
}
pub fn skip() -> ! {
    unsafe { kh_skip() };
    loop {}
}
/// case-split every symbolic byte of the slice
pub fn fork_all(v: &mut [u8]) {
    unsafe { kh_fork_all(v.as_mut_ptr(), v.len()) }
}
/// non-branching conjunction / disjunction
pub fn and(a: bool, b: bool) -> bool {
    unsafe { kh_and(a as u8, b as u8) & 1 == 1 }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { kh_or(a as u8, b as u8) & 1 == 1 }
}

extern "C" fn crash_body<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { (*p.cast::<Option<F>>()).take().unwrap() };
    f();
    unsafe { kh_crash_end() };
}
/// runs `f`, which may be cut short at any of its changes to the files (with
/// everything written so far kept, a write half done, or unsynced writes
/// lost): true when it was.  `f` must close what it opens, and may not take
/// inputs.
pub fn crash_run<F: FnOnce()>(f: F) -> bool {
    let mut f = std::mem::ManuallyDrop::new(Some(f));
    unsafe { kh_crash_run(crash_body::<F>, (&mut *f as *mut Option<F>).cast()) != 0 }
}
/// within [`crash_run`]: one more step was acknowledged
pub fn ack() {
    unsafe { kh_ack() }
}
/// how many steps were acknowledged before the crash
pub fn acks() -> usize {
    unsafe { kh_acks() as usize }
}
/// the crash left a write of one of the store's own files (trees and logs)
/// half done: the length of that file before it
pub fn torn_store() -> Option<u64> {
    let t = unsafe { kh_torn() };
    if t >> 63 == 0 { t.checked_sub(1) } else { None }
}
/// within [`crash_run`]: until called with false, no crash happens
pub fn no_crash(h: bool) {
    unsafe { kh_crash_hold(h as u8) }
}
