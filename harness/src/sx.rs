//! Harness side of the engine interface. Symbolically these are intrinsics; natively (`replay`)
//! they read recorded values and raise when an assertion fails.

extern "C-unwind" {
    fn sx_u64() -> u64;
    fn sx_range(lo: u64, hi: u64) -> u64;
    fn sx_fork(v: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, id: u64);
    fn sx_out(p: *const u8, n: usize);
    fn sx_reach(id: u64);
    fn sx_param(i: u64) -> u64;
}

/// Any 64-bit value.
pub fn any_u64() -> u64 {
    unsafe { sx_u64() }
}
/// Any value in `lo..=hi`, kept symbolic.
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { sx_range(lo, hi) }
}
/// Any value in `lo..=hi`, case split (one path per feasible value).
pub fn choose(lo: u64, hi: u64) -> u64 {
    unsafe { sx_fork(sx_range(lo, hi)) }
}
pub fn fork(v: u64) -> u64 {
    unsafe { sx_fork(v) }
}
pub fn byte() -> u8 {
    range(0, 255) as u8
}
pub fn flag() -> bool {
    range(0, 1) == 1
}
pub fn i16_any() -> i16 {
    range(0, 65535) as u16 as i16
}
/// Any `i16` in `lo..=hi`, symbolic.
pub fn i16_in(lo: i16, hi: i16) -> i16 {
    (range(0, (hi as i32 - lo as i32) as u64) as i32 + lo as i32) as i16
}
/// Any Unicode scalar value, symbolic.
pub fn ch() -> char {
    let c = range(0, 0x10ffff) as u32;
    assume(!(0xd800..0xe000).contains(&c));
    unsafe { char::from_u32_unchecked(c) }
}
/// Any char in `lo..=hi`, symbolic.
pub fn ch_in(lo: char, hi: char) -> char {
    let c = range(lo as u64, hi as u64) as u32;
    assume(!(0xd800..0xe000).contains(&c));
    unsafe { char::from_u32_unchecked(c) }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { sx_assert(c, id) }
}
pub fn fail(id: u64) {
    unsafe { sx_assert(false, id) }
}
pub fn out(b: &[u8]) {
    unsafe { sx_out(b.as_ptr(), b.len()) }
}
pub fn out_s(b: &str) {
    out(b.as_bytes())
}
/// Reachability witness.
pub fn reach(id: u64) {
    unsafe { sx_reach(id) }
}
/// Run parameter (bound) `i`.
pub fn param(i: u64) -> u64 {
    unsafe { sx_param(i) }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $(
            $(#[$m])*
            #[no_mangle]
            pub extern "C-unwind" fn $name() $body
        )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// What the code does here is not understood by the harness: no answer rather than a violation.
pub fn unsupported() -> ! {
    reach(900);
    assume(false);
    unreachable!()
}
