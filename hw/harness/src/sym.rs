//! Interface to the symbolic executor (and, natively, to the replay driver).
extern "C" {
    fn __sym_make(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_cover(id: u32);
    fn __sym_conc(x: u64) -> u64;
    fn __sym_clock(secs: u64, nanos: u64);
    fn __sym_log(x: u64);
    fn __sym_param(i: u32) -> u64;
    fn __sym_live() -> u64;
}
/// Heap blocks in use.
pub fn live() -> u64 {
    unsafe { __sym_live() }
}
/// Fill a buffer with unconstrained symbolic bytes.
pub fn fill(b: &mut [u8], name: &str) {
    unsafe { __sym_make(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
pub fn u8(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b, name);
    b[0]
}
pub fn u16(name: &str) -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn u32(name: &str) -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b, name);
    u64::from_le_bytes(b)
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: u32) {
    unsafe { __sym_assert(c, id) }
}
pub fn cover(id: u32) {
    unsafe { __sym_cover(id) }
}
/// cover only when the condition holds on this path
pub fn cover_if(c: bool, id: u32) {
    if c {
        unsafe { __sym_cover(id) }
    }
}
/// Case split: the result is concrete on every path.
pub fn conc(x: usize) -> usize {
    unsafe { __sym_conc(x as u64) as usize }
}
pub fn clock(secs: u64, nanos: u64) {
    unsafe { __sym_clock(secs, nanos) }
}
pub fn log(x: u64) {
    unsafe { __sym_log(x) }
}
/// Bound taken from the check's configuration (quick / thorough).
pub fn param(i: u32) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// Symbolic bool, case split.
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// Symbolic number in 0..n, case split.
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = u8(name);
    assume((b as usize) < n);
    conc(b as usize)
}
/// Symbolic number in 0..n, not split.
pub fn below(name: &str, n: usize) -> usize {
    let b = u8(name);
    assume((b as usize) < n);
    b as usize
}
/// n symbolic ASCII bytes (0..=0x7f)
pub fn ascii(n: usize, name: &str) -> String {
    let v = bytes(n, name);
    let mut ok = true;
    for b in &v {
        ok &= *b < 0x80;
    }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// n symbolic ASCII bytes drawn from a byte set
pub fn ascii_of(n: usize, name: &str, f: impl Fn(u8) -> bool) -> String {
    let v = bytes(n, name);
    for b in &v {
        assume((*b < 0x80) & f(*b));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// One symbolic character of the given UTF-8 width (1..=4); every scalar value of that width.
pub fn push_char(s: &mut String, width: usize, name: &str) {
    let b = bytes(width, name);
    let cont = |x: u8| (x & 0xc0) == 0x80;
    let ok = match width {
        1 => b[0] < 0x80,
        2 => (b[0] >= 0xc2) & (b[0] <= 0xdf) & cont(b[1]),
        3 => {
            (b[0] >= 0xe0)
                & (b[0] <= 0xef)
                & cont(b[1])
                & cont(b[2])
                & ((b[0] != 0xe0) | (b[1] >= 0xa0))
                & ((b[0] != 0xed) | (b[1] <= 0x9f))
        }
        _ => {
            (b[0] >= 0xf0)
                & (b[0] <= 0xf4)
                & cont(b[1])
                & cont(b[2])
                & cont(b[3])
                & ((b[0] != 0xf0) | (b[1] >= 0x90))
                & ((b[0] != 0xf4) | (b[1] <= 0x8f))
        }
    };
    assume(ok);
    unsafe { s.as_mut_vec().extend_from_slice(&b) }
}
/// n symbolic characters, each of a case-split width in 1..=maxw
pub fn text(n: usize, maxw: usize, name: &str) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let w = 1 + choose("width", maxw);
        push_char(&mut s, w, name);
    }
    s
}
/// Byte equality as one assertion condition.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
