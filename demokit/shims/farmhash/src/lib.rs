//! Stand-in for the git-only `farmhash` fork (unreachable offline).
//! It is an uninterpreted-style fingerprint: deterministic, depends on every byte and on the length.
pub fn fingerprint64(s: &[u8]) -> u64 {
    let mut h: u64 = s.len() as u64;
    for b in s {
        h = h.rotate_left(9) ^ (*b as u64);
    }
    h
}
