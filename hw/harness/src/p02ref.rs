//! Reference overlap resolution.
use super::common::*;
use dd_sds::*;

pub type M = (usize, usize, usize);
fn key(acts: &[MatchAction], m: &M) -> (bool, usize, usize, usize) {
    (!mutating(&acts[m.0]), m.1, usize::MAX - (m.2 - m.1), m.0)
}
/// Reference: repeatedly take the highest-priority remaining match (mutating first, then earliest
/// start, then longest, then lowest rule index) and keep it iff it overlaps nothing kept so far.
pub fn overlap_reference(acts: &[MatchAction], ms: &[M]) -> Vec<M> {
    let mut kept: Vec<M> = vec![];
    let mut left = ms.to_vec();
    while !left.is_empty() {
        let mut best = 0;
        for i in 1..left.len() {
            if key(acts, &left[i]) < key(acts, &left[best]) {
                best = i;
            }
        }
        let m = left.remove(best);
        if kept.iter().all(|k| k.2 <= m.1 || m.2 <= k.1) {
            kept.push(m);
        }
    }
    // report in start order
    let mut out: Vec<M> = vec![];
    for m in kept {
        let mut i = 0;
        while i < out.len() && out[i].1 <= m.1 {
            i += 1;
        }
        out.insert(i, m);
    }
    out
}
