//! P02: overlap resolution.
use super::common::*;
use super::p02ref::*;
use super::sym;
use dd_sds::*;

fn matches(n: usize, nm: usize, nr: usize) -> Vec<M> {
    let mut ms: Vec<M> = vec![];
    for _ in 0..nm {
        let r = sym::choose("rule", nr);
        let s = sym::below("s", n);
        let e = sym::below("e", n + 1);
        sym::assume(s < e);
        ms.push((r, s, e));
    }
    ms
}
fn scanner(acts: &[MatchAction], ms: &[M]) -> Scanner {
    let rules: Vec<_> = (0..acts.len())
        .map(|r| emit_rule(acts[r].clone(), Scope::all(), ms.iter().filter(|m| m.0 == r).map(|m| (m.1, m.2)).collect()))
        .collect();
    ScannerBuilder::new(&rules).build().unwrap()
}
/// params: content bytes, matches, rules. Any mixture of mutating and non-mutating rules.
pub fn p02_overlap() {
    let n = sym::param(0);
    let nm = sym::param(1);
    let nr = sym::param(2);
    let mut acts = vec![];
    for i in 0..nr {
        acts.push(if sym::flag("mut") { redact(["A", "B", "C"][i]) } else { MatchAction::None });
    }
    let ms = matches(n, nm, nr);
    let scanner = scanner(&acts, &ms);
    let text = "0123456789"[..n].to_string();
    let kept = overlap_reference(&acts, &ms);
    let want = expect_apply(&text, &kept, &acts, blen);
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    check_outcome(&got, &ev, &want, &acts, 1);
    sym::cover_if(got.len() == nm, 1);
    sym::cover_if(got.len() < nm, 2);
    sym::cover(3);
}
/// Report-only rules: positions range over a 200-byte string and are never case split.
/// params: matches, rules
pub fn p02_wide() {
    let nm = sym::param(0);
    let nr = sym::param(1);
    let acts = vec![MatchAction::None; nr];
    let ms = matches(200, nm, nr);
    let scanner = scanner(&acts, &ms);
    let kept = overlap_reference(&acts, &ms);
    let mut ev = "x".repeat(200);
    let got = scanner.scan(&mut ev, vec![]);
    sym::check(got.len() == kept.len(), 1);
    for (g, w) in got.iter().zip(kept.iter()) {
        sym::check(g.rule_index == w.0, 2);
        sym::check(g.start_index == w.1, 3);
        sym::check(g.end_index_exclusive == w.2, 4);
        sym::check(g.shift_offset == 0, 5);
    }
    sym::check(ev.len() == 200, 6);
    sym::cover_if(got.len() == nm, 1);
    sym::cover_if(got.len() == 1, 2);
}
/// Many matches: `k` fixed redacted blocks, plus one arbitrary match of a report-only rule and one
/// arbitrary match of a rule that may be mutating. params: fixed blocks
pub fn p02_many() {
    let k = sym::param(0);
    let n = 3 * k;
    let acts = vec![redact("AB"), MatchAction::None, if sym::flag("mut") { redact("") } else { MatchAction::None }];
    let mut ms: Vec<M> = (0..k).map(|i| (0, 3 * i, 3 * i + 2)).collect();
    ms.reverse();
    for r in 1..3 {
        let s = sym::below("s", n);
        let e = sym::below("e", n + 1);
        sym::assume(s < e);
        ms.push((r, s, e));
    }
    let scanner = scanner(&acts, &ms);
    let kept = overlap_reference(&acts, &ms);
    let text = "0123456789abcdefghijklmnopqrstuvwxyz"[..n].to_string();
    let want = expect_apply(&text, &kept, &acts, blen);
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    check_outcome(&got, &ev, &want, &acts, 1);
    sym::cover_if(got.len() > k, 1);
    sym::cover_if(got.len() < k, 2);
}
