//! P13: rules of one scanner do not influence each other, except through overlap resolution.
//! The scan with all rules is compared with one scan per rule (each in a scanner of its own),
//! combined by the documented overlap rules.
use super::common::*;
use super::kw::*;
use super::p02ref::*;
use super::sym;
use dd_sds::*;
use std::borrow::Cow;
use std::collections::BTreeMap;

fn f(s: &str) -> PathSegment<'static> {
    PathSegment::Field(Cow::Owned(s.to_string()))
}
fn only(s: &str) -> Scope {
    Scope::include(vec![Path::from(vec![f(s)])])
}
fn rules(set: usize) -> Vec<RegexRuleConfig> {
    let r = RegexRuleConfig::new;
    match set {
        // different patterns over the same text
        0 => vec![r("[0-9]+").match_action(redact("##")), r("x[0-9]"), r("[a-z]+[0-9]?").match_action(partial(false, 1))],
        // one pattern several times
        1 => vec![r("[0-9]"), r("[0-9]").match_action(redact("")), r("[0-9]").scope(only("b"))],
        // with and without included keywords
        2 => vec![
            r("[0-9]").proximity_keywords(keywords(3, &["k"], &[])),
            r("[0-9]").match_action(redact("#")).proximity_keywords(keywords(2, &["x"], &[])),
            r("[0-9]y").proximity_keywords(keywords(3, &["k", "x"], &[])),
        ],
        // with and without excluded keywords
        3 => vec![
            r("[0-9]").proximity_keywords(keywords(3, &[], &["k"])).match_action(redact("#")),
            r("[0-9]y?"),
            r("y").proximity_keywords(keywords(2, &[], &["x"])),
        ],
        // with and without a validator
        4 => vec![
            r("[0-9]{2,3}").validator(SecondaryValidator::LuhnChecksum).match_action(redact("<>")),
            r("[0-9]{2}"),
            r("[0-9]{3}").validator(SecondaryValidator::NhsCheckDigit),
        ],
        // different fields
        5 => vec![
            r("[0-9]").scope(only("a")).match_action(redact("##")),
            r("[0-9]x").scope(only("b")),
            r("[x0-9]").scope(Scope::exclude(vec![Path::from(vec![f("a")])])).match_action(partial(true, 1)),
        ],
        // anchors and context
        _ => vec![r(r"^[0-9]").match_action(redact("")), r(r"\b[0-9]"), r(r"[0-9]$").match_action(redact("##")), r(r"x\B[0-9x]")],
    }
}
type Hit = (usize, usize, usize);
fn event(strings: &[(&str, String)]) -> SimpleEvent {
    let mut m = BTreeMap::new();
    for (k, s) in strings {
        m.insert(k.to_string(), SimpleEvent::String(s.clone()));
    }
    SimpleEvent::Map(m)
}
/// params: rule set, characters of field a, of field b, blocked rules (0: none, 1: any one,
/// 2: any two in any order, 3: also repeated and unknown ones)
pub fn p13_rules() {
    let (set, na, nb, bl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let rs = rules(set);
    let n = rs.len();
    let mut strings = vec![("a", sym::ascii(na, "a"))];
    if nb > 0 {
        strings.push(("b", sym::ascii(nb, "b")));
    }
    let blocked: Vec<usize> = match bl {
        1 => vec![sym::choose("blocked", n)],
        2 => vec![sym::choose("blocked", n), sym::choose("blocked2", n)],
        3 => vec![n - 1, [0, n - 1, n, usize::MAX][sym::choose("blocked2", 4)], sym::choose("blocked", n)],
        _ => vec![],
    };
    let acts: Vec<MatchAction> = rs.iter().map(|r| r.match_action.clone()).collect();
    // created before anything depends on the input
    let single: Vec<Scanner> = rs
        .iter()
        .map(|r| ScannerBuilder::new(&[r.match_action(MatchAction::None).build()]).with_multipass_v0(false).build().unwrap())
        .collect();
    let all: Vec<_> = rs.iter().map(|r| r.build()).collect();
    let together = ScannerBuilder::new(&all).with_multipass_v0(false).build().unwrap();
    // each rule alone, reporting only
    let mut alone: Vec<Vec<Hit>> = strings.iter().map(|_| vec![]).collect();
    for (i, s) in single.iter().enumerate() {
        if blocked.contains(&i) {
            continue;
        }
        let mut ev = event(&strings);
        for m in s.scan(&mut ev, vec![]) {
            for (k, st) in strings.iter().enumerate() {
                if m.path.segments == vec![f(st.0)] {
                    alone[k].push((i, m.start_index, m.end_index_exclusive));
                }
            }
        }
    }
    let mut ev = event(&strings);
    let got = together.scan(&mut ev, blocked);
    let out = match &ev {
        SimpleEvent::Map(m) => m,
        _ => unreachable!(),
    };
    let mut total = 0;
    for (k, (name, text)) in strings.iter().enumerate() {
        let kept = overlap_reference(&acts, &alone[k]);
        let want = expect_apply(text, &kept, &acts, blen);
        match out.get(*name) {
            Some(SimpleEvent::String(t)) => sym::check(sym::same(t.as_bytes(), want.text.as_bytes()), 1),
            _ => sym::check(false, 2),
        }
        let mine: Vec<&RuleMatch> = got.iter().filter(|m| m.path.segments == vec![f(name)]).collect();
        sym::check(mine.len() == want.hits.len(), 3);
        for (g, w) in mine.iter().zip(want.hits.iter()) {
            sym::check(g.rule_index == w.0, 4);
            sym::check((g.start_index == w.1) & (g.end_index_exclusive == w.2), 5);
            sym::check(g.shift_offset == w.3, 6);
            sym::check(g.replacement_type == kind(&acts[w.0]), 7);
        }
        total += mine.len();
        sym::cover_if(kept.len() < alone[k].len(), 3);
    }
    sym::check(got.len() == total, 8);
    sym::cover_if(total > 1, 1);
    sym::cover_if(total == 0, 2);
}
