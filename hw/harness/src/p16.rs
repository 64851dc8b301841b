//! P16: values seen in excluded fields are false positives elsewhere (multi-pass); blocked rules.
use super::common::*;
use super::kw::*;
use super::sym;
use dd_sds::*;
use std::borrow::Cow;

/// A flat event: one string per single-letter field ('/': at the root), visited in the given order.
struct Flat(Vec<(char, String)>);
fn field(c: char) -> PathSegment<'static> {
    PathSegment::Field(Cow::Owned(c.to_string()))
}
fn same_path(p: &Path, k: char) -> bool {
    if k == '/' {
        p.segments.is_empty()
    } else {
        p.segments.len() == 1 && p.segments[0] == field(k)
    }
}
impl Event for Flat {
    type Encoding = Utf8Encoding;
    fn visit_event<'p>(&'p mut self, v: &mut impl EventVisitor<'p>) {
        for (k, t) in &self.0 {
            if *k == '/' {
                let _ = v.visit_string(t);
                continue;
            }
            v.push_segment(field(*k));
            let _ = v.visit_string(t);
            v.pop_segment();
        }
    }
    fn visit_string_mut(&mut self, p: &Path, mut f: impl FnMut(&mut String) -> bool) {
        for (k, t) in self.0.iter_mut() {
            if same_path(p, *k) {
                f(t);
                return;
            }
        }
        sym::check(false, 90);
    }
}
const PATS: [&str; 4] = ["[0-9]", "[0-9]+", "[a-c]", " ?[0-9]"];
fn class(pat: usize, c: char) -> bool {
    if pat == 2 {
        (c >= 'a') & (c <= 'c')
    } else {
        c.is_ascii_digit()
    }
}
fn matches_of(pat: usize, c: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let s = i;
        if pat == 3 && c[i] == ' ' && i + 1 < c.len() {
            i += 1;
        }
        if !class(pat, c[i]) {
            i = s + 1;
            continue;
        }
        i += 1;
        while pat == 1 && i < c.len() && class(pat, c[i]) {
            i += 1;
        }
        v.push((s, i));
    }
    v
}
/// params: characters per field, fields, pattern of rule 0, pattern of rule 1 (9: only one rule), mode
/// mode bit 0: multi-pass on; bit 1: rule 1 also excludes a field; bit 2: rule 0 may be blocked;
/// bit 3: the first string is at the root of the event
pub fn p16_multipass() {
    let (n, nf, p0, p1, mode) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let on = mode & 1 == 1;
    let two = p1 != 9;
    // which field each rule excludes ('a', 'b' or 'c'); the visiting order is a, b, c
    let name = |i: usize| if mode & 8 == 8 && i == 0 { '/' } else { (b'a' + i as u8) as char };
    let x0 = (b'a' + sym::choose("x0", nf) as u8) as char;
    let x1 = if mode & 2 == 2 { (b'a' + sym::choose("x1", nf) as u8) as char } else { '-' };
    let blocked: Vec<usize> = if mode & 4 == 4 {
        match sym::choose("blocked", 4) {
            0 => vec![],
            1 => vec![0],
            2 => vec![1],
            _ => vec![1, 0],
        }
    } else {
        vec![]
    };
    let acts = [redact("[R]"), MatchAction::None];
    let mut cfg = vec![RegexRuleConfig::new(PATS[p0]).match_action(acts[0].clone()).scope(Scope::exclude(vec![Path::from(vec![field(x0)])])).build()];
    if two {
        cfg.push(RegexRuleConfig::new(PATS[p1]).match_action(acts[1].clone()).scope(Scope::exclude(vec![Path::from(vec![field(x1)])])).build());
    }
    let scanner = ScannerBuilder::new(&cfg).with_multipass_v0(on).build().unwrap();
    let texts: Vec<(char, String)> = (0..nf)
        .map(|i| (name(i), if p0 == 3 { sym::ascii_of(n, "text", |c| (c == b' ') | (c == b'1') | (c == b'2') | (c == b'a')) } else { sym::ascii(n, "text") }))
        .collect();
    let mut ev = Flat(texts.clone());
    let got = scanner.scan(&mut ev, blocked.clone());

    let rules: Vec<(usize, usize, char)> = if two { vec![(0, p0, x0), (1, p1, x1)] } else { vec![(0, p0, x0)] };
    let chars: Vec<Vec<char>> = texts.iter().map(|t| t.1.chars().collect()).collect();
    // values matched in an excluded field, by any rule that is not blocked
    let mut seen: Vec<Vec<char>> = vec![];
    for (r, p, x) in &rules {
        if blocked.contains(r) {
            continue;
        }
        for (i, (k, _)) in texts.iter().enumerate() {
            if k == x {
                for (s, e) in matches_of(*p, &chars[i]) {
                    seen.push(chars[i][s..e].to_vec());
                }
            }
        }
    }
    let mut pos = 0;
    let mut dropped = false;
    for (i, (k, t)) in texts.iter().enumerate() {
        let mut all: Vec<(usize, usize, usize)> = vec![];
        for (r, p, x) in &rules {
            if blocked.contains(r) || k == x {
                continue;
            }
            for (s, e) in matches_of(*p, &chars[i]) {
                let fp = on && seen.iter().any(|v| v[..] == chars[i][s..e]);
                dropped |= fp;
                if !fp {
                    all.push((*r, s, e));
                }
            }
        }
        // rule 0 redacts and therefore wins; rule 1 only keeps what rule 0 does not touch
        let r0: Vec<(usize, usize, usize)> = all.iter().filter(|m| m.0 == 0).cloned().collect();
        let mut kept = r0.clone();
        for m in all.iter().filter(|m| m.0 == 1) {
            if !r0.iter().any(|q| q.1 < m.2 && m.1 < q.2) {
                kept.push(*m);
            }
        }
        kept.sort_by_key(|m| m.1);
        let want = expect_apply(t, &kept, &acts, blen);
        sym::check(sym::same(ev.0[i].1.as_bytes(), want.text.as_bytes()), 1);
        for h in &want.hits {
            sym::check(pos < got.len(), 2);
            let g = &got[pos];
            pos += 1;
            sym::check((g.rule_index == h.0) & (g.start_index == h.1) & (g.end_index_exclusive == h.2), 3);
            sym::check(same_path(&g.path, *k), 4);
        }
    }
    sym::check(pos == got.len(), 5);
    sym::cover_if(dropped, 1);
    sym::cover_if(got.len() > 0, 2);
    sym::cover_if(got.len() == 0, 3);
}
/// With included keywords only real matches (a keyword close before) count as seen values.
/// params: characters in the excluded field, look-ahead
pub fn p16_keywords() {
    let (n, la) = (sym::param(0), sym::param(1));
    let swap = sym::flag("swap");
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]")
        .proximity_keywords(keywords(la, &["x"], &[]))
        .scope(Scope::exclude(vec![Path::from(vec![field('e')])]))
        .build()])
    .build()
    .unwrap();
    let text = sym::ascii_of(n, "text", |c| (c == b'x') | (c == b' ') | (c == b'7') | (c == b'8'));
    let probe = ('p', "x 7".to_string());
    let ex = ('e', text.clone());
    let mut ev = Flat(if swap { vec![probe, ex] } else { vec![ex, probe] });
    let got = scanner.scan(&mut ev, vec![]);
    let c: Vec<char> = text.chars().collect();
    let x = ['x'];
    let mut seen = false;
    for (s, _) in tokens(&c, 1) {
        let lo = if s >= la { s - la } else { 0 };
        if c[s] == '7' && (lo..s).any(|k| occurs(&c, n, k, &x)) {
            seen = true;
        }
    }
    sym::check(got.len() == !seen as usize, 1);
    sym::cover_if(seen, 1);
    sym::cover_if(!seen, 2);
}
