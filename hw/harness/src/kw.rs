//! Shared by the keyword properties: reference keyword search.
use super::sym;
use dd_sds::*;

pub fn keywords(la: usize, inc: &[&str], exc: &[&str]) -> ProximityKeywordsConfig {
    ProximityKeywordsConfig {
        look_ahead_character_count: la,
        included_keywords: inc.iter().map(|s| s.to_string()).collect(),
        excluded_keywords: exc.iter().map(|s| s.to_string()).collect(),
    }
}
pub fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() | (c == '_')
}
fn boundary(c: &[char], i: usize) -> bool {
    let l = i > 0 && word(c[i - 1]);
    let r = i < c.len() && word(c[i]);
    l != r
}
fn fold(a: char, b: char) -> bool {
    // b: a keyword character. Case-insensitive for ASCII letters and for the one accented letter used.
    let x = a as u32;
    let y = b as u32;
    if b.is_ascii_alphabetic() {
        (x < 128) & ((x | 32) == (y | 32))
    } else if y == 0xe9 {
        (x == 0xe9) | (x == 0xc9)
    } else {
        x == y
    }
}
/// keyword k occurs at c[i..] ending at or before `end`, with word boundaries at its alphanumeric ends
pub fn occurs(c: &[char], end: usize, i: usize, k: &[char]) -> bool {
    if i + k.len() > end {
        return false;
    }
    for j in 0..k.len() {
        if !fold(c[i + j], k[j]) {
            return false;
        }
    }
    if k[0].is_ascii_alphanumeric() && !boundary(c, i) {
        return false;
    }
    if k[k.len() - 1].is_ascii_alphanumeric() && !boundary(c, i + k.len()) {
        return false;
    }
    true
}
pub const TOKENS: [&str; 4] = ["[0-9]+", "[0-9]", "[0-9]{2}", "[\u{e9}\u{1f600}]"];
/// matches of TOKENS[pat]: character spans
pub fn tokens(c: &[char], pat: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if pat == 3 {
            if (c[i] == '\u{e9}') | (c[i] == '\u{1f600}') {
                v.push((i, i + 1));
            }
            i += 1;
            continue;
        }
        if !c[i].is_ascii_digit() {
            i += 1;
            continue;
        }
        let s = i;
        let max = match pat {
            0 => usize::MAX,
            1 => 1,
            _ => 2,
        };
        while i < c.len() && i - s < max && c[i].is_ascii_digit() {
            i += 1;
        }
        if pat != 2 || i - s == 2 {
            v.push((s, i));
        }
    }
    v
}
pub fn check_spans(got: &[RuleMatch], want: &[(usize, usize)], id: u32) {
    sym::check(got.len() == want.len(), id);
    for (g, w) in got.iter().zip(want) {
        sym::check(g.start_index == w.0, id + 1);
        sym::check(g.end_index_exclusive == w.1, id + 2);
    }
}
