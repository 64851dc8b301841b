//! P06: excluded keywords suppress matches.
use super::common::*;
use super::kw::*;
use super::sym;
use dd_sds::*;

const SETS: [&[&str]; 6] = [&["id"], &["a-b", "b_c"], &["!x"], &["a b", "b"], &[" I_D"], &["a.", "[b"]];
/// params: characters, max width, look-ahead, keyword set, pattern (TOKENS, 1 or 3)
pub fn p06_excluded() {
    let (n, maxw, la, set, pat) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let text = sym::text(n, maxw, "text");
    let strip = |c: char| c == '-' || c == '_';
    let kws: Vec<Vec<char>> = SETS[set].iter().map(|k| k.trim().chars().filter(|c| !strip(*c)).collect()).collect();
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new(TOKENS[pat])
        .proximity_keywords(keywords(la, &[], SETS[set]))
        .build()])
    .build()
    .unwrap();
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    let c: Vec<char> = text.chars().collect();
    let b = boundaries(&text);
    let hits = tokens(&c, pat);
    let mut i = 0;
    let mut dropped = false;
    for m in 0..n {
        if !hits.iter().any(|h| h.0 == m) {
            continue;
        }
        let reported = i < got.len() && got[i].start_index == b[m];
        if reported {
            sym::check(got[i].end_index_exclusive == b[m + 1], 1);
            i += 1;
        }
        // look-ahead window, with one character of context on each side
        let lo = if m > la { m - la } else { 0 };
        if lo > 0 && strip(c[lo - 1]) {
            continue; // left open
        }
        let mut w: Vec<char> = vec![];
        if lo > 0 {
            w.push(c[lo - 1]);
        }
        let first = w.len();
        for x in lo..m {
            if !strip(c[x]) {
                w.push(c[x]);
            }
        }
        let end = w.len();
        w.push(c[m]);
        let suppressed = (first..end).any(|k| kws.iter().any(|kw| occurs(&w, end, k, kw)));
        sym::check(reported == !suppressed, 2);
        dropped |= suppressed;
    }
    sym::check(i == got.len(), 3);
    sym::cover_if(dropped, 1);
    sym::cover_if(got.len() >= 1, 2);
    sym::cover_if(dropped && got.len() >= 1, 3);
}
/// Long distances: keyword, `gap` filler characters of any width, then a match.
/// params: look-ahead, max gap, filler width
pub fn p06_distance() {
    let (la, maxg, w) = (sym::param(0), sym::param(1), sym::param(2));
    let gap = sym::choose("gap", maxg + 1);
    let mut f = String::new();
    sym::push_char(&mut f, w, "filler");
    let fc = f.chars().next().unwrap();
    sym::assume(!word(fc) & (fc != '-'));
    let lead = sym::choose("lead", 3);
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]").proximity_keywords(keywords(la, &[], &["i-d"])).build()]).build().unwrap();
    let text = f.repeat(lead) + "Id" + &f.repeat(gap) + "7";
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    let suppressed = (gap > 0) & (gap + 2 <= la);
    sym::check(got.len() == !suppressed as usize, 1);
    sym::cover_if(got.len() == 1 && gap > 0, 1);
    sym::cover_if(got.len() == 0, 2);
}
