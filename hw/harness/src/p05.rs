//! P05: included keywords gate matches.
use super::common::*;
use super::kw::*;
use super::sym;
use dd_sds::*;

const SETS: [&[&str]; 8] = [&["id"], &["a b", "b c"], &["-x"], &["a b c", "b", "x"], &["\u{e9}h", "h:"], &["x"], &["ID "], &["a.", "[b"]];
/// params: characters, max width, look-ahead, keyword set, pattern (TOKENS)
pub fn p05_included() {
    let (n, maxw, la, set, pat) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    // max width 0: three characters only, for longer texts
    let text = if maxw == 0 { sym::ascii_of(n, "text", |c| (c == b'x') | (c == b' ') | (c == b'0')) } else { sym::text(n, maxw, "text") };
    let kws: Vec<Vec<char>> = SETS[set].iter().map(|k| k.trim().chars().collect()).collect();
    // "gh" is an excluded keyword: it must have no influence when included keywords are present
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new(TOKENS[pat])
        .proximity_keywords(keywords(la, SETS[set], &["gh"]))
        .build()])
    .build()
    .unwrap();
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    let c: Vec<char> = text.chars().collect();
    let b = boundaries(&text);
    let occ: Vec<bool> = (0..n).map(|i| kws.iter().any(|k| occurs(&c, n, i, k))).collect();
    let mut want = vec![];
    for (s, e) in tokens(&c, pat) {
        let lo = if s >= la { s - la } else { 0 };
        if (lo..s).any(|k| occ[k]) {
            want.push((b[s], b[e]));
        }
    }
    check_spans(&got, &want, 1);
    sym::cover_if(got.len() >= 1, 1);
    sym::cover_if(got.len() == 0 && tokens(&c, pat).len() > 0, 2);
    sym::cover_if(got.len() >= 2, 3);
    sym::cover_if(got.len() == 1 && tokens(&c, pat).len() > 1, 4);
}
/// Long distances: keyword, then `gap` characters of any width (the filler is one symbolic character
/// repeated, never part of a keyword or a match), then a match. params: look-ahead, max gap, filler width
pub fn p05_distance() {
    let (la, maxg, w) = (sym::param(0), sym::param(1), sym::param(2));
    let gap = sym::choose("gap", maxg + 1);
    let mut f = String::new();
    sym::push_char(&mut f, w, "filler");
    let fc = f.chars().next().unwrap();
    sym::assume(!word(fc) & !fc.is_ascii_digit());
    let lead = sym::choose("lead", 3);
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]").proximity_keywords(keywords(la, &["id"], &[])).build()]).build().unwrap();
    let text = f.repeat(lead) + "id" + &f.repeat(gap) + "7";
    let mut ev = text.clone();
    let got = scanner.scan(&mut ev, vec![]);
    // a word boundary is needed between the keyword and the digit
    let want = (gap > 0) & (gap + 2 <= la);
    sym::check(got.len() == want as usize, 1);
    sym::cover_if(got.len() == 1, 1);
    sym::cover_if(got.len() == 0 && gap > 0, 2);
}
/// Configuration limits. params: keyword characters
pub fn p05_limits() {
    let n = sym::param(0);
    let la = sym::below("la", 256);
    let included = sym::flag("inc");
    let count = [1usize, 49, 50, 51][sym::choose("count", 4)];
    // keyword under test: any mix of letters, blanks and removed characters
    let k = sym::ascii_of(n, "kw", |c| (c == b'a') | (c == b' ') | (c == b'\t') | (c == b'-') | (c == b'_'));
    let mut list = vec!["a".to_string(); count - 1];
    list.push(k.clone());
    let cfg = ProximityKeywordsConfig {
        look_ahead_character_count: la,
        included_keywords: if included { list.clone() } else { vec![] },
        excluded_keywords: if included { vec![] } else { list },
    };
    let blank = |c: char| (c == ' ') | (c == '\t');
    let empty = if included {
        k.chars().all(blank)
    } else {
        // blanks are trimmed from the ends, '-' and '_' removed everywhere
        k.trim_matches(blank).chars().all(|c| (c == '-') | (c == '_'))
    };
    let r = ScannerBuilder::new(&[RegexRuleConfig::new("x").proximity_keywords(cfg).build()]).build();
    let want = (la >= 1) & (la <= 50) & (count <= 50) & (n <= la) & !empty;
    sym::check(r.is_ok() == want, 1);
    sym::cover_if(want, 1);
    match r {
        Ok(_) => (),
        Err(CreateScannerError::InvalidKeywords(_)) => sym::cover(2),
        Err(_) => sym::check(false, 3),
    }
}
