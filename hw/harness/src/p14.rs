//! P14: what a scanner reports depends on its rules and the event only, not on what was created,
//! dropped or scanned before in the process.
use super::common::*;
use super::kw::*;
use super::sym;
use dd_sds::*;

const E: char = '\u{e9}';
/// (pattern, included keyword, excluded keyword)
const CFG: [(&str, &str, &str); 16] = [
    ("\u{e9}", "", ""),
    ("1", "\u{e9}", ""),
    ("\u{c9}", "", ""),
    ("1", "", "\u{e9}"),
    (r"(?-u:\b)a(?-u:\b)", "", ""),
    ("1", "a", ""),
    ("(?i)\u{e9}", "", ""),
    ("1", "", ""),
    ("a1?", "", ""),
    // differ from others only in blanks, case or flags
    ("a1? ", "", ""),
    (" a1?", "", ""),
    ("A1?", "", ""),
    ("(?x)a1? ", "", ""),
    ("(?i)a1?", "", ""),
    ("[1]", "", ""),
    ("a1?b", "", ""),
];
fn rule(k: usize) -> std::sync::Arc<dyn RuleConfig> {
    let (p, i, x) = CFG[k];
    let mut r = RegexRuleConfig::new(p);
    if !i.is_empty() {
        r = r.proximity_keywords(keywords(3, &[i], &[]));
    }
    if !x.is_empty() {
        r = r.proximity_keywords(keywords(3, &[], &[x]));
    }
    r.build()
}
/// Reference: character spans of the matches of configuration k; None when it must be refused.
fn reference(k: usize, c: &[char]) -> Option<Vec<(usize, usize)>> {
    let single = |f: &dyn Fn(usize) -> bool| Some((0..c.len()).filter(|i| f(*i)).map(|i| (i, i + 1)).collect::<Vec<_>>());
    let near = |i: usize, kw: char| {
        let lo = if i >= 3 { i - 3 } else { 0 };
        let end = if kw == 'a' { c.len() } else { i };
        (lo..i).any(|j| occurs(c, end, j, &[kw]))
    };
    match k {
        0 => single(&|i| c[i] == E),
        1 => single(&|i| c[i] == '1' && near(i, E)),
        2 => single(&|i| c[i] == '\u{c9}'),
        3 => single(&|i| c[i] == '1' && !near(i, E)),
        4 => None,
        5 => single(&|i| c[i] == '1' && near(i, 'a')),
        6 => single(&|i| c[i] == E || c[i] == '\u{c9}'),
        7 => single(&|i| c[i] == '1'),
        11 => Some(vec![]),
        14 => single(&|i| c[i] == '1'),
        _ => {
            let (pre, post) = match k {
                9 => (None, Some(' ')),
                10 => (Some(' '), None),
                15 => (None, Some('b')),
                _ => (None, None),
            };
            let at = |j: usize, x: Option<char>| x.map_or(true, |x| j < c.len() && c[j] == x);
            let mut v = vec![];
            let mut i = 0;
            while i < c.len() {
                let a = i + pre.is_some() as usize;
                let mut e = a + 1;
                if at(i, pre) && at(a, Some('a')) {
                    if at(e, Some('1')) && at(e + 1, post) {
                        e += 1;
                    }
                } else {
                    i += 1;
                    continue;
                }
                if at(e, post) {
                    e += post.is_some() as usize;
                    v.push((i, e));
                    i = e;
                } else {
                    i += 1;
                }
            }
            Some(v)
        }
    }
}
/// characters: e-acute in both cases, 'a', '1', ' ', 'b'
fn text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let w = 1 + sym::choose("width", 2);
        let mut c = String::new();
        sym::push_char(&mut c, w, "c");
        let b = c.as_bytes();
        if w == 1 {
            sym::assume((b[0] == b'a') | (b[0] == b'1') | (b[0] == b' ') | (b[0] == b'b'));
        } else {
            sym::assume((b[0] == 0xc3) & ((b[1] == 0xa9) | (b[1] == 0x89)));
        }
        s.push_str(&c);
    }
    s
}
fn check_scan(s: &Scanner, k: usize, t: &str, id: u32) {
    let mut ev = t.to_string();
    let got = s.scan(&mut ev, vec![]);
    let c: Vec<char> = t.chars().collect();
    let b = boundaries(t);
    let want: Vec<(usize, usize)> = reference(k, &c).unwrap().iter().map(|x| (b[x.0], b[x.1])).collect();
    check_spans(&got, &want, id);
    sym::check(sym::same(ev.as_bytes(), t.as_bytes()), id + 5);
    sym::cover_if(got.len() > 0, 1);
    sym::cover_if(got.len() == 0, 2);
}
/// params: steps of history, characters of the final text, first configuration, configurations
pub fn p14_history() {
    let (steps, n, from, k) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let mut kept = vec![];
    for _ in 0..steps {
        let c = from + sym::choose("cfg", k);
        let what = sym::choose("what", 3);
        match ScannerBuilder::new(&[rule(c)]).build() {
            Ok(s) => {
                sym::check(c != 4, 20);
                if what != 0 {
                    let mut ev = "\u{e9}1a\u{c9}1".to_string();
                    let _ = s.scan(&mut ev, vec![]);
                }
                if what != 2 {
                    kept.push((c, s));
                }
            }
            Err(_) => sym::check(c == 4, 21),
        }
    }
    let c = from + sym::choose("final", k);
    let t = text(n);
    match ScannerBuilder::new(&[rule(c)]).build() {
        Ok(s) => {
            sym::check(c != 4, 22);
            check_scan(&s, c, &t, 1);
        }
        Err(_) => {
            sym::check(c == 4, 23);
            sym::cover(3);
        }
    }
    // scanners created earlier still answer for their own rules
    for (c, s) in &kept {
        check_scan(s, *c, &t, 10);
    }
}
/// One scanner, several events. params: characters of the first event, of the second
pub fn p14_events() {
    let (n1, n2) = (sym::param(0), sym::param(1));
    let acts = [redact("##"), MatchAction::None];
    let s = ScannerBuilder::new(&[
        RegexRuleConfig::new("1+").match_action(acts[0].clone()).proximity_keywords(keywords(2, &["a"], &[])).build(),
        RegexRuleConfig::new("\u{e9}").proximity_keywords(keywords(2, &[], &["b"])).build(),
    ])
    .build()
    .unwrap();
    let first = text(n1);
    let mut ev = first.clone();
    let blocked = match sym::choose("blocked", 3) {
        0 => vec![],
        1 => vec![0],
        _ => vec![1, 0],
    };
    let _ = s.scan(&mut ev, blocked);
    let t = text(n2);
    let mut ev = t.clone();
    let got = s.scan(&mut ev, vec![]);
    let c: Vec<char> = t.chars().collect();
    let b = boundaries(&t);
    let mut ms = vec![];
    let mut i = 0;
    while i < c.len() {
        let lo = if i >= 2 { i - 2 } else { 0 };
        let st = i;
        if c[i] == '1' {
            while i < c.len() && c[i] == '1' {
                i += 1;
            }
            if (lo..st).any(|j| occurs(&c, c.len(), j, &['a'])) {
                ms.push((0, b[st], b[i]));
            }
            continue;
        }
        if c[i] == E && !(lo..i).any(|j| occurs(&c, i, j, &['b'])) {
            ms.push((1, b[i], b[i + 1]));
        }
        i += 1;
    }
    let want = expect_apply(&t, &ms, &acts, blen);
    check_outcome(&got, &ev, &want, &acts, 30);
    sym::cover_if(got.len() > 0, 1);
    sym::cover_if(got.len() == 0, 2);
}
/// Many scanners created and dropped, so that the process-wide store is cleaned up.
/// params: scanners created, characters, how many of them are kept alive
pub fn p14_gc() {
    let (m, n, live) = (sym::param(0), sym::param(1), sym::param(2));
    let mut alive = vec![];
    let keep = ScannerBuilder::new(&[rule(8)]).build().unwrap();
    let _ = keep.scan(&mut "a1".to_string(), vec![]);
    for i in 0..m {
        let s = ScannerBuilder::new(&[RegexRuleConfig::new(&format!("q{}", i)).build()]).build().unwrap();
        if i % 100 == 7 {
            let _ = s.scan(&mut "q7".to_string(), vec![]);
        }
        if i < live {
            alive.push(s);
        }
    }
    let again = ScannerBuilder::new(&[rule(8)]).build().unwrap();
    let other = ScannerBuilder::new(&[rule(0)]).build().unwrap();
    let t = text(n);
    check_scan(&other, 0, &t, 1);
    check_scan(&keep, 8, &t, 10);
    check_scan(&again, 8, &t, 20);
    for i in [0, 7, 506, live] {
        if i < alive.len() {
            let mut ev = format!("q{} q{}", i, i + 1);
            sym::check(alive[i].scan(&mut ev, vec![]).len() == 1, 30);
        }
    }
}
