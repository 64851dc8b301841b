//! P19: the native functions behind the Go binding: handles, ownership, responses, error codes.
use super::common::*;
use super::p11::*;
use super::sym;
use dd_sds::*;
use dd_sds_go as _;
use std::ffi::{c_char, c_void, CString};

extern "C" {
    fn create_regex_rule(json: *const c_char) -> i64;
    fn free_any_rule(rule: i64);
    fn create_rule_list() -> i64;
    fn append_rule_to_list(rule: i64, list: i64);
    fn free_rule_list(list: i64);
    fn create_scanner(list: i64, error: *mut *const c_char, paths: bool) -> i64;
    fn delete_scanner(scanner: i64);
    fn scan(scanner: i64, event: *const c_void, size: i64, len: *mut i64, cap: *mut i64, error: *mut *const c_char) -> *const c_char;
    fn free_vec(p: *const c_char, len: i64, cap: i64);
}
const RULES: [&str; 2] = [
    r###"{"id":"1","pattern":"[0-9]","match_action":{"type":"Redact","match_action":"Redact","replacement":"##"}}"###,
    r#"{"id":"2","pattern":"Z","match_action":{"type":"None","match_action":"None"}}"#,
];
fn acts() -> [MatchAction; 2] {
    [redact("##"), MatchAction::None]
}
fn rule(json: &str) -> i64 {
    let c = CString::new(json).unwrap();
    let r = unsafe { create_regex_rule(c.as_ptr()) };
    // the text belongs to the caller
    let mut b = c.into_bytes();
    b.iter_mut().for_each(|x| *x = b'!');
    sym::check(r > 0, 30);
    r
}
fn scanner(list: i64, paths: bool) -> i64 {
    let mut e: *const c_char = std::ptr::null();
    let r = unsafe { create_scanner(list, &mut e, paths) };
    sym::check(e.is_null(), 31);
    r
}
/// One scan through the C interface; the event buffer is the caller's and is not changed.
fn run(s: i64, event: &[u8]) -> Option<Vec<u8>> {
    let mut copy = event.to_vec();
    let (mut n, mut cap) = (-7i64, -7i64);
    let mut e: *const c_char = std::ptr::null();
    let p = unsafe { scan(s, copy.as_ptr() as *const c_void, copy.len() as i64, &mut n, &mut cap, &mut e) };
    sym::check(e.is_null(), 32);
    sym::check(sym::same(&copy, event), 33);
    copy.iter_mut().for_each(|x| *x = 0xff);
    drop(copy);
    sym::check(n >= 0, 34);
    sym::check(cap >= n, 35);
    sym::check((n == 0) == p.is_null(), 36);
    if n == 0 {
        sym::check(cap == 0, 37);
        return None;
    }
    let out = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize) }.to_vec();
    unsafe { free_vec(p, n, cap) };
    Some(out)
}
/// Scan with a scanner over the rule kinds `l`, against the reference.
fn check_scan(s: i64, l: &[usize], n: usize) {
    let text = sym::ascii_of(n, "text", |c| (c == b'7') | (c == b'Z') | (c == b' '));
    let t = T::M(vec![(b"k".to_vec(), T::S(text.into_bytes()))]);
    let mut b = vec![];
    encode(&t, &mut b);
    let mut strings = vec![];
    leaves(&t, &mut vec![], &mut strings);
    let a: Vec<MatchAction> = l.iter().map(|k| acts()[*k].clone()).collect();
    let spans = |s: &str| naive(s).into_iter().filter_map(|m| l.iter().position(|k| *k == m.0).map(|i| (i, m.1, m.2))).collect::<Vec<_>>();
    compare_with(run(s, &b).as_deref(), &strings, &a, blen, &spans);
}
/// Any order of appending, creating, scanning and freeing: a scanner has the rules its list had when it was
/// created, in order, for as long as it lives.
/// params: steps, lists, characters per scan
pub fn p19_history() {
    let (steps, nl, n) = (sym::param(0), sym::param(1), sym::param(2));
    let mut rules: Vec<Option<i64>> = RULES.iter().map(|j| Some(rule(j))).collect();
    let mut lists: Vec<Option<(i64, Vec<usize>)>> = (0..nl).map(|_| Some((unsafe { create_rule_list() }, vec![]))).collect();
    let mut scanners: Vec<Option<(i64, Vec<usize>)>> = vec![];
    for l in lists.iter().flatten() {
        sym::check(l.0 > 0, 1);
    }
    for _ in 0..steps {
        match sym::choose("step", 5) {
            0 => {
                let (r, l) = (sym::choose("rule", 2), sym::choose("list", nl));
                match (rules[r], lists[l].as_mut()) {
                    (Some(h), Some(x)) if x.1.len() < 2 => {
                        unsafe { append_rule_to_list(h, x.0) };
                        x.1.push(r);
                    }
                    _ => sym::assume(false),
                }
            }
            1 => {
                let l = sym::choose("list", nl);
                match &lists[l] {
                    Some(x) if scanners.len() < 2 => {
                        let s = scanner(x.0, sym::flag("paths"));
                        sym::check(s > 0, 2);
                        scanners.push(Some((s, x.1.clone())));
                    }
                    _ => sym::assume(false),
                }
            }
            2 => {
                let r = sym::choose("rule", 2);
                match rules[r].take() {
                    Some(h) => unsafe { free_any_rule(h) },
                    None => sym::assume(false),
                }
            }
            3 => {
                let l = sym::choose("list", nl);
                match lists[l].take() {
                    Some(x) => unsafe { free_rule_list(x.0) },
                    None => sym::assume(false),
                }
            }
            _ => {
                if scanners.is_empty() {
                    sym::assume(false);
                }
                let i = sym::choose("scanner", scanners.len());
                let del = sym::flag("delete");
                match &scanners[i] {
                    Some(s) if !del => check_scan(s.0, &s.1, 1),
                    Some(s) => {
                        unsafe { delete_scanner(s.0) };
                        scanners[i] = None;
                    }
                    None => sym::assume(false),
                }
            }
        }
    }
    let alive: Vec<_> = scanners.iter().flatten().collect();
    for s in &alive {
        check_scan(s.0, &s.1, n);
    }
    sym::cover_if(alive.len() == 2, 5);
    sym::cover_if(alive.len() == 1 && alive[0].1.len() == 2 && lists.iter().all(|l| l.is_none()), 6);
    sym::cover_if(alive.len() == 1 && rules.iter().all(|r| r.is_none()) && lists[0].is_none(), 7);
    for s in &alive {
        unsafe { delete_scanner(s.0) };
    }
    for r in rules.into_iter().flatten() {
        unsafe { free_any_rule(r) };
    }
    for l in lists.into_iter().flatten() {
        unsafe { free_rule_list(l.0) };
    }
}
/// A rule that must be refused gives its error code wherever it is in the list, and the rules stay usable.
pub fn p19_errors() {
    const BAD: [(&str, i64); 5] = [
        (r#"{"pattern":"(","match_action":{"type":"Hash"}}"#, -2),
        (r#"{"pattern":"x*","match_action":{"type":"Hash"}}"#, -2),
        (r#"{"pattern":"x","match_action":{"type":"Hash"},"proximity_keywords":{"look_ahead_character_count":0,"included_keywords":["a"]}}"#, -3),
        (r#"{"pattern":"x","match_action":{"type":"Hash"},"proximity_keywords":{"look_ahead_character_count":3,"excluded_keywords":[""]}}"#, -3),
        (r#"{"pattern":"x","match_action":{"type":"PartialRedact","direction":"LastCharacters","character_count":0}}"#, -4),
    ];
    let good: Vec<i64> = RULES.iter().map(|j| rule(j)).collect();
    let (json, code) = BAD[sym::choose("bad", BAD.len())];
    let bad = rule(json);
    let pos = sym::choose("position", 3);
    let (l, m) = unsafe { (create_rule_list(), create_rule_list()) };
    for i in 0..2 {
        if pos == i {
            unsafe { append_rule_to_list(bad, l) };
        }
        unsafe { append_rule_to_list(good[i], l) };
        unsafe { append_rule_to_list(good[i], m) };
    }
    if pos == 2 {
        unsafe { append_rule_to_list(bad, l) };
    }
    for _ in 0..2 {
        sym::check(scanner(l, false) == code, 1);
    }
    let s = scanner(m, false);
    sym::check(s > 0, 2);
    check_scan(s, &[0, 1], 2);
    unsafe {
        delete_scanner(s);
        free_rule_list(l);
        free_rule_list(m);
        free_any_rule(bad);
        good.iter().for_each(|g| free_any_rule(*g));
    }
    sym::cover(5);
}
/// Any event: the response says what the scan found, strings that are not UTF-8 included.
/// params: shape, characters, max width (0: arbitrary bytes), name width
pub fn p19_scan() {
    let (shape, n, w, kw) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let l = unsafe { create_rule_list() };
    for j in RULES {
        let r = rule(j);
        unsafe {
            append_rule_to_list(r, l);
            free_any_rule(r);
        }
    }
    let s = scanner(l, false);
    unsafe { free_rule_list(l) };
    let t = tree(shape, n, w, kw);
    let mut b = vec![];
    encode(&t, &mut b);
    let mut strings = vec![];
    leaves(&t, &mut vec![], &mut strings);
    let first = run(s, &b);
    compare(first.as_deref(), &strings, &acts(), blen);
    unsafe { delete_scanner(s) };
}
/// What is freed is released: going through the same life again needs no more memory.
/// params: characters
pub fn p19_release() {
    let n = sym::param(0);
    let text = sym::ascii_of(n, "text", |c| (c == b'7') | (c == b'Z') | (c == b' '));
    let order = sym::choose("order", 3);
    let bad = sym::flag("bad");
    let mut b = vec![];
    encode(&T::S(text.into_bytes()), &mut b);
    let mut before = [0; 3];
    for x in &mut before {
        let l = unsafe { create_rule_list() };
        let mut rs: Vec<i64> = RULES.iter().map(|j| rule(j)).collect();
        if bad {
            rs.push(rule(r#"{"pattern":"(","match_action":{"type":"Hash"}}"#));
        }
        for r in &rs {
            unsafe { append_rule_to_list(*r, l) };
        }
        if order == 0 {
            rs.drain(..).for_each(|r| unsafe { free_any_rule(r) });
        }
        let s = scanner(l, false);
        if order == 1 {
            unsafe { free_rule_list(l) };
        }
        if bad {
            sym::check(s == -2, 1);
        } else {
            run(s, &b);
            run(s, &b);
            unsafe { delete_scanner(s) };
        }
        rs.drain(..).for_each(|r| unsafe { free_any_rule(r) });
        if order != 1 {
            unsafe { free_rule_list(l) };
        }
        drop(rs);
        *x = sym::live();
    }
    sym::check(before[2] == before[1], 2);
    sym::cover(5);
}
/// The flag of create_scanner decides whether keywords count in field names.
/// params: characters of the field name (letters)
pub fn p19_paths() {
    let n = sym::param(0);
    let name = sym::ascii_of(n, "name", |c| (c == b'k') | (c == b'w') | (c == b'a'));
    let on = sym::flag("paths");
    let l = unsafe { create_rule_list() };
    let r = rule(r#"{"pattern":"7","match_action":{"type":"None"},"proximity_keywords":{"look_ahead_character_count":10,"included_keywords":["kw"]}}"#);
    unsafe { append_rule_to_list(r, l) };
    let s = scanner(l, on);
    let mut b = vec![];
    encode(&T::M(vec![(name.clone().into_bytes(), T::S(b"7".to_vec()))]), &mut b);
    let got = run(s, &b);
    let hit = on && name == "kw";
    sym::check(got.is_some() == hit, 1);
    unsafe {
        delete_scanner(s);
        free_rule_list(l);
        free_any_rule(r);
    }
    sym::cover_if(hit, 1);
    sym::cover_if(!hit, 2);
}
