//! P17: the provided event types visit every string once, under its own path, and redact in place.
use super::common::*;
use super::sym;
use ahash::AHashMap;
use dd_sds::*;
use serde_json::Value;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

/// Model of a JSON-like event.
#[derive(Clone)]
enum T {
    S(String),
    N(i64),
    /// a number as its JSON text
    X(String),
    B(bool),
    Nil,
    L(Vec<T>),
    M(Vec<(String, T)>),
}
fn f(s: &str) -> PathSegment<'static> {
    PathSegment::Field(Cow::Owned(s.to_string()))
}
fn simple(t: &T) -> SimpleEvent {
    match t {
        T::S(s) => SimpleEvent::String(s.clone()),
        T::L(v) => SimpleEvent::List(v.iter().map(simple).collect()),
        T::M(m) => {
            let mut b = BTreeMap::new();
            for (k, v) in m {
                b.insert(k.clone(), simple(v));
            }
            SimpleEvent::Map(b)
        }
        _ => SimpleEvent::String(String::new()),
    }
}
fn json(t: &T) -> Value {
    match t {
        T::S(s) => Value::String(s.clone()),
        T::N(n) => Value::from(*n),
        T::X(s) => serde_json::from_str(s).unwrap(),
        T::B(b) => Value::Bool(*b),
        T::Nil => Value::Null,
        T::L(v) => Value::Array(v.iter().map(json).collect()),
        T::M(m) => {
            let mut b = serde_json::Map::new();
            for (k, v) in m {
                b.insert(k.clone(), json(v));
            }
            Value::Object(b)
        }
    }
}
/// Redact every digit as "##" and collect (path, start, end) of every match.
fn expect(t: &T, path: &mut Vec<PathSegment<'static>>, out: &mut Vec<(Vec<PathSegment<'static>>, usize, usize)>, mutate: bool) -> T {
    let mut text = |s: &str, path: &Vec<PathSegment<'static>>| -> (String, bool) {
        let mut r = String::new();
        let mut hit = false;
        for c in s.chars() {
            if c.is_ascii_digit() {
                hit = true;
                let w = if mutate { 2 } else { 1 };
                out.push((path.clone(), r.len(), r.len() + w));
                if mutate {
                    r.push_str("##");
                    continue;
                }
            }
            r.push(c);
        }
        (r, hit && mutate)
    };
    match t {
        T::S(s) => T::S(text(s, path).0),
        T::N(n) => {
            let (r, m) = text(&n.to_string(), path);
            if m {
                T::S(r)
            } else {
                T::N(*n)
            }
        }
        T::X(n) => {
            let (r, m) = text(n, path);
            if m {
                T::S(r)
            } else {
                T::X(n.clone())
            }
        }
        T::B(b) => T::B(*b),
        T::Nil => T::Nil,
        T::L(v) => {
            let mut r = vec![];
            for (i, x) in v.iter().enumerate() {
                path.push(PathSegment::Index(i));
                r.push(expect(x, path, out, mutate));
                path.pop();
            }
            T::L(r)
        }
        T::M(m) => {
            let mut r = vec![];
            for (k, x) in m {
                path.push(f(k));
                r.push((k.clone(), expect(x, path, out, mutate)));
                path.pop();
            }
            T::M(r)
        }
    }
}
fn same_json(v: &Value, t: &T) -> bool {
    match (v, t) {
        (Value::String(s), T::S(x)) => sym::same(s.as_bytes(), x.as_bytes()),
        (Value::Number(n), T::N(x)) => n.as_i64() == Some(*x),
        (Value::Number(n), T::X(x)) => n.to_string() == *x,
        (Value::Bool(a), T::B(b)) => a == b,
        (Value::Null, T::Nil) => true,
        (Value::Array(a), T::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_json(x, y)),
        (Value::Object(a), T::M(b)) => a.len() == b.len() && b.iter().all(|(k, y)| a.get(k).map_or(false, |x| same_json(x, y))),
        _ => false,
    }
}
fn same_simple(v: &SimpleEvent, t: &T) -> bool {
    match (v, t) {
        (SimpleEvent::String(s), T::S(x)) => sym::same(s.as_bytes(), x.as_bytes()),
        (SimpleEvent::List(a), T::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_simple(x, y)),
        (SimpleEvent::Map(a), T::M(b)) => a.len() == b.len() && b.iter().all(|(k, y)| a.get(k).map_or(false, |x| same_simple(x, y))),
        _ => false,
    }
}
fn leaf(n: usize, kinds: usize) -> T {
    match sym::choose("leaf", kinds) {
        0 => T::S(sym::ascii(n, "text")),
        1 => T::N([-10, 7, 0, 305][sym::choose("num", 4)]),
        2 => T::B(sym::flag("bool")),
        3 => T::Nil,
        _ => T::X(["1.5", "18446744073709551615", "-9223372036854775808", "9223372036854775808", "-0.25"][sym::choose("big", 5)].into()),
    }
}
/// Distinct keys, one of them possibly "message" (which SimpleEvent treats specially).
fn key(i: usize) -> String {
    if i == 0 && sym::flag("message") {
        return "message".into();
    }
    let b = sym::u8("key");
    // disjoint ranges keep keys distinct and fix their order
    sym::assume((b >= [0x20, 0x40, 0x60][i]) & (b < [0x40, 0x60, 0x80][i]));
    (b as char).to_string()
}
fn tree(shape: usize, n: usize, kinds: usize) -> T {
    match shape {
        0 => T::M(vec![(key(0), leaf(n, kinds)), (key(1), leaf(n, kinds))]),
        1 => T::L(vec![leaf(n, kinds), T::M(vec![(key(0), leaf(n, kinds))])]),
        2 => T::M(vec![(key(0), T::L(vec![leaf(n, kinds), leaf(n, kinds)])), (key(1), T::M(vec![(key(2), leaf(n, kinds))]))]),
        3 => T::M(vec![(key(0), T::L(vec![T::L(vec![]), T::L(vec![leaf(n, kinds)])])), (key(1), T::M(vec![])), (key(2), leaf(n, kinds))]),
        _ => leaf(n, kinds),
    }
}
fn scanner(mutate: bool) -> Scanner {
    ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]").match_action(if mutate { redact("##") } else { MatchAction::None }).build()]).build().unwrap()
}
/// Order of fields is left open: compare as sets, but matches of one string in order.
fn check_matches(got: &[RuleMatch], want: &[(Vec<PathSegment<'static>>, usize, usize)]) {
    sym::check(got.len() == want.len(), 10);
    for (i, w) in want.iter().enumerate() {
        // number of earlier matches in the same string
        let k = want[..i].iter().filter(|x| x.0 == w.0).count();
        let same: Vec<&RuleMatch> = got.iter().filter(|g| g.path.segments == w.0).collect();
        sym::check(k < same.len(), 11);
        sym::check((same[k].start_index == w.1) & (same[k].end_index_exclusive == w.2), 12);
    }
    sym::cover_if(got.len() > 1, 1);
    sym::cover_if(got.is_empty(), 2);
}
/// params: tree shape, characters per string, redact (1) or only report (0)
pub fn p17_simple() {
    let (shape, n, mutate) = (sym::param(0), sym::param(1), sym::param(2) == 1);
    let t = tree(shape, n, 1);
    let mut ev = simple(&t);
    let got = scanner(mutate).scan(&mut ev, vec![]);
    let mut hits = vec![];
    let want = expect(&t, &mut vec![], &mut hits, mutate);
    sym::check(same_simple(&ev, &want), 1);
    check_matches(&got, &hits);
}
/// params: tree shape, characters per string, redact (1) or only report (0), leaf kinds (1: strings, 5: all)
pub fn p17_json() {
    let (shape, n, mutate, kinds) = (sym::param(0), sym::param(1), sym::param(2) == 1, sym::param(3));
    let t = tree(shape, n, kinds);
    let mut ev = json(&t);
    let got = scanner(mutate).scan(&mut ev, vec![]);
    let mut hits = vec![];
    let want = expect(&t, &mut vec![], &mut hits, mutate);
    sym::check(same_json(&ev, &want), 1);
    check_matches(&got, &hits);
}
/// As above for a hash map of JSON values. params: tree shape (a map), characters, redact, kinds
pub fn p17_hashmap() {
    let (shape, n, mutate, kinds) = (sym::param(0), sym::param(1), sym::param(2) == 1, sym::param(3));
    let t = tree(shape, n, kinds);
    let mut ev: HashMap<String, Value> = HashMap::new();
    if let T::M(m) = &t {
        for (k, v) in m {
            ev.insert(k.clone(), json(v));
        }
    }
    let got = scanner(mutate).scan(&mut ev, vec![]);
    let mut hits = vec![];
    let want = expect(&t, &mut vec![], &mut hits, mutate);
    if let T::M(m) = &want {
        sym::check(m.len() == ev.len(), 1);
        for (k, v) in m {
            match ev.get(k) {
                Some(x) => sym::check(same_json(x, v), 2),
                None => sym::check(false, 3),
            }
        }
    }
    check_matches(&got, &hits);
}
