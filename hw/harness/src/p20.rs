//! P20: metrics say what happened.
use super::common::*;
use super::kw::{keywords, occurs};
use super::sym;
use dd_sds::*;
use metrics::{Counter, Gauge, Histogram, Key, KeyName, Metadata, Recorder, SharedString, Unit};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type Entry = (String, Vec<(String, String)>, Arc<AtomicU64>);
/// Keeps every counter and gauge under its name and labels.
pub struct Rec(pub Mutex<Vec<Entry>>);
impl Rec {
    fn slot(&self, k: &Key) -> Arc<AtomicU64> {
        let mut l: Vec<(String, String)> = k.labels().map(|l| (l.key().to_string(), l.value().to_string())).collect();
        l.sort();
        let mut v = self.0.lock().unwrap();
        for e in v.iter() {
            if e.0 == k.name() && e.1 == l {
                return e.2.clone();
            }
        }
        let a = Arc::new(AtomicU64::new(0));
        v.push((k.name().to_string(), l, a.clone()));
        a
    }
    pub fn get(&self, name: &str, labels: &[(&str, &str)]) -> u64 {
        let v = self.0.lock().unwrap();
        let mut want: Vec<(String, String)> = labels.iter().map(|l| (l.0.to_string(), l.1.to_string())).collect();
        want.sort();
        v.iter().find(|e| e.0 == name && e.1 == want).map(|e| e.2.load(SeqCst)).unwrap_or(0)
    }
    /// sum over all labels
    pub fn total(&self, name: &str) -> u64 {
        self.0.lock().unwrap().iter().filter(|e| e.0 == name).map(|e| e.2.load(SeqCst)).sum()
    }
    pub fn gauge(&self, name: &str) -> f64 {
        f64::from_bits(self.get(name, &[]))
    }
}
impl Recorder for Rec {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, k: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.slot(k))
    }
    fn register_gauge(&self, k: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.slot(k))
    }
    fn register_histogram(&self, _: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::noop()
    }
}
fn labels(v: &[(&str, &str)]) -> Labels {
    let l: Vec<(String, String)> = v.iter().map(|p| (p.0.to_string(), p.1.to_string())).collect();
    Labels::new(&l)
}
fn excluding(c: &str) -> Scope {
    Scope::exclude(vec![Path::from(vec![PathSegment::Field(Cow::Owned(c.to_string()))])])
}
#[derive(Default)]
struct Want {
    matches: u64,
    dropped: [u64; 2],
    suppressed: u64,
}
/// Reference: rule 0 finds '7' without a 'k' in the two characters before, rule 1 finds 'Z'; both exclude x.
fn count(fields: &[(&str, String)], multipass: bool, w: &mut Want) {
    let mut excluded = [false; 2];
    let mut found = [0u64; 2];
    for (name, t) in fields {
        let c: Vec<char> = t.chars().collect();
        for i in 0..c.len() {
            let r = match c[i] {
                '7' => 0,
                'Z' => 1,
                _ => continue,
            };
            if r == 0 && (i.saturating_sub(2)..i).any(|j| occurs(&c, i, j, &['k'])) {
                w.suppressed += 1;
                continue;
            }
            if *name == "x" {
                excluded[r] = true;
            } else {
                found[r] += 1;
            }
        }
    }
    for r in 0..2 {
        if excluded[r] && multipass {
            w.dropped[r] += found[r];
        } else {
            w.matches += found[r];
        }
    }
}
/// Two events through one scanner.
/// params: characters per field, characters of the second event's field, multi-pass, which labels there are
pub fn p20_scan() {
    let (n, m, mp) = (sym::param(0), sym::param(1), sym::param(2) == 1);
    let (scanner_labels, rule_labels): (&[(&str, &str)], [&[(&str, &str)]; 2]) = match sym::param(3) {
        0 => (&[("team", "q")], [&[("rule", "0")], &[("rule", "1")]]),
        1 => (&[("team", "q")], [&[], &[("rule", "1"), ("env", "p")]]),
        _ => (&[], [&[("rule", "0")], &[]]),
    };
    let rec = Rec(Mutex::new(vec![]));
    let scanner = metrics::with_local_recorder(&rec, || {
        let rules = [
            RegexRuleConfig::new("7").match_action(redact("#")).scope(excluding("x")).proximity_keywords(keywords(2, &[], &["k"])).labels(labels(rule_labels[0])).build(),
            RegexRuleConfig::new("Z").match_action(MatchAction::None).scope(excluding("x")).labels(labels(rule_labels[1])).build(),
        ];
        ScannerBuilder::new(&rules).labels(labels(scanner_labels)).with_multipass_v0(mp).build().unwrap()
    });
    // another scanner's counters are its own
    let other = metrics::with_local_recorder(&rec, || {
        let rules = [RegexRuleConfig::new("7").match_action(MatchAction::None).labels(labels(&[("rule", "0")])).build()];
        ScannerBuilder::new(&rules).labels(labels(&[("team", "z")])).build().unwrap()
    });
    let mut w = Want::default();
    let mut scans = 0;
    for k in [n, m] {
        if k == 0 {
            continue;
        }
        let ok = |c: u8| (c != b'-') & (c != b'_');
        let fields = [("x", sym::ascii_of(k, "x", ok)), ("y", sym::ascii_of(k, "y", ok))];
        count(&fields, mp, &mut w);
        let mut ev = SimpleEvent::Map(fields.iter().map(|f| (f.0.to_string(), SimpleEvent::String(f.1.clone()))).collect::<BTreeMap<_, _>>());
        scanner.scan(&mut ev, vec![]);
        scans += 1;
    }
    let of = |r: usize, more: &[(&'static str, &'static str)]| [scanner_labels, rule_labels[r], more].concat();
    sym::check(rec.get("scanned_events", scanner_labels) == scans, 1);
    sym::check(rec.get("scanning.match_count", scanner_labels) == w.matches, 2);
    for i in 0..2 {
        sym::check(rec.get("false_positive.multipass.excluded_match", &of(i, &[])) == w.dropped[i], 3);
    }
    sym::check(rec.get("false_positive.proximity_keywords", &of(0, &[("type", "excluded_keywords")])) == w.suppressed, 4);
    // nothing is counted under other labels
    sym::check(rec.total("scanned_events") == scans, 5);
    sym::check(rec.total("scanning.match_count") == w.matches, 6);
    sym::check(rec.total("false_positive.multipass.excluded_match") == w.dropped[0] + w.dropped[1], 7);
    sym::check(rec.total("false_positive.proximity_keywords") == w.suppressed, 8);
    drop(other);
    sym::cover_if(w.matches > 0, 1);
    sym::cover_if(w.dropped[0] + w.dropped[1] > 0, 2);
    sym::cover_if(w.suppressed > 0, 3);
}
/// Creating, refusing and dropping scanners.
/// params: steps
pub fn p20_life() {
    let steps = sym::param(0);
    const P: [&str; 3] = ["a", "b", "a"];
    let rec = Rec(Mutex::new(vec![]));
    metrics::with_local_recorder(&rec, || {
        let mut live: Vec<Option<(usize, Scanner)>> = vec![];
        let (mut made, mut gone) = (0u64, 0u64);
        let mut ever = [false; 2];
        for _ in 0..steps {
            match sym::choose("step", 5) {
                k if k < 3 => {
                    let s = ScannerBuilder::new(&[RegexRuleConfig::new(P[k]).match_action(MatchAction::Hash).build()]).build().unwrap();
                    ever[(P[k] == "b") as usize] = true;
                    live.push(Some(((P[k] == "b") as usize, s)));
                    made += 1;
                }
                3 => {
                    // refused, after a rule that is fine
                    let r = [RegexRuleConfig::new("a").match_action(MatchAction::Hash).build(), RegexRuleConfig::new("(").match_action(MatchAction::Hash).build()];
                    ever[0] = true;
                    sym::check(ScannerBuilder::new(&r).build().is_err(), 1);
                }
                _ => {
                    if live.is_empty() {
                        sym::assume(false);
                    }
                    let i = sym::choose("which", live.len());
                    match live[i].take() {
                        Some(_) => gone += 1,
                        None => sym::assume(false),
                    }
                }
            }
            sym::check(rec.get("scanner.creations", &[]) == made, 2);
            sym::check(rec.get("scanner.deletions", &[]) == gone, 3);
            sym::check(rec.gauge("scanner.total_count") == (made - gone) as f64, 4);
            let kinds = (0..2).filter(|k| live.iter().flatten().any(|s| s.0 == *k)).count();
            let known = ever.iter().filter(|x| **x).count();
            let total = rec.gauge("scanner.total_regexes");
            sym::check((total >= kinds as f64) & (total <= known as f64), 5);
            let size = rec.gauge("scanner.total_regex_cache_size");
            sym::check((size >= 0.0) & ((kinds == 0) | (size > 0.0)), 6);
            sym::cover_if(kinds == 2, 1);
            sym::cover_if(kinds == 0 && gone > 0, 2);
        }
    });
}
