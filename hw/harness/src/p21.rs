//! P21: scanners can be created, used and dropped from several threads at once.
use super::common::*;
use super::p20::Rec;
use super::{sched, sym};
use dd_sds::*;
use std::sync::{Arc, Mutex};

static REC: Rec = Rec(Mutex::new(vec![]));
static mut SHARED: Option<Arc<Scanner>> = None;
static mut OLD: [Option<Scanner>; 4] = [None, None, None, None];
static mut KEPT: [Option<Scanner>; 4] = [None, None, None, None];
static mut JOB: [usize; 4] = [0; 4];
static mut TEXT: Option<String> = None;
fn rule(k: usize) -> Arc<dyn RuleConfig> {
    RegexRuleConfig::new(["[0-9]", "[a-c]"][k]).match_action(redact(["#", "%%"][k])).build()
}
fn build(k: usize) -> Scanner {
    match ScannerBuilder::new(&[rule(k)]).build() {
        Ok(s) => s,
        Err(_) => {
            sym::check(false, 1);
            unreachable!()
        }
    }
}
/// What a scan must give.
fn scan(s: &Scanner, k: usize, t: &str) {
    let mut ev = SimpleEvent::String(t.to_string());
    let got = s.scan(&mut ev, vec![]);
    let mut want = String::new();
    let mut n = 0;
    for c in t.chars() {
        let hit = if k == 0 { c.is_ascii_digit() } else { (c >= 'a') & (c <= 'c') };
        if hit {
            want.push_str(["#", "%%"][k]);
            n += 1;
        } else {
            want.push(c);
        }
    }
    sym::check(got.len() == n, 2);
    match &ev {
        SimpleEvent::String(o) => sym::check(sym::same(o.as_bytes(), want.as_bytes()), 3),
        _ => sym::check(false, 4),
    }
}
fn job(t: usize) {
    unsafe {
        let text = TEXT.clone().unwrap();
        match JOB[t] {
            0 => {
                let s = build(0);
                scan(&s, 0, &text);
            }
            1 => KEPT[t] = Some(build(0)),
            2 => {
                let s = SHARED.clone().unwrap();
                scan(&s, 1, &text);
            }
            3 => OLD[t] = None,
            5 => {
                let r = [rule(0), RegexRuleConfig::new("(").match_action(MatchAction::None).build()];
                sym::check(ScannerBuilder::new(&r).build().is_err(), 5);
            }
            _ => {
                let s = build(1);
                scan(&s, 1, &text);
                KEPT[t] = Some(build(0));
            }
        }
    }
}
/// params: threads, preemptions, jobs to choose from, scanners created and dropped before (of another pattern), characters
pub fn p21_threads() {
    let (n, budget, jobs, before, chars) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    sym::check(metrics::set_global_recorder(&REC).is_ok(), 6);
    unsafe {
        for _ in 0..before {
            drop(ScannerBuilder::new(&[RegexRuleConfig::new("x").match_action(MatchAction::None).build()]).build());
        }
        SHARED = Some(Arc::new(build(1)));
        let mut old = false;
        for t in 0..n {
            JOB[t] = sym::choose("job", jobs);
            if t > 0 {
                sym::assume(JOB[t] >= JOB[t - 1]);
            }
            if JOB[t] == 3 {
                OLD[t] = Some(build(0));
                old = true;
            }
        }
        let mut text = String::from("7b");
        text.push_str(&sym::ascii_of(chars, "text", |c| (c == b'7') | (c == b'b') | (c == b'-')));
        TEXT = Some(text.clone());
        sched::run(n, budget, job);
        // a new pattern, which may take over the place of an old one
        let fresh = ScannerBuilder::new(&[RegexRuleConfig::new("y").match_action(MatchAction::None).build()]).build().unwrap();
        sym::check(fresh.scan(&mut text.clone(), vec![]).is_empty(), 11);
        for s in KEPT.iter().flatten() {
            scan(s, 0, &text);
        }
        for s in OLD.iter().flatten() {
            scan(s, 0, &text);
        }
        scan(SHARED.as_ref().unwrap(), 1, &text);
        let s = build(0);
        scan(&s, 0, &text);
        let mut made = before + 3;
        let mut live = 3;
        let mut scans = 3;
        for t in 0..n {
            made += [1, 1, 0, 1, 2, 0][JOB[t]];
            live += [0, 1, 0, 0, 1, 0][JOB[t]];
            scans += [1, 1, 1, 0, 2, 0][JOB[t]];
        }
        sym::check(REC.get("scanner.creations", &[]) == made as u64, 7);
        sym::check(REC.get("scanner.deletions", &[]) == (made - live) as u64, 8);
        sym::check(REC.gauge("scanner.total_count") == live as f64, 9);
        sym::check(REC.total("scanned_events") == scans as u64, 10);
        sym::cover_if(old, 1);
        sym::cover_if(KEPT[0].is_some() && KEPT[1].is_some(), 2);
        for k in KEPT.iter_mut().chain(OLD.iter_mut()) {
            *k = None;
        }
        SHARED = None;
    }
    sym::cover(3);
}
