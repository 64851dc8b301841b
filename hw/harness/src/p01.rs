//! P01: redaction rewrites exactly the reported matches, everything else is preserved, reported
//! indices point at the rewritten text.
use super::common::*;
use super::sym;
use dd_sds::*;

/// params: chars, max char width, number of matches, encoding (0 utf-8, 1 utf-16)
pub fn p01_apply() {
    let nchars = sym::param(0);
    let maxw = sym::param(1);
    let nm = sym::param(2);
    let utf16 = sym::param(3) == 1;
    let text = sym::text(nchars, maxw, "text");
    let b = boundaries(&text);
    let acts = vec![pick_action("a0"), pick_action("a1")];
    // disjoint matches, ascending
    let mut ms: Vec<(usize, usize, usize)> = vec![];
    let mut lo = 0;
    for _ in 0..nm {
        if lo >= nchars {
            break;
        }
        // positions stay symbolic: byte offsets are looked up in the boundary table
        let s = lo + sym::below("s", nchars - lo);
        let e = s + 1 + sym::below("e", nchars);
        sym::assume(e <= nchars);
        ms.push((sym::choose("rule", 2), b[s], b[e]));
        lo = e;
    }
    let mut per: Vec<Vec<(usize, usize)>> = vec![vec![], vec![]];
    for (r, s, e) in &ms {
        per[*r].push((*s, *e));
    }
    // rules may emit in any order
    if sym::flag("rev") {
        per[0].reverse();
        per[1].reverse();
    }
    let p1 = per.pop().unwrap();
    let p0 = per.pop().unwrap();
    let rules = [emit_rule(acts[0].clone(), Scope::all(), p0), emit_rule(acts[1].clone(), Scope::all(), p1)];
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    if utf16 {
        let want = expect_apply(&text, &ms, &acts, u16len);
        let mut ev = U16Event(text.clone());
        let got = scanner.scan(&mut ev, vec![]);
        check_outcome(&got, &ev.0, &want, &acts, 1);
    } else {
        let want = expect_apply(&text, &ms, &acts, blen);
        let mut ev = text.clone();
        let got = scanner.scan(&mut ev, vec![]);
        check_outcome(&got, &ev, &want, &acts, 1);
        for g in &got {
            sym::check(g.match_status == MatchStatus::NotAvailable, 20);
            sym::check(g.match_value.is_none(), 21);
        }
        sym::cover_if(got.len() == nm && ev.len() > text.len(), 1);
        sym::cover_if(got.len() == nm && ev.len() < text.len(), 2);
    }
    sym::cover(3);
}
/// Real regex rules end to end: "[0-9]+" and "k[a-z]" on arbitrary text.
pub fn p01_regex() {
    let n = sym::param(0);
    let acts = vec![partial(false, 2), redact("#")];
    let scanner = ScannerBuilder::new(&[
        RegexRuleConfig::new("[0-9]+").match_action(acts[0].clone()).build(),
        RegexRuleConfig::new("k[a-z]").match_action(acts[1].clone()).build(),
    ])
    .build()
    .unwrap();
    let text = sym::ascii(n, "text");
    let t = text.as_bytes();
    // reference matcher
    let mut ms = vec![];
    let mut i = 0;
    while i < n {
        let d = |x: u8| (x >= b'0') & (x <= b'9');
        if d(t[i]) {
            let s = i;
            while i < n && d(t[i]) {
                i += 1;
            }
            ms.push((0, s, i));
        } else if t[i] == b'k' && i + 1 < n && (t[i + 1] >= b'a') & (t[i + 1] <= b'z') {
            ms.push((1, i, i + 2));
            i += 2;
        } else {
            i += 1;
        }
    }
    let want = expect_apply(&text, &ms, &acts, blen);
    let mut ev = SimpleEvent::String(text.clone());
    let got = scanner.scan(&mut ev, vec![]);
    let out = ev.as_string_mut().unwrap().clone();
    check_outcome(&got, &out, &want, &acts, 1);
    sym::cover_if(got.len() >= 2, 1);
    sym::cover(2);
}
