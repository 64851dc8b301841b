//! P03: what a match action puts in place of a match.
use super::common::*;
use super::sym;
use dd_sds::*;

/// params: chars, max width, max partial count
pub fn p03_replacement() {
    let n = sym::choose("n", sym::param(0)) + 1;
    let m = sym::text(n, sym::param(1), "m");
    let cnt = 1 + sym::choose("count", sym::param(2));
    let a = match sym::choose("kind", 6) {
        0 => MatchAction::None,
        1 => {
            let mut r = String::new();
            for w in [1usize, 2, 4] {
                sym::push_char(&mut r, w, "r");
            }
            MatchAction::Redact { replacement: r }
        }
        2 => MatchAction::Hash,
        #[allow(deprecated)]
        3 => MatchAction::Utf16Hash,
        4 => partial(true, cnt),
        _ => partial(false, cnt),
    };
    sym::check(a.is_mutating() == mutating(&a), 1);
    sym::check(a.replacement_type() == kind(&a), 2);
    sym::check(a.validate().is_ok(), 3);
    let want = reference_replace(&a, &m);
    match a.get_replacement(&m) {
        None => {
            sym::check(!mutating(&a), 4);
            sym::cover(1);
        }
        Some(r) => {
            sym::check(mutating(&a), 5);
            sym::check(r.start <= r.end && r.end <= m.len(), 6);
            sym::check(m.is_char_boundary(r.start) && m.is_char_boundary(r.end), 7);
            let mut out = String::new();
            out.push_str(&m[..r.start]);
            out.push_str(&r.replacement);
            out.push_str(&m[r.end..]);
            sym::check(out.len() == want.len(), 8);
            sym::check(sym::same(out.as_bytes(), want.as_bytes()), 9);
            sym::cover(2);
        }
    }
    sym::cover_if(cnt > n, 3);
    sym::cover_if(cnt < n, 4);
}
/// A scanner is refused iff a rule asks for a partial redaction of zero characters.
/// Any 64-bit count.
pub fn p03_config() {
    let c = sym::u64("count") as usize;
    let a = partial(sym::flag("first"), c);
    let r = ScannerBuilder::new(&[RegexRuleConfig::new("ab").match_action(a).build()]).build();
    match r {
        Ok(_) => {
            sym::check(c != 0, 1);
            sym::cover(1);
        }
        Err(e) => {
            sym::check(c == 0, 2);
            sym::check(matches!(e, CreateScannerError::InvalidMatchAction(_)), 3);
            sym::check(i64::from(e) == -4, 4);
            sym::cover(2);
        }
    }
    for a in [MatchAction::None, MatchAction::Hash, redact("")] {
        sym::check(ScannerBuilder::new(&[RegexRuleConfig::new("ab").match_action(a).build()]).build().is_ok(), 5);
    }
}
/// Through the scanner: the matched text is exactly what is replaced; nothing outside it changes.
/// params: match chars, max width
pub fn p03_scan() {
    let m = sym::text(sym::param(0), sym::param(1), "m");
    let a = pick_action("a");
    let mut text = String::from("<");
    text.push_str(&m);
    text.push('>');
    let s = ScannerBuilder::new(&[emit_rule(a.clone(), Scope::all(), vec![(1, 1 + m.len())])]).build().unwrap();
    let mut want = String::from("<");
    want.push_str(&reference_replace(&a, &m));
    want.push('>');
    let mut ev = text.clone();
    let got = s.scan(&mut ev, vec![]);
    sym::check(got.len() == 1, 1);
    sym::check(ev.len() == want.len(), 2);
    sym::check(sym::same(ev.as_bytes(), want.as_bytes()), 3);
    sym::check(got[0].replacement_type == kind(&a), 4);
    sym::cover(1);
}
