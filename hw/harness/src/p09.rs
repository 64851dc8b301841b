//! P09: every pattern is either refused with the right reason or accepted and never matches emptily.
use super::dialect::*;
use super::patterns::*;
use super::sym;
use dd_sds::*;

/// Accepted or refused, for the right reason; an accepted pattern never yields an empty match (and
/// scanning terminates). params: pattern characters, alphabet, template, text characters
pub fn p09_verdict() {
    let p = pattern(sym::param(0), sym::param(1), sym::param(2));
    sym::check(validate_regex(&p) == verdict(&p).map(|_| ()), 5);
    if let Some((scanner, _)) = judged(&p) {
        let mut ev = sym::text(sym::param(3), 1, "text");
        for m in scanner.scan(&mut ev, vec![]) {
            sym::check(m.start_index < m.end_index_exclusive, 6);
        }
    }
}
const NUMBERS: [&str; 10] = ["0", "1", "2999", "3000", "3001", "9999", "65536", "4294967295", "4294967296", "99999999999999999999"];
/// Counted repetitions around the limit.  params: inner (0: a, 1: [ab])
pub fn p09_quantifier() {
    let a = NUMBERS[sym::choose("n", NUMBERS.len())];
    let q = match sym::choose("form", 4) {
        0 => format!("{{{a}}}"),
        1 => format!("{{{a},}}"),
        2 => format!("{{0,{a}}}"),
        _ => format!("{{{a},{}}}", NUMBERS[sym::choose("m", NUMBERS.len())]),
    };
    let p = format!("b(?:{}){}", ["a", "[ab]"][sym::param(0)], q);
    sym::check(validate_regex(&p) == verdict(&p).map(|_| ()), 1);
    judged(&p);
}
/// Nesting: 49 levels are accepted, deeper is refused; groups side by side do not count.
/// params: levels from, to, shape (0: capturing, 1: non-capturing, 2: with a group before each level,
/// 3: side by side, 4: alternatives side by side)
pub fn p09_depth() {
    let (lo, hi, k) = (sym::param(0), sym::param(1), sym::param(2));
    let d = lo + sym::choose("depth", hi - lo);
    let p = match k {
        2 => "((b)".repeat(d - 1) + "(a)" + &")".repeat(d - 1),
        3 => "(a)".repeat(d),
        4 => "(?i:a)|".repeat(d) + "a",
        _ => ["(", "(?:"][k].repeat(d) + "a" + &")".repeat(d),
    };
    let r = validate_regex(&p);
    sym::check(if d <= 49 || k >= 3 { r.is_ok() } else { r == Err(RegexValidationError::ExceededDepthLimit) }, 1);
    sym::cover_if(d <= 49, 1);
    sym::cover_if(d > 49, 2);
}
/// Any pattern text at all: validation returns (never panics) and agrees with scanner creation.
/// params: characters, max width
pub fn p09_total() {
    let p = sym::text(sym::param(0), sym::param(1), "p");
    let v = validate_regex(&p);
    let ok = ScannerBuilder::new(&[RegexRuleConfig::new(&p).build()]).build().is_ok();
    sym::check(v.is_ok() == ok, 1);
    sym::cover_if(ok, 1);
    sym::cover_if(!ok, 2);
}
