//! Pattern families and the reference verdict (shared by P09 and P10).
use super::common::*;
use super::dialect::*;
use super::kw::check_spans;
use super::sym;
use dd_sds::*;

const ALPHABETS: [&str; 8] = [
    "ab(|)*?",
    "a-]^[b",
    "0123,}?",
    "imsx-:)",
    "ab.+{}1",
    "\\adwsbBQE^$",
    "^$ab\n|",
    "abc",
];
/// '@' is replaced by the symbolic characters
const TEMPLATES: [&str; 12] = [
    "@",
    "[@]",
    "a{@}",
    "(?@A b.",
    "\\@",
    "[\\@]",
    "x(?:@)",
    "(?m)@",
    "[a\\@z]",
    "(?<@>a)",
    "\\x{@}",
    "[[:@:]]",
];
pub fn pattern(n: usize, alpha: usize, template: usize) -> String {
    let set: Vec<char> = if alpha < ALPHABETS.len() { ALPHABETS[alpha].chars().collect() } else { vec![] };
    let mut mid = String::new();
    for _ in 0..n {
        if alpha < ALPHABETS.len() {
            mid.push(set[sym::choose("p", set.len())]);
        } else {
            // any ASCII character
            let c = sym::u8("p");
            sym::assume(c < 0x80);
            mid.push(sym::conc(c as usize) as u8 as char);
        }
    }
    TEMPLATES[template].replace('@', &mid)
}
pub fn verdict(p: &str) -> Result<N, RegexValidationError> {
    let c: Vec<char> = p.chars().collect();
    match parse(&c) {
        Err(Bad::Syntax) => Err(RegexValidationError::InvalidSyntax),
        Err(Bad::Quantifier) => Err(RegexValidationError::ExceededQuantifierLimit),
        Err(Bad::Depth) => Err(RegexValidationError::ExceededDepthLimit),
        Err(Bad::Open) => {
            sym::assume(false);
            Err(RegexValidationError::InvalidSyntax)
        }
        Ok(n) => match min_len(&n) {
            Some(0) => Err(RegexValidationError::MatchesEmptyString),
            _ => Ok(n),
        },
    }
}
/// Verdict: scanner creation and validate_regex agree with the dialect, errors included.
pub fn judged(p: &str) -> Option<(Scanner, N)> {
    let want = verdict(p);
    let got = ScannerBuilder::new(&[RegexRuleConfig::new(p).build()]).build();
    match (want, got) {
        (Err(w), Err(CreateScannerError::InvalidRegex(g))) => {
            sym::check(w == g, 1);
            sym::cover(2);
            None
        }
        (Ok(n), Ok(scanner)) => {
            sym::cover(1);
            Some((scanner, n))
        }
        (Err(_), Ok(_)) => {
            sym::check(false, 2);
            None
        }
        (Ok(_), Err(_)) => {
            sym::check(false, 3);
            None
        }
        _ => {
            sym::check(false, 4);
            None
        }
    }
}
pub fn semantics(p: &str, n: usize, w: usize) {
    if let Some((scanner, node)) = judged(p) {
        let text = sym::text(n, w, "text");
        let mut ev = text.clone();
        let m = scanner.scan(&mut ev, vec![]);
        let c: Vec<char> = text.chars().collect();
        let b = boundaries(&text);
        let spans: Vec<(usize, usize)> = find_all(&node, &c).iter().map(|x| (b[x.0], b[x.1])).collect();
        check_spans(&m, &spans, 10);
        sym::cover_if(m.len() > 0, 3);
    }
}
