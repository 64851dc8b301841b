//! P10: an accepted pattern matches exactly what the dialect says.
use super::dialect::*;
use super::patterns::*;
use super::sym;
use dd_sds::*;

/// params: pattern characters, alphabet, template, text characters, text width
pub fn p10_pattern() {
    let p = pattern(sym::param(0), sym::param(1), sym::param(2));
    semantics(&p, sym::param(3), sym::param(4));
}
const TOKENS: [&[&str]; 3] = [
    // structure
    &["a", "b", "\\w", ".", "|", "(", ")", "(?:", "*", "+?", "{2}", "{1,2}?", "^", "$", "\\b"],
    // flags, blanks and end anchors
    &["(?i)", "(?x)", "(?s)", "(?m)", "(?-i)", "(?i:", "(?x-i:", ")", "a", "K", ".", " ", "\\ ", "[ ]", "\\x20", "\\x{a0}", "#", "\\Z", "\\z", "$", "?", "\n", "|"],
    // classes
    &["a", "\\d", "\\D", "\\s", "\\S", "\\W", "\\h", "\\H", "\\v", "\\V", "[^a]", "[\\d-]", "[^\\D]", "[a\\W]", "\\Q.*\\E", "[\\Qa-c\\E]", "[[:alpha:]_]", "[^[:^digit:]]", "?", "\\n", "\\t"],
];
/// params: tokens, token set, text characters, text width
pub fn p10_tokens() {
    let (k, set, n, w) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let mut p = String::new();
    for _ in 0..k {
        p.push_str(TOKENS[set][sym::choose("t", TOKENS[set].len())]);
    }
    semantics(&p, n, w);
}
const POSIX: [&str; 14] = ["alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit"];
/// every POSIX class, negated or not, inside and outside negated brackets, on any character
pub fn p10_posix() {
    let name = POSIX[sym::choose("class", 14)];
    let neg = ["", "^"][sym::choose("neg", 2)];
    let out = ["", "^"][sym::choose("out", 2)];
    semantics(&format!("[{out}[:{neg}{name}:]]"), 1, sym::param(0));
}
const ENDS: [&str; 20] = ["!", "+", "0", "9", "=", "A", "F", "Z", "_", "a", "f", "z", "~", "\\x41", "\\n", "\\]", "\\-", "\u{e9}", "\u{3a9}", "\u{1f600}"];
/// Class ranges between any two of the listed ends, plain, negated, or after another member.
/// params: text width, shape (0: [x-y], 1: [^x-y], 2: [_x-y&], 3: case-insensitive)
pub fn p10_range() {
    let (w, shape) = (sym::param(0), sym::param(1));
    // ASCII ends only with (?i): Unicode case folding is not modelled
    let k = if shape == 3 { 17 } else { ENDS.len() };
    let (x, y) = (ENDS[sym::choose("from", k)], ENDS[sym::choose("to", k)]);
    let p = match shape {
        0 => format!("[{x}-{y}]"),
        1 => format!("[^{x}-{y}]"),
        2 => format!("[_{x}-{y}&]"),
        _ => format!("(?i)[{x}-{y}]"),
    };
    semantics(&p, 1, w);
}
const ON: [&str; 7] = ["", "i", "x", "s", "m", "ix", "ii"];
const OFF: [&str; 7] = ["", "-i", "-x", "-s", "-xi", "-", "-U"];
const FORMS: [&str; 6] = ["(?@)A b.", "(?@:A b)A", "((?@)A)A", "(?:A|(?@)A|B)A", "(?ix)(?@:A b)A", "(?s)(?@).A"];
/// Inline flags, set and unset in any combination, and how far they reach.
/// params: first form, forms, text characters
pub fn p10_flags() {
    let (from, k, n) = (sym::param(0), sym::param(1), sym::param(2));
    let f = format!("{}{}", ON[sym::choose("on", ON.len())], OFF[sym::choose("off", OFF.len())]);
    semantics(&FORMS[from + sym::choose("form", k)].replace('@', &f), n, 1);
}
