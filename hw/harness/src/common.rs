//! Shared harness pieces: a rule that emits whatever matches the harness chose, a UTF-16 event,
//! reference text helpers.
use super::sym;
use dd_sds::*;
use std::sync::{Arc, Mutex};

/// A rule whose matches are supplied by the harness (possibly symbolic).
pub struct EmitRule {
    pub action: MatchAction,
    pub scope: Scope,
    pub matches: Vec<(usize, usize)>,
}
pub struct EmitConfig(pub Mutex<Option<EmitRule>>);
pub fn emit_rule(action: MatchAction, scope: Scope, matches: Vec<(usize, usize)>) -> Arc<dyn RuleConfig> {
    Arc::new(EmitConfig(Mutex::new(Some(EmitRule { action, scope, matches }))))
}
impl RuleConfig for EmitConfig {
    fn convert_to_compiled_rule(&self, _i: usize, _l: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        Ok(Box::new(self.0.lock().unwrap().take().unwrap()))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
}
impl CompiledRule for EmitRule {
    type GroupData = ();
    type GroupConfig = ();
    type RuleScanCache = ();
    fn get_match_action(&self) -> &MatchAction {
        &self.action
    }
    fn get_scope(&self) -> &Scope {
        &self.scope
    }
    fn create_group_data(_: &Labels) {}
    fn create_group_config() {}
    fn create_rule_scan_cache() {}
    fn get_string_matches(
        &self,
        _content: &str,
        _path: &Path,
        _regex_caches: &mut RegexCaches,
        _group_data: &mut (),
        _group_config: &(),
        _rule_scan_cache: &mut (),
        _exclusion_check: &ExclusionCheck<'_>,
        _excluded_matches: &mut ahash::AHashSet<String>,
        match_emitter: &mut dyn MatchEmitter,
        _true_positive_rule_idx: &[usize],
        _should_kws_match_event_paths: bool,
    ) {
        for (s, e) in &self.matches {
            match_emitter.emit(StringMatch { start: *s, end: *e });
        }
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        None
    }
    fn process_scanner_config(&self, _: &mut ()) {}
}

/// A string event whose match indices are counted in UTF-16 code units.
pub struct U16Event(pub String);
pub struct Utf16Encoding;
pub fn u16len(s: &str) -> usize {
    let mut n = 0;
    for c in s.chars() {
        n += if (c as u32) >= 0x10000 { 2 } else { 1 };
    }
    n
}
impl Encoding for Utf16Encoding {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize {
        0
    }
    fn zero_shift() -> isize {
        0
    }
    fn get_index(v: &usize, _: usize) -> usize {
        *v
    }
    fn get_shift(v: &isize, _: isize) -> isize {
        *v
    }
    fn calculate_indices<'a>(content: &str, ms: impl Iterator<Item = EncodeIndices<'a, Self>>) {
        let mut prev = 0;
        for m in ms {
            // documented contract: ascending by start index
            sym::check(prev <= m.utf8_start, 9001);
            prev = m.utf8_start;
            *m.custom_start = u16len(&content[..m.utf8_start]);
            *m.custom_end = u16len(&content[..m.utf8_end]);
        }
    }
    fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
        *shift += u16len(after) as isize - u16len(before) as isize;
    }
}
impl Event for U16Event {
    type Encoding = Utf16Encoding;
    fn visit_event<'p>(&'p mut self, v: &mut impl EventVisitor<'p>) {
        let _ = v.visit_string(&self.0);
    }
    fn visit_string_mut(&mut self, _p: &Path, mut f: impl FnMut(&mut String) -> bool) {
        f(&mut self.0);
    }
}
/// byte offsets of all char boundaries of s (including 0 and len), widths concrete
pub fn boundaries(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    v.push(s.len());
    v
}
pub fn redact(r: &str) -> MatchAction {
    MatchAction::Redact { replacement: r.to_string() }
}
pub fn partial(first: bool, n: usize) -> MatchAction {
    MatchAction::PartialRedact {
        direction: if first { PartialRedactDirection::FirstCharacters } else { PartialRedactDirection::LastCharacters },
        character_count: n,
    }
}
/// Reference semantics of a match action, written from the documentation: the text that takes the
/// place of a match.
pub fn reference_replace(a: &MatchAction, m: &str) -> String {
    let b = boundaries(m);
    let chars = b.len() - 1;
    match a {
        MatchAction::None => m.to_string(),
        MatchAction::Redact { replacement } => replacement.clone(),
        MatchAction::Hash => format!("{:x}", farmhash::fingerprint64(m.as_bytes())),
        #[allow(deprecated)]
        MatchAction::Utf16Hash => {
            let mut v: Vec<u8> = vec![];
            let mut buf = [0u16; 2];
            for c in m.chars() {
                for u in c.encode_utf16(&mut buf) {
                    v.push(*u as u8);
                    v.push((*u >> 8) as u8);
                }
            }
            format!("{:x}", farmhash::fingerprint64(&v))
        }
        MatchAction::PartialRedact { direction, character_count } => {
            let n = *character_count;
            let stars = "*".repeat(n);
            let k = if n < chars { n } else { chars };
            match direction {
                PartialRedactDirection::FirstCharacters => stars + &m[b[k]..],
                PartialRedactDirection::LastCharacters => m[..b[chars - k]].to_string() + &stars,
            }
        }
    }
}
pub fn mutating(a: &MatchAction) -> bool {
    !matches!(a, MatchAction::None)
}
pub fn kind(a: &MatchAction) -> ReplacementType {
    match a {
        MatchAction::None => ReplacementType::None,
        MatchAction::Redact { .. } => ReplacementType::Placeholder,
        MatchAction::Hash => ReplacementType::Hash,
        #[allow(deprecated)]
        MatchAction::Utf16Hash => ReplacementType::Hash,
        MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, .. } => ReplacementType::PartialStart,
        MatchAction::PartialRedact { .. } => ReplacementType::PartialEnd,
    }
}
/// Expected outcome for a list of disjoint, start-ordered matches (rule, start, end).
pub struct Expect {
    pub text: String,
    /// (rule, start, end, shift) in bytes of the output
    pub hits: Vec<(usize, usize, usize, isize)>,
}
pub fn expect_apply(text: &str, ms: &[(usize, usize, usize)], acts: &[MatchAction], len: fn(&str) -> usize) -> Expect {
    let mut out = String::new();
    let mut pos = 0;
    let mut hits = vec![];
    for (r, s, e) in ms {
        out.push_str(&text[pos..*s]);
        let st = len(&out);
        out.push_str(&reference_replace(&acts[*r], &text[*s..*e]));
        let en = len(&out);
        hits.push((*r, st, en, en as isize - len(&text[..*e]) as isize));
        pos = *e;
    }
    out.push_str(&text[pos..]);
    Expect { text: out, hits }
}
pub fn blen(s: &str) -> usize {
    s.len()
}
pub fn check_outcome(got: &[RuleMatch], text: &str, want: &Expect, acts: &[MatchAction], id: u32) {
    sym::check(text.len() == want.text.len(), id);
    sym::check(sym::same(text.as_bytes(), want.text.as_bytes()), id + 1);
    sym::check(got.len() == want.hits.len(), id + 2);
    for (g, w) in got.iter().zip(want.hits.iter()) {
        sym::check(g.rule_index == w.0, id + 3);
        sym::check(g.start_index == w.1, id + 4);
        sym::check(g.end_index_exclusive == w.2, id + 5);
        sym::check(g.shift_offset == w.3, id + 6);
        sym::check(g.replacement_type == kind(&acts[w.0]), id + 7);
        sym::check(g.path == Path::root(), id + 8);
    }
}
pub fn pick_action(name: &str) -> MatchAction {
    match sym::choose(name, 5) {
        0 => MatchAction::None,
        1 => {
            // replacement text of 0..=2 characters, any content
            let n = sym::choose("rlen", 3);
            let mut r = String::new();
            for i in 0..n {
                sym::push_char(&mut r, if i == 0 { 1 } else { 3 }, "r");
            }
            MatchAction::Redact { replacement: r }
        }
        2 => MatchAction::Hash,
        3 => partial(true, 1 + sym::choose("pn", 3)),
        _ => partial(false, 1 + sym::choose("pn", 3)),
    }
}
