From eedb1705f1d8659a7f6a319ebe2932ff3ffcaad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 01/13] fix: NHS check digit validator accepts only 10-digit
 numbers

---
 sds/src/secondary_validation/nhs_check_digit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/nhs_check_digit.rs b/sds/src/secondary_validation/nhs_check_digit.rs
index c13125b..b2293b9 100644
--- a/sds/src/secondary_validation/nhs_check_digit.rs
+++ b/sds/src/secondary_validation/nhs_check_digit.rs
@@ -17,7 +17,8 @@ impl Validator for NhsCheckDigit {
         let mut check_digit = 0;
 
         while let Some(digit) = get_previous_digit(&mut input_iter) {
-            if nb_digit > 10 {
+            if nb_digit == 10 {
+                // more than 10 digits
                 return false;
             }
             if nb_digit < 9 {
@@ -29,6 +30,10 @@ impl Validator for NhsCheckDigit {
             nb_digit += 1;
         }
 
+        if nb_digit != 10 {
+            return false;
+        }
+
         // Divide the total_sum by 11 and get the remainder
         let remainder = total_sum % 11;
 
-- 
2.43.0


From 3a7478724b9bb27092af6a8ff713045b05f8d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 02/13] fix: GitHub token checksum is zero-padded to 6
 characters

---
 sds/src/secondary_validation/github_token_checksum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sds/src/secondary_validation/github_token_checksum.rs b/sds/src/secondary_validation/github_token_checksum.rs
index e26375b..2277e64 100644
--- a/sds/src/secondary_validation/github_token_checksum.rs
+++ b/sds/src/secondary_validation/github_token_checksum.rs
@@ -22,7 +22,8 @@ impl Validator for GithubTokenChecksum {
 
         // extract the payload (everything except the last 6 chars)
         let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());
-        let computed_checksum_b62 = base62::encode(computed_checksum);
+        // the base62 checksum is padded with leading zeros to 6 chars
+        let computed_checksum_b62 = format!("{:0>6}", base62::encode(computed_checksum));
         // check that the crc is the last 6 chars
         computed_checksum_b62 == last_part[last_part.len() - 6..]
     }
-- 
2.43.0


From bb581481747ac2f51252fb189a0b250d0891c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 03/13] fix: reject patterns whose empty matches depend on
 surrounding text

---
 sds/src/validation.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sds/src/validation.rs b/sds/src/validation.rs
index 89921b6..5b6b3c9 100644
--- a/sds/src/validation.rs
+++ b/sds/src/validation.rs
@@ -65,7 +65,7 @@ pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValida
     // This validates that the syntax is valid and normalizes behavior.
     let converted_pattern = convert_to_rust_regex(input)?;
     let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
-    if regex.is_match("") {
+    if can_match_empty_string(&converted_pattern)? {
         return Err(RegexValidationError::MatchesEmptyString);
     }
     Ok(regex)
@@ -84,6 +84,21 @@ fn is_regex_within_complexity_limit(
     }
 }
 
+/// Checks if the pattern can have an empty match anywhere in any input. Searching the empty string
+/// is not enough for this, since assertions can depend on the surrounding text (e.g. `\bx*`
+/// does not match "", but it does have an empty match in "a").
+fn can_match_empty_string(converted_pattern: &str) -> Result<bool, RegexValidationError> {
+    let hir = regex_automata::util::syntax::parse_with(converted_pattern, &syntax_config())
+        .map_err(|_| RegexValidationError::InvalidSyntax)?;
+    Ok(hir.properties().minimum_len() == Some(0))
+}
+
+fn syntax_config() -> regex_automata::util::syntax::Config {
+    regex_automata::util::syntax::Config::default()
+        .dot_matches_new_line(false)
+        .unicode(true)
+}
+
 fn build_regex(
     converted_pattern: &str,
     complexity_limit: usize,
@@ -95,11 +110,7 @@ fn build_regex(
                 // This is purely a performance setting. This is the default, but it might be worth testing this in benchmarks for a better number
                 .hybrid_cache_capacity(2 * (1 << 20)),
         )
-        .syntax(
-            regex_automata::util::syntax::Config::default()
-                .dot_matches_new_line(false)
-                .unicode(true),
-        )
+        .syntax(syntax_config())
         .build(converted_pattern)
         .map_err(|regex_err| {
             if regex_err.size_limit().is_some() {
-- 
2.43.0


From ec2ac492ad231f6d8d41e855b85fb40de4ea1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 04/13] fix: escaped non-ASCII whitespace is not ignored by the
 x flag

---
 sds/src/normalization/rust_regex_adapter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 01cb4c8..282cad3 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -438,7 +438,10 @@ fn convert_literal(literal: Literal, kind: LiteralKind) -> RegexLiteral {
         // used in a bracketed character class, all whitespace is hex encoded to ensure it
         // is never ignored.
         RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
-    } else if kind == LiteralKind::Normal && ASCII_WHITESPACE_CHARS.contains(&literal.c) {
+    } else if kind == LiteralKind::Normal
+        && (ASCII_WHITESPACE_CHARS.contains(&literal.c)
+            || (literal.escaped && literal.c.is_whitespace()))
+    {
         // The HexBrace kind is usually preferred since it makes whitespace characters easier
         // to read, but escaping whitespace can change the behavior of the `x` (extended / verbose)
         // flag, so the format is kept for those
-- 
2.43.0


From ab7107fbb4b8aa002bd7fd11d18c432d131701bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 05/13] fix: quantifiers larger than u32 are rejected instead
 of taken literally

---
 sds/src/parser/regex_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sds/src/parser/regex_parser.rs b/sds/src/parser/regex_parser.rs
index 391d042..5099790 100644
--- a/sds/src/parser/regex_parser.rs
+++ b/sds/src/parser/regex_parser.rs
@@ -525,8 +525,9 @@ fn hex_digit(input: Input) -> ParseResult<char> {
 
 fn integer(input: Input) -> ParseResult<u32> {
     let (input, digits) = digit1(input)?;
-    let value =
-        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
+    // Only digits were parsed, so this can only fail if the value is too large. It saturates so
+    // it's still recognized as a quantifier (and then rejected since it's above the limit).
+    let value = u32::from_str(digits.value).unwrap_or(u32::MAX);
     Ok((input, value))
 }
 
-- 
2.43.0


From 3de5f7da49cc4c1a82516d18a09c8fb3b045e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 06/13] fix: a quantifier after $ or \Z applies to the whole
 assertion

---
 sds/src/normalization/rust_regex_adapter.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sds/src/normalization/rust_regex_adapter.rs b/sds/src/normalization/rust_regex_adapter.rs
index 282cad3..d9fbac9 100644
--- a/sds/src/normalization/rust_regex_adapter.rs
+++ b/sds/src/normalization/rust_regex_adapter.rs
@@ -119,7 +119,20 @@ fn convert_ast(sds_ast: &SdsAst) -> Result<RegexAst, ParseError> {
                 },
             },
             greedy: !repetition.quantifier.lazy,
-            ast: Box::new(convert_ast(&repetition.inner)?),
+            ast: Box::new(match repetition.inner.as_ref() {
+                // These are converted to multiple items, which need to be repeated as a whole
+                SdsAst::Assertion(
+                    SdsAssertionType::EndLine | SdsAssertionType::EndTextOptionalNewline,
+                ) => RegexAst::Group(RegexGroup {
+                    span: span(),
+                    kind: RegexGroupKind::NonCapturing(RegexFlags {
+                        span: span(),
+                        items: vec![],
+                    }),
+                    ast: Box::new(convert_ast(&repetition.inner)?),
+                }),
+                inner => convert_ast(inner)?,
+            }),
         }),
         SdsAst::Assertion(assertion_type) => match assertion_type {
             SdsAssertionType::WordBoundary => {
-- 
2.43.0


From 4205978ebf96410b7d9b1f8940d64243b2a751b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 07/13] fix: path standardization finds the last character of
 non-ASCII names

The position of the last character was computed from the length in bytes, so
a name with a multi-byte character lost (or gained) a word separator and
keywords in the path were missed.
---
 sds/src/proximity_keywords/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index 40cdf98..b221018 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -326,7 +326,7 @@ where
         return;
     };
 
-    let kw_length = characters.len();
+    let kw_length = characters.chars().count();
 
     let mut previous = char;
     for (i, current) in characters_iter.enumerate() {
-- 
2.43.0


From 6dc5d9a364085ea6255bf377bffa0059d0f320aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 08/13] fix: rule patterns and keyword patterns do not share
 memoized regexes

Keyword patterns are compiled case-insensitively and without the validation of
rule patterns, but both were memoized under the pattern text alone, so what a
rule matched depended on which scanners existed before.
---
 sds/src/proximity_keywords/mod.rs    | 11 +++++++++--
 sds/src/scanner/regex_rule/config.rs |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sds/src/proximity_keywords/mod.rs b/sds/src/proximity_keywords/mod.rs
index b221018..6b6f04b 100644
--- a/sds/src/proximity_keywords/mod.rs
+++ b/sds/src/proximity_keywords/mod.rs
@@ -230,8 +230,15 @@ fn compile_keywords(
         .syntax(regex_automata::util::syntax::Config::default().case_insensitive(true));
 
     Ok(Some((
-        get_memoized_regex(&content_pattern, |p| regex_builder.build(p)).unwrap(),
-        get_memoized_regex(&path_pattern, |p| regex_builder.build(p)).unwrap(),
+        // The prefix keeps keyword patterns apart from rule patterns, which are built differently
+        get_memoized_regex(&format!("keywords:{content_pattern}"), |_| {
+            regex_builder.build(&content_pattern)
+        })
+        .unwrap(),
+        get_memoized_regex(&format!("keywords:{path_pattern}"), |_| {
+            regex_builder.build(&path_pattern)
+        })
+        .unwrap(),
     )))
 }
 
diff --git a/sds/src/scanner/regex_rule/config.rs b/sds/src/scanner/regex_rule/config.rs
index c855fff..c3ea3c8 100644
--- a/sds/src/scanner/regex_rule/config.rs
+++ b/sds/src/scanner/regex_rule/config.rs
@@ -95,7 +95,10 @@ impl RuleConfig for RegexRuleConfig {
         rule_index: usize,
         scanner_labels: Labels,
     ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
-        let regex = get_memoized_regex(&self.pattern, validate_and_create_regex)?;
+        // The prefix keeps rule patterns apart from the (case-insensitive) keyword patterns
+        let regex = get_memoized_regex(&format!("rule:{}", self.pattern), |_| {
+            validate_and_create_regex(&self.pattern)
+        })?;
         self.match_action.validate()?;
 
         let rule_labels = scanner_labels.clone_with_labels(self.labels.clone());
-- 
2.43.0


From 504723a8bb224a28e42073062ee175f1b8ef2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:14 +0000
Subject: [PATCH 09/13] fix: validate_matches keeps matches of rules without
 match validation

---
 sds/src/scanner/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sds/src/scanner/mod.rs b/sds/src/scanner/mod.rs
index 6572883..f0ce774 100644
--- a/sds/src/scanner/mod.rs
+++ b/sds/src/scanner/mod.rs
@@ -394,6 +394,8 @@ impl Scanner {
         }
         // Create MatchValidatorRuleMatch per match_validator_type to pass it to each match_validator
         let mut match_validator_rule_match_per_type = AHashMap::new();
+        // Matches of rules without a match validation type are returned as they are
+        let mut unvalidated_rule_matches = Vec::new();
         for rule_match in rule_matches.drain(..) {
             let rule = &self.rules[rule_match.rule_index];
             if let Some(match_validation_type) = rule.get_internal_match_validation_type() {
@@ -404,6 +406,8 @@ impl Scanner {
                     .get_mut(match_validation_type)
                     .unwrap()
                     .push(rule_match);
+            } else {
+                unvalidated_rule_matches.push(rule_match);
             }
         }
 
@@ -420,6 +424,7 @@ impl Scanner {
         );
 
         // Refill the rule_matches with the validated matches
+        rule_matches.append(&mut unvalidated_rule_matches);
         for (_, mut matches) in match_validator_rule_match_per_type {
             rule_matches.append(&mut matches);
         }
-- 
2.43.0


From d7ca9ad90f37efe2fb321b3fbe882d4b9037d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:24 +0000
Subject: [PATCH 10/13] fix: candidates outside the keyword prefix are not
 excluded matches

In an excluded path every candidate of the pattern was saved as an excluded
match, even without an included keyword before it, and equal real matches in
other paths were then dropped as false positives.
---
 sds/src/scanner/regex_rule/compiled.rs | 104 +++++++++++++------------
 1 file changed, 56 insertions(+), 48 deletions(-)

diff --git a/sds/src/scanner/regex_rule/compiled.rs b/sds/src/scanner/regex_rule/compiled.rs
index 9623b3e..09405f5 100644
--- a/sds/src/scanner/regex_rule/compiled.rs
+++ b/sds/src/scanner/regex_rule/compiled.rs
@@ -77,16 +77,16 @@ impl CompiledRule for RegexCompiledRule {
                 );
             }
             None => {
-                let true_positive_search = self.true_positive_matches(
-                    content,
-                    0,
-                    regex_caches.get(&self.regex),
-                    true,
-                    exclusion_check,
-                    excluded_matches,
-                );
+                let true_positive_search =
+                    self.true_positive_matches(content, 0, regex_caches.get(&self.regex), true);
                 for string_match in true_positive_search {
-                    match_emitter.emit(string_match);
+                    self.emit_or_exclude(
+                        content,
+                        string_match,
+                        exclusion_check,
+                        excluded_matches,
+                        match_emitter,
+                    );
                 }
             }
         }
@@ -134,16 +134,16 @@ impl RegexCompiledRule {
     ) {
         if true_positive_rule_idx.contains(&self.rule_index) {
             // since the path contains a match, we can skip future included keyword checks
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
+            let true_positive_search =
+                self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
             for string_match in true_positive_search {
-                match_emitter.emit(string_match);
+                self.emit_or_exclude(
+                    content,
+                    string_match,
+                    exclusion_check,
+                    excluded_matches,
+                    match_emitter,
+                );
             }
             return;
         }
@@ -158,8 +158,6 @@ impl RegexCompiledRule {
                 included_keyword_match_start,
                 regex_caches.get(&self.regex),
                 false,
-                exclusion_check,
-                excluded_matches,
             );
 
             for true_positive_match in true_positive_search {
@@ -174,7 +172,13 @@ impl RegexCompiledRule {
                     // is used instead of the end since the included keyword can overlap with
                     // a previous match (maybe this can be removed in the future?)
                     included_keyword_matches.skip_to(true_positive_match.start);
-                    match_emitter.emit(true_positive_match);
+                    self.emit_or_exclude(
+                        content,
+                        true_positive_match,
+                        exclusion_check,
+                        excluded_matches,
+                        match_emitter,
+                    );
 
                     // Continue search since another true positive could potentially be found within the same prefix
                 } else {
@@ -220,29 +224,45 @@ impl RegexCompiledRule {
                 return;
             }
 
-            let true_positive_search = self.true_positive_matches(
-                content,
-                0,
-                regex_caches.get(&self.regex),
-                false,
-                exclusion_check,
-                excluded_matches,
-            );
+            let true_positive_search =
+                self.true_positive_matches(content, 0, regex_caches.get(&self.regex), false);
 
             for string_match in true_positive_search {
-                match_emitter.emit(string_match);
+                self.emit_or_exclude(
+                    content,
+                    string_match,
+                    exclusion_check,
+                    excluded_matches,
+                    match_emitter,
+                );
             }
         }
     }
 
+    /// Emits a match, unless it is in an excluded path. Matches from excluded paths are saved and
+    /// used to treat additional equal matches as false positives. They are checked against this
+    /// `excluded_matches` set after all scanning has been done.
+    fn emit_or_exclude(
+        &self,
+        content: &str,
+        string_match: StringMatch,
+        exclusion_check: &ExclusionCheck<'_>,
+        excluded_matches: &mut AHashSet<String>,
+        match_emitter: &mut dyn MatchEmitter,
+    ) {
+        if exclusion_check.is_excluded(self.rule_index) {
+            excluded_matches.insert(content[string_match.start..string_match.end].to_string());
+        } else {
+            match_emitter.emit(string_match);
+        }
+    }
+
     fn true_positive_matches<'a>(
         &'a self,
         content: &'a str,
         start: usize,
         cache: &'a mut Cache,
         check_excluded_keywords: bool,
-        exclusion_check: &'a ExclusionCheck<'a>,
-        excluded_matches: &'a mut AHashSet<String>,
     ) -> TruePositiveSearch<'a> {
         TruePositiveSearch {
             rule: self,
@@ -250,8 +270,6 @@ impl RegexCompiledRule {
             start,
             cache,
             check_excluded_keywords,
-            exclusion_check,
-            excluded_matches,
         }
     }
 }
@@ -262,8 +280,6 @@ pub struct TruePositiveSearch<'a> {
     start: usize,
     cache: &'a mut Cache,
     check_excluded_keywords: bool,
-    exclusion_check: &'a ExclusionCheck<'a>,
-    excluded_matches: &'a mut AHashSet<String>,
 }
 
 impl<'a> Iterator for TruePositiveSearch<'a> {
@@ -293,18 +309,10 @@ impl<'a> Iterator for TruePositiveSearch<'a> {
                     // The next match will start at the end of this match. This is fine because
                     // patterns that can match empty matches are rejected.
                     self.start = regex_match.end();
-
-                    if self.exclusion_check.is_excluded(self.rule.rule_index) {
-                        // Matches from excluded paths are saved and used to treat additional equal matches as false positives.
-                        // Matches are checked against this `excluded_matches` set after all scanning has been done.
-                        self.excluded_matches
-                            .insert(self.content[regex_match.range()].to_string());
-                    } else {
-                        return Some(StringMatch {
-                            start: regex_match.start(),
-                            end: regex_match.end(),
-                        });
-                    }
+                    return Some(StringMatch {
+                        start: regex_match.start(),
+                        end: regex_match.end(),
+                    });
                 }
             } else {
                 return None;
-- 
2.43.0


From 993e7438ac9239ce7de95230f37d00bed43f3e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:24 +0000
Subject: [PATCH 11/13] fix: matches in JSON numbers and booleans do not panic
 the scan

---
 sds/src/event_json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sds/src/event_json.rs b/sds/src/event_json.rs
index 3b56401..c5e65e8 100644
--- a/sds/src/event_json.rs
+++ b/sds/src/event_json.rs
@@ -56,6 +56,13 @@ impl Event for serde_json::Value {
             serde_json::Value::String(s) => {
                 (visit)(s);
             }
+            serde_json::Value::Bool(_) | serde_json::Value::Number(_) => {
+                // These are visited as strings, and become one once they are modified
+                let mut s = value.to_string();
+                if (visit)(&mut s) {
+                    *value = serde_json::Value::String(s);
+                }
+            }
             _ => panic!("unknown value"),
         };
     }
-- 
2.43.0


From ce7a686e607a33b1511f97119c6767311625cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:21 +0000
Subject: [PATCH 12/13] fix: HTTP match validation uses the configuration of
 the rule that matched

Validators are shared by all rules with the same endpoints, and the first
rule's headers, method, timeout and status codes were used for all of them.
---
 sds/src/match_validation/http_validator.rs | 38 +++++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/sds/src/match_validation/http_validator.rs b/sds/src/match_validation/http_validator.rs
index 19d2e59..9f3eb92 100644
--- a/sds/src/match_validation/http_validator.rs
+++ b/sds/src/match_validation/http_validator.rs
@@ -1,5 +1,5 @@
 use super::{
-    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, RequestHeader},
+    config::{HttpValidatorConfig, HttpValidatorConfigBuilder, MatchValidationType, RequestHeader},
     match_validator::MatchValidator,
 };
 use crate::{match_validation::config::HttpMethod, CompiledRuleDyn, MatchStatus, RuleMatch};
@@ -21,16 +21,35 @@ impl HttpValidator {
     pub fn new_from_config(config: HttpValidatorConfig) -> Self {
         HttpValidator { config }
     }
-    fn handle_reqwest_response(&self, match_status: &mut MatchStatus, val: &Response) {
+    /// A validator is shared by all rules with the same endpoints, the rest of the configuration
+    /// is the one of the rule that matched.
+    fn rule_config<'a>(
+        &'a self,
+        rule_match: &RuleMatch,
+        scanner_rules: &'a [Box<dyn CompiledRuleDyn>],
+    ) -> &'a HttpValidatorConfig {
+        match scanner_rules
+            .get(rule_match.rule_index)
+            .and_then(|rule| rule.get_match_validation_type())
+        {
+            Some(MatchValidationType::CustomHttp(config)) => config,
+            _ => &self.config,
+        }
+    }
+    fn handle_reqwest_response(
+        config: &HttpValidatorConfig,
+        match_status: &mut MatchStatus,
+        val: &Response,
+    ) {
         // First check if this is in the valid status ranges
-        for valid_range in &self.config.valid_http_status_code {
+        for valid_range in &config.valid_http_status_code {
             if valid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Valid;
                 return;
             }
         }
         // Next check if this is in the invalid status ranges
-        for invalid_range in &self.config.invalid_http_status_code {
+        for invalid_range in &config.invalid_http_status_code {
             if invalid_range.contains(&val.status().as_u16()) {
                 *match_status = MatchStatus::Invalid;
                 return;
@@ -99,7 +118,7 @@ impl HttpValidatorHelper {
 }
 
 impl MatchValidator for HttpValidator {
-    fn validate(&self, matches: &mut Vec<RuleMatch>, _: &[Box<dyn CompiledRuleDyn>]) {
+    fn validate(&self, matches: &mut Vec<RuleMatch>, scanner_rules: &[Box<dyn CompiledRuleDyn>]) {
         // build a map of match status per endpoint and per match_idx
         let mut match_status_per_endpoint_and_match: AHashMap<_, _> = matches
             .iter()
@@ -114,25 +133,26 @@ impl MatchValidator for HttpValidator {
 
         match_status_per_endpoint_and_match.par_iter_mut().for_each(
             |((match_idx, endpoint), match_status)| {
+                let config = self.rule_config(&matches[*match_idx], scanner_rules);
                 let match_value = matches[*match_idx].match_value.as_ref().unwrap();
-                let mut request_builder = match self.config.method {
+                let mut request_builder = match config.method {
                     HttpMethod::Get => BLOCKING_HTTP_CLIENT.get(*endpoint),
                     HttpMethod::Post => BLOCKING_HTTP_CLIENT.post(*endpoint),
                     HttpMethod::Put => BLOCKING_HTTP_CLIENT.put(*endpoint),
                     HttpMethod::Delete => BLOCKING_HTTP_CLIENT.delete(*endpoint),
                     HttpMethod::Patch => BLOCKING_HTTP_CLIENT.patch(*endpoint),
                 };
-                request_builder = request_builder.timeout(self.config.options.timeout);
+                request_builder = request_builder.timeout(config.options.timeout);
 
                 // Add headers
-                for header in &self.config.request_header {
+                for header in &config.request_header {
                     request_builder = request_builder
                         .header(&header.key, &header.get_value_with_match(match_value));
                 }
                 let res = request_builder.send();
                 match res {
                     Ok(val) => {
-                        self.handle_reqwest_response(match_status, &val);
+                        Self::handle_reqwest_response(config, match_status, &val);
                     }
                     Err(err) => {
                         // TODO(trosenblatt) emit a metrics for this
-- 
2.43.0


From e13bd2f8f7b0841d57968889bebffe01eccd205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 13/13] fix: count the cache size of new regexes in
 scanner.total_regex_cache_size

The gauge was only ever decreased (when a regex left the store), so it was
zero or negative.
---
 sds/src/scanner/regex_rule/regex_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sds/src/scanner/regex_rule/regex_store.rs b/sds/src/scanner/regex_rule/regex_store.rs
index 24d9681..1d50b53 100644
--- a/sds/src/scanner/regex_rule/regex_store.rs
+++ b/sds/src/scanner/regex_rule/regex_store.rs
@@ -127,10 +127,12 @@ impl RegexStore {
             let shared_regex = Arc::new(regex);
 
             let regex_cache = shared_regex.create_cache();
+            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
             let cache_key = self.key_map.insert(WeakSharedRegex {
                 regex: Arc::downgrade(&shared_regex),
-                cache_size: regex_cache.memory_usage() + std::mem::size_of::<Cache>(),
+                cache_size,
             });
+            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
             if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                 // cleanup old value (which must be a "dead" reference since `get` returned None)
                 if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
-- 
2.43.0

