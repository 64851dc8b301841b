prop("P05", "Included keywords: a match is reported iff a keyword precedes it closely",
     "With included keywords, a pattern match is reported if and only if some included keyword starts within the look_ahead_character_count characters (not bytes) before the match's start, ends before the match, and stands at word boundaries at its alphanumeric ends, case-insensitively; excluded keywords then have no influence. Keyword lists are refused when the look-ahead is 0 or above 50, there are more than 50 keywords, or a keyword is blank or longer than the look-ahead. Exempt: a keyword occurrence that overlaps an earlier match of the rule.",
     ["inputs", "configurations"], "all texts, keyword lists, look-ahead distances",
     "The search alternates between keyword and pattern and skips ahead; off-by-one distances, multi-byte characters and re-used keywords only show on particular layouts.",
     ["sds/src/scanner/regex_rule/compiled.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/proximity_keywords/included_keywords.rs"],
     "interleaved keyword / pattern search with skip-ahead", "real scan on symbolic text against a per-token reference")
prop("P06", "Excluded keywords: a match is dropped iff a keyword precedes it closely",
     "Without included keywords, a pattern match is dropped if and only if some excluded keyword occurs within the look_ahead_character_count characters (not bytes) before the match's start, entirely before the match and at word boundaries at its alphanumeric ends, case-insensitively and ignoring '-' and '_' in both the keyword and the text. All other matches of the same text are unaffected. Left open: texts where '-' or '_' is the character just before the look-ahead window.",
     ["inputs", "configurations"], "all texts, keyword lists, look-ahead distances",
     "Window arithmetic over removed characters and multi-byte text; tests sample a few ASCII sentences.",
     ["sds/src/proximity_keywords/excluded_keywords.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/scanner/mod.rs"],
     "prefix window is cut, link characters are removed, keyword pattern is searched", "real scan on symbolic text against a per-token reference")
prop("P07", "Checksum validators accept exactly the numbers of their standard",
     "A match is kept by the Luhn, Chinese-ID, NIR and NHS validators if and only if its digits satisfy the published check-digit algorithm, with the digit count the standard fixes (18 for Chinese IDs, 15 for NIR with Corsican 2A/2B, 10 for NHS); separators inside the match are ignored where the format allows them. The validator never panics on any text, and a rejected candidate does not stop the search.",
     ["inputs"], "all digit strings and separators, every Unicode text",
     "Each checksum is a modular equation over many digits; sampling finds neither a wrong weight on one position in one residue class nor accepted wrong lengths.",
     ["sds/src/secondary_validation/luhn_checksum.rs", "sds/src/secondary_validation/chinese_id_checksum.rs", "sds/src/secondary_validation/nir_checksum.rs", "sds/src/secondary_validation/nhs_check_digit.rs", "sds/src/secondary_validation/mod.rs"],
     "digit-by-digit accumulation and final residue", "real validators on symbolic digits against the published equations")
prop("P08", "Token validators: GitHub checksum, IBAN, JWT expiry decided exactly",
     "A GitHub token is valid iff the part after its last '_' consists of more than six letters and digits whose last six are the zero-padded base-62 CRC-32 of the rest. An IBAN is valid iff, separators removed, it has its country's length and structure, its check digits are not 00 or 01, and the ISO 7064 residue is 1. A JWT is valid iff it has three parts of which the first two are unpadded URL-safe base64 of JSON, and its payload has no exp claim or an integer exp strictly later than the current second.",
     ["inputs"], "all tokens, all expiry values and instants",
     "Validity is an equation over the whole token or a comparison with the clock; boundary instants, leading-zero checksums and malformed segments are not sampled.",
     ["sds/src/secondary_validation/github_token_checksum.rs", "sds/src/secondary_validation/iban_checker.rs", "sds/src/secondary_validation/jwt_expiration_checker.rs"],
     "split, decode, compare", "real validators on symbolic tokens and instants against the published definitions")
prop("P09", "Pattern validation accepts exactly the dialect, and never an empty match",
     "Every pattern text is either accepted or refused with the reason that applies (syntax, nesting deeper than 49 groups, a counted repetition above 3000, can match emptily, too complex); validation never panics, and validate_regex and scanner creation agree. No accepted pattern ever produces an empty match on any text, and scanning with it terminates.",
     ["inputs", "configurations"], "all pattern texts, all scanned texts",
     "The grammar has many interacting constructs (escapes, classes, braces that are literals, flags, boundaries); tests list a few dozen patterns.",
     ["sds/src/validation.rs", "sds/src/parser/regex_parser.rs", "sds/src/normalization/rust_regex_adapter.rs"],
     "hand-written parser, conversion, empty-match and size limits", "real validation on symbolic pattern text against an independent reference parser")
prop("P10", "Accepted patterns match what the dialect says, converted faithfully",
     "Scanning with an accepted pattern reports exactly the successive leftmost matches of the pattern under the documented dialect: PCRE-style syntax with ASCII-only \\d \\w \\s \\b and POSIX classes, \\h \\v \\Q..\\E \\cX \\x{..} escapes, inline flags i m s x, greedy and lazy quantifiers; '$' and '\\Z' also accept (and then include) one newline before the end.",
     ["inputs", "configurations"], "all patterns of the dialect, all texts",
     "Conversion is syntax to syntax: a missing escape or group changes the meaning of only some combinations of constructs.",
     ["sds/src/normalization/rust_regex_adapter.rs", "sds/src/parser/regex_parser.rs", "sds/src/validation.rs"],
     "AST conversion and printing as another regex dialect", "real scanner on symbolic patterns and texts against a reference backtracking matcher")
prop("P11", "Binary events: the bindings' protocol loses and invents nothing",
     "An event sent in the documented binary encoding (fields, indices, strings; big-endian lengths) is scanned exactly like the tree it describes, invalid UTF-8 being read as replacement characters unless the caller vouches for the strings. The encoded response is absent when there is no match; otherwise it decodes to every match once (rule, path text, replacement type, start, end, shift) and to every string that was changed once, with its path and its complete new content, and to no other change. Lengths, indices and rule numbers survive at any magnitude up to 32 bits.",
     ["inputs", "configurations"], "all event trees with distinct paths, all byte contents, any mix of mutating and report-only rules",
     "Tests encode two or three small events; a length or index that needs a second byte, an invalid sequence or an unmutated sibling only shows on particular events.",
     ["sds-bindings-utils/src/binary_encoding.rs", "sds/src/path.rs", "sds/src/rule_match.rs"],
     "tag-length-value walk with a storage of strings that may change; response encoder", "real BinaryEvent, scan and encode_response on symbolic events against a reference encoder and decoder")
prop("P12", "Keywords in the field path justify a match, and only those",
     "With keyword matching on paths enabled, every match in a string is reported without a keyword in the text if and only if an included keyword occurs, case-insensitively and at word boundaries, in the field names of its path joined by '.', after separators (- _ . space /) between words and camel-case word starts are unified in both path and keyword (the first and last character of a name are kept as they are); excluded keywords have no influence. With the feature disabled paths never matter.",
     ["inputs", "configurations"], "all paths (field names of any characters, list indices) and keyword lists",
     "Standardisation depends on the neighbours of every character and on name ends; tests list a dozen names.",
     ["sds/src/proximity_keywords/mod.rs", "sds/src/path.rs", "sds/src/scoped_ruleset/mod.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/proximity_keywords/included_keywords.rs"],
     "path sanitisation, keyword path pattern, per-path cache of rules found", "real scan of events with symbolic field names against a per-character reference")
prop("P13", "Rules of one scanner are independent up to overlap resolution",
     "Scanning with several rules reports, for every string, exactly the matches each rule reports in a scanner of its own, combined by the documented overlap resolution, under their own rule index, with the text redacted accordingly; blocked rules behave as if they were absent. Order, equal patterns, keywords, validators and scopes of other rules have no influence. (Multi-pass exclusion, P16, is switched off here.)",
     ["inputs", "configurations"], "all texts of several fields, for rule sets mixing patterns, keywords, validators, scopes and actions",
     "Shared caches, shared regexes and per-event state couple rules; tests mostly use one rule.",
     ["sds/src/scanner/mod.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scoped_ruleset/mod.rs"],
     "one visitor runs all rules over each string with shared caches", "self-composition: the scan with all rules against one scan per rule, on symbolic texts")
prop("P14", "Results depend on rules and event only, not on the process's history",
     "What a scanner accepts, matches and redacts is determined by its rules and the event: it does not depend on which scanners were created, used or dropped before or still exist (shared compiled regexes, their clean-up, caches, keyword patterns), nor on the events the scanner processed before; and existing scanners keep answering for their own rules.",
     ["histories", "inputs"], "all histories of creating, scanning with and dropping scanners; all texts",
     "Tests run every scanner once in a fresh order; a stale cache slot or a shared memo needs a particular history.",
     ["sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scanner/regex_rule/config.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/scanner/mod.rs"],
     "process-wide weak store of compiled regexes, slot keys and per-thread caches", "symbolic history followed by real scans against a reference that knows no history")
prop("P15", "Match validation keeps every match and gives it its best outcome",
     "validate_matches keeps every match, changing nothing but its status, ordered by start. A match of an HTTP-validated rule is tried once per endpoint with its own rule's method, headers ($MATCH substituted) and timeout; its status becomes the best outcome over the endpoints: valid, else error, else invalid, by the rule's status ranges. Every AWS key id is tried once with every AWS secret, and both get the best outcome of their pairs. Other matches are untouched. Match values are recorded by the scan only if something can be validated; otherwise validation is refused and nothing changes.",
     ["inputs", "schedules", "configurations"], "all match lists, status codes and transport failures per request",
     "Outcomes of several requests are merged by priority; tests use single responses of a mock server.",
     ["sds/src/scanner/mod.rs", "sds/src/match_validation/http_validator.rs", "sds/src/match_validation/aws_validator.rs", "sds/src/match_validation/config.rs", "sds/src/rule_match.rs"],
     "grouping by validator, one request per endpoint or pair, merge by priority", "real validate_matches with an HTTP client stand-in whose answers are symbolic")
prop("P16", "Values matched in excluded fields are false positives elsewhere",
     "With multi-pass exclusion (default), a match is dropped if and only if its exact text was also a match of some rule in a field that rule's scope excludes, anywhere in the same event, before or after it; a candidate that is no match there (no keyword nearby) does not count. Dropped matches do not take part in overlap resolution. With the feature off nothing is dropped. Blocked rules neither report nor exclude.",
     ["inputs", "configurations", "histories"], "all events, scopes, rule pairs and visiting orders",
     "The effect couples two fields and depends on equality of arbitrary texts; tests show one event.",
     ["sds/src/scanner/mod.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/scoped_ruleset/mod.rs"],
     "set of excluded match texts filled during the walk, applied afterwards", "real scan of symbolic multi-field events against a reference")
prop("P17", "Event types: every string is visited once under its path, redacted in place",
     "Scanning a SimpleEvent, a JSON value or a map of JSON values reports every match of every contained string (JSON numbers and booleans count by their text) with the path that leads to it, and redaction replaces exactly the strings with redacted matches (a redacted number or boolean becomes a string) while the rest of the tree, including empty containers and nulls, is unchanged; report-only scans change nothing. No event panics.",
     ["inputs"], "all trees up to the bound, all keys and contents",
     "Tests use one tree per event type; a wrong sibling, index or leaf kind needs a particular shape.",
     ["sds/src/event.rs", "sds/src/event_json.rs", "sds/src/simple_event.rs", "sds/src/path.rs"],
     "recursive visit with a path stack, second visit by path", "real scan of symbolic trees against a reference on a tree model")
prop("P18", "Rule configurations survive JSON; documented JSON is read as described",
     "A rule configuration written as JSON and read back is equal to the original in every part (pattern, action, scope, keywords, validator, match validation, labels), whatever the strings and numbers in it. The documented JSON form, as the Go binding sends it, gives the rule it describes, in any member order and string escaping; absent or null optional members mean their defaults and unknown members are ignored. Text with a misspelt or missing required member or tag, or a label that is not a pair, is refused: no part of a rule is guessed. A rule read from JSON scans like the rule it describes.",
     ["inputs", "configurations"], "all strings in every position of the configuration, all combinations of present, null and absent members",
     "Rules reach the library as JSON; a lost or renamed member silently weakens a rule, and tests deserialise a few fixed texts.",
     ["sds/src/scanner/regex_rule/config.rs", "sds/src/match_action.rs", "sds/src/scoped_ruleset/mod.rs", "sds/src/scanner/scope.rs", "sds/src/path.rs", "sds/src/secondary_validation", "sds/src/match_validation/config.rs", "sds-go/go/rule.go"],
     "derived and hand-written serde implementations with tags, defaults and flattened parts", "real serialisation and deserialisation of configurations with symbolic content, compared with the original and with the intended configuration")
prop("P19", "Go native interface: scanners own their rules, responses and codes are exact",
     "Through the exported C functions of the Go binding, in any order of calls on live handles: handles are positive; a scanner has exactly the rules its list held when it was created, in that order, whatever is appended or freed afterwards, and keeps working until it is deleted; freeing frees each thing once and releases it. create_scanner with a rule that must be refused returns the code of its error (-2 regex, -3 keywords, -4 match action) wherever the rule is in the list, and its flag decides whether keywords count in field names. scan leaves the caller's buffer alone and returns the complete response with its exact size, or a null pointer with sizes 0 when nothing matched, also for strings that are not UTF-8.",
     ["histories", "inputs"], "all sequences of calls on live handles up to the bound, all events",
     "Raw pointers cross the language border; a lost reference or a wrong length shows only after a particular order of calls. No Rust test runs these functions.",
     ["sds-go/rust/src/native/rule.rs", "sds-go/rust/src/native/create_scanner.rs", "sds-go/rust/src/native/delete_scanner.rs", "sds-go/rust/src/native/scan.rs", "sds-go/rust/src/native/mod.rs", "sds/src/scanner/error.rs"],
     "reference-counted handles passed as integers", "real exported functions under symbolic call histories, with freed memory poisoned and double frees reported")
prop("P20", "Metrics say what happened",
     "With a metrics recorder installed, for every scanner under its own labels: scanned_events counts its scans and scanning.match_count the matches they returned; false_positive.multipass.excluded_match counts, per rule and with the scanner's and the rule's labels, the matches dropped by multi-pass exclusion, and false_positive.proximity_keywords (type excluded_keywords) the candidates suppressed by an excluded keyword. Nothing is counted under other labels. scanner.creations, scanner.deletions and scanner.total_count count the scanners created, dropped and alive, refused ones not at all; scanner.total_regexes covers the distinct patterns in use, and scanner.total_regex_cache_size is positive while there are any and never negative.",
     ["inputs", "histories"], "all texts of two fields over two events; all histories of creating and dropping scanners up to the bound",
     "Alerts and rule quality reports are built on these counters; tests check three counters with the value 1.",
     ["sds/src/scanner/metrics.rs", "sds/src/stats.rs", "sds/src/observability/labels.rs", "sds/src/scanner/mod.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/scanner/regex_rule/config.rs", "sds/src/scanner/regex_rule/regex_store.rs", "sds/src/proximity_keywords/mod.rs"],
     "counters of the metrics crate incremented along the scan", "real scans under a recorder that keeps every counter, compared with reference counts")
prop("P21", "Scanners can be created, used and dropped from several threads at once",
     "When several threads create scanners (also from equal patterns, and refused ones), scan with their own or with one shared scanner, and drop scanners at the same time, every thread gets exactly the results it would get alone, nothing panics and nothing waits forever; afterwards every scanner still alive and every new one works as if nothing had happened, and the counters of scanner creations, deletions, live scanners and scanned events have lost no update. This includes the moments when the store of compiled regexes is first used and when it is cleaned.",
     ["schedules", "histories"], "all interleavings with at most the stated number of preemptions, for all combinations of thread jobs",
     "The regex store, the cache pool and the statistics are shared by the whole process; a race needs one particular interleaving, and the tests have no concurrent one.",
     ["sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scanner/regex_rule/regex_cache_store.rs", "sds/src/scanner/shared_pool.rs", "sds/src/scanner/mod.rs", "sds/src/stats.rs"],
     "locks released between lookup and insertion, weak references, atomics", "real code run as threads under a symbolic schedule: preemption points before atomic operations, context bound, deadlock detection; counterexample schedules replayed natively with real threads")
