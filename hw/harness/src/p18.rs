//! P18: rule configurations and their JSON form.
use super::common::*;
use super::kw::keywords;
use super::sym;
use dd_sds::*;
use std::borrow::Cow;
use std::sync::Arc;
use std::time::Duration;

fn f(s: &str) -> PathSegment<'static> {
    PathSegment::Field(Cow::Owned(s.to_string()))
}
fn validator(k: usize) -> (Option<SecondaryValidator>, &'static str) {
    use SecondaryValidator::*;
    match k {
        0 => (None, ""),
        1 => (Some(LuhnChecksum), "LuhnChecksum"),
        2 => (Some(ChineseIdChecksum), "ChineseIdChecksum"),
        3 => (Some(GithubTokenChecksum), "GithubTokenChecksum"),
        4 => (Some(NhsCheckDigit), "NhsCheckDigit"),
        5 => (Some(IbanChecker), "IbanChecker"),
        6 => (Some(NirChecksum), "NirChecksum"),
        _ => (Some(JwtExpirationChecker), "JwtExpirationChecker"),
    }
}
const COUNTS: [usize; 4] = [1, 9, 10, u32::MAX as usize];
fn action(k: usize, s: &str) -> MatchAction {
    match k {
        0 => MatchAction::None,
        1 => redact(s),
        2 => MatchAction::Hash,
        #[allow(deprecated)]
        3 => MatchAction::Utf16Hash,
        _ => partial(k == 4, COUNTS[sym::choose("count", COUNTS.len())]),
    }
}
fn path(s: &str) -> Path<'static> {
    match sym::choose("path", 3) {
        0 => Path::from(vec![]),
        1 => Path::from(vec![f(s)]),
        _ => Path::from(vec![f("a"), PathSegment::Index([0, 305, usize::MAX][sym::choose("index", 3)]), f(s)]),
    }
}
fn scope(s: &str) -> Scope {
    match sym::choose("scope", 4) {
        0 => Scope::all(),
        1 => Scope::exclude(vec![path(s), path("b")]),
        2 => Scope::include(vec![path(s)]),
        _ => Scope::include_and_exclude(vec![path("b"), path("c")], vec![path(s)]),
    }
}
fn http(s: &str) -> MatchValidationType {
    let mut b = HttpValidatorConfigBuilder::new("https://$HOST/x".to_string());
    b.set_hosts(vec!["h".to_string(), s.to_string()]);
    b.set_method([HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Delete, HttpMethod::Patch][sym::choose("method", 5)].clone());
    b.set_valid_http_status_code(vec![200..300, 100..101]);
    b.set_invalid_http_status_code(vec![[400..500, 0..65535][sym::choose("range", 2)].clone()]);
    b.set_request_header(vec![RequestHeader { key: s.to_string(), value: format!("$MATCH{s}") }]);
    b.set_timeout(Duration::new(7, 9));
    MatchValidationType::CustomHttp(b.build().unwrap())
}
/// Written and read back: nothing is lost.
/// params: characters, max width, part with symbolic content (0: pattern, 1: action, 2: scope, 3: keywords,
/// 4: validator, 5: labels, 6: match validation, 7: all parts present)
pub fn p18_roundtrip() {
    let (n, w, part) = (sym::param(0), sym::param(1), sym::param(2));
    let s = sym::text(n, w, "text");
    let mut c = RegexRuleConfig::new("a");
    let all = part == 7;
    if part == 0 {
        c = c.pattern(s.clone());
    }
    if part == 1 || all {
        c = c.match_action(action(sym::choose("action", 6), &s));
    }
    if part == 2 || all {
        c = c.scope(if all { Scope::include_and_exclude(vec![Path::from(vec![f(&s)])], vec![Path::from(vec![PathSegment::Index(3)])]) } else { scope(&s) });
    }
    if part == 3 || all {
        let la = [0, 1, 50, usize::MAX][sym::choose("la", 4)];
        c = match sym::choose("kw", 3) {
            0 => c.proximity_keywords(keywords(la, &[&s, "k"], &[])),
            1 => c.proximity_keywords(keywords(la, &[], &["x", &s])),
            _ => c.proximity_keywords(keywords(la, &[&s], &[&s])),
        };
    }
    if part == 4 || all {
        let v = validator(sym::choose("validator", 8)).0;
        if let Some(v) = v {
            c = c.validator(v);
        }
    }
    if part == 5 || all {
        let l: Vec<(String, String)> = vec![("k".into(), s.clone()), (s.clone(), "".into())];
        c = c.labels(Labels::new(&l));
    }
    if part == 6 {
        c = match sym::choose("mv", 4) {
            0 => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsId)),
            1 => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsSession)),
            2 => c.match_validation_type(MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: s.clone(), forced_datetime_utc: None, timeout: Duration::from_millis(1500) }))),
            _ => c.match_validation_type(http(&s)),
        };
    }
    let text = serde_json::to_string(&c).unwrap();
    match serde_json::from_str::<RegexRuleConfig>(&text) {
        Ok(d) => {
            sym::check(sym::same(d.pattern.as_bytes(), c.pattern.as_bytes()), 1);
            sym::check(d.match_action == c.match_action, 2);
            sym::check(d.scope == c.scope, 3);
            sym::check(d.proximity_keywords == c.proximity_keywords, 4);
            sym::check(d.validator == c.validator, 5);
            sym::check(d.labels == c.labels, 6);
            sym::check(d.match_validation_type == c.match_validation_type, 7);
            sym::check(d == c, 8);
        }
        Err(_) => sym::check(false, 9),
    }
    // every parameter that was set is in the configuration
    let b = c.clone();
    sym::check(b == c, 10);
    sym::cover(1);
}
/// A JSON string literal: as it is (style 0) or with \\u escapes (style 1, ASCII only).
fn quote(s: &str, style: usize) -> String {
    let mut o = vec![b'"'];
    for c in s.bytes() {
        if style == 1 {
            o.extend_from_slice(b"\\u00");
            for d in [c >> 4, c & 15] {
                o.push(b'0' + d + (d > 9) as u8 * 39);
            }
        } else {
            sym::assume((c >= b' ') & (c != b'"') & (c != b'\\'));
            o.push(c);
        }
    }
    o.push(b'"');
    unsafe { String::from_utf8_unchecked(o) }
}
/// Optional member: absent, null or given.
fn opt(name: &str, value: &str) -> (String, bool) {
    match sym::choose("opt", 3) {
        0 => (String::new(), false),
        1 => (format!(",\"{name}\":null"), false),
        _ => (format!(",\"{name}\":{value}"), true),
    }
}
fn seg(p: &PathSegment) -> String {
    match p {
        PathSegment::Field(x) => format!("{{\"type\":\"Field\",\"value\":\"{x}\"}}"),
        PathSegment::Index(i) => format!("{{\"value\":{i},\"type\":\"Index\"}}"),
    }
}
/// The documented JSON form, as the Go binding sends it.
/// params: characters, max width, escape style, part (0: action, 1: keywords, 2: validator and labels, 3: scope, 4: match validation)
pub fn p18_wire() {
    let (n, w, style, part) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
    let s = sym::text(n, w, "text");
    let q = quote(&s, style);
    let mut want = RegexRuleConfig::new(&s);
    let mut json = format!("{{\"id\":\"x\",\"pattern\":{q}");
    let mut act = "{\"type\":\"None\",\"match_action\":\"None\"}".to_string();
    match part {
        0 => {
            let k = sym::choose("action", 6);
            want = want.match_action(action(k, &s));
            act = match &want.match_action {
                MatchAction::None => act,
                MatchAction::Redact { .. } => format!("{{\"match_action\":\"Redact\",\"replacement\":{q},\"type\":\"Redact\"}}"),
                MatchAction::Hash => "{\"match_action\":\"Hash\",\"type\":\"Hash\"}".into(),
                MatchAction::PartialRedact { direction, character_count } => format!(
                    "{{\"character_count\":{character_count},\"direction\":\"{}\",\"match_action\":\"PartialRedact\",\"type\":\"PartialRedact\"}}",
                    if *direction == PartialRedactDirection::FirstCharacters { "FirstCharacters" } else { "LastCharacters" }
                ),
                _ => "{\"type\":\"Utf16Hash\"}".into(),
            };
        }
        1 => {
            let la = [0, 7, 50, u32::MAX as usize][sym::choose("la", 4)];
            let (i, hi) = opt("included_keywords", &format!("[{q},\"k\"]"));
            let (e, he) = opt("excluded_keywords", &format!("[\"x\",{q}]"));
            let (k, hk) = opt("proximity_keywords", &format!("{{\"look_ahead_character_count\":{la}{i}{e}}}"));
            json += &k;
            if hk {
                let (a, b): ([&str; 2], [&str; 2]) = ([&s, "k"], ["x", &s]);
                want = want.proximity_keywords(keywords(la, if hi { &a } else { &[] }, if he { &b } else { &[] }));
            }
        }
        2 => {
            let (v, name) = validator(1 + sym::choose("validator", 7));
            let (t, has) = opt("validator", &format!("{{\"type\":\"{name}\"}}"));
            json += &t;
            if has {
                want = want.validator(v.unwrap());
            }
            let (t, has) = opt("labels", &format!("[[\"k\",{q}]]"));
            json += &t;
            if has {
                want = want.labels(Labels::new(&[("k".to_string(), s.clone())]));
            }
        }
        3 => {
            let p: Vec<PathSegment<'static>> = vec![f("a"), PathSegment::Index(305), f("b")];
            let segs: Vec<String> = p.iter().map(seg).collect();
            let one = format!("{{\"segments\":[{}]}}", segs.join(","));
            let root = "{\"segments\":[]}";
            let (t, sc) = match sym::choose("scope", 4) {
                0 => (String::new(), Scope::all()),
                1 => (format!(",\"scope\":{{\"type\":\"Exclude\",\"paths\":[{one},{root}]}}"), Scope::exclude(vec![Path::from(p), Path::from(vec![])])),
                2 => (format!(",\"scope\":{{\"type\":\"Include\",\"paths\":{{\"include\":[{root},{one}],\"exclude\":[]}}}}"), Scope::include(vec![Path::from(vec![]), Path::from(p)])),
                _ => (format!(",\"scope\":{{\"paths\":{{\"exclude\":[{one}],\"include\":[]}},\"type\":\"Include\"}}"), Scope::include_and_exclude(vec![], vec![Path::from(p)])),
            };
            json += &t;
            want = want.scope(sc);
        }
        _ => {
            let (t, mv) = match sym::choose("mv", 4) {
                0 => ("{\"Aws\":\"AwsId\"}".to_string(), MatchValidationType::Aws(AwsType::AwsId)),
                1 => ("{\"Aws\":\"AwsSession\"}".to_string(), MatchValidationType::Aws(AwsType::AwsSession)),
                2 => (
                    format!("{{\"Aws\":{{\"AwsSecret\":{{\"aws_sts_endpoint\":{q},\"forced_datetime_utc\":null,\"timeout\":{{\"secs\":3,\"nanos\":5}}}}}}}}"),
                    MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: s.clone(), forced_datetime_utc: None, timeout: Duration::new(3, 5) })),
                ),
                _ => (
                    format!("{{\"CustomHttp\":{{\"endpoints\":[{q}],\"method\":\"Patch\",\"request_header\":[{{\"key\":\"k\",\"value\":{q}}}],\"valid_http_status_code\":[{{\"start\":200,\"end\":299}}],\"invalid_http_status_code\":[],\"options\":{{\"timeout\":{{\"secs\":7,\"nanos\":0}}}}}}}}"),
                    MatchValidationType::CustomHttp({
                        let mut b = HttpValidatorConfigBuilder::new("x".into());
                        b.set_method(HttpMethod::Patch);
                        b.set_valid_http_status_code(vec![200..299]);
                        b.set_invalid_http_status_code(vec![]);
                        b.set_timeout(Duration::from_secs(7));
                        b.set_request_header(vec![RequestHeader { key: "k".into(), value: s.clone() }]);
                        let mut c = b.build().unwrap();
                        c.endpoints = vec![s.clone()];
                        c
                    }),
                ),
            };
            let (t, has) = opt("match_validation_type", &t);
            json += &t;
            if has {
                want = want.match_validation_type(mv);
            }
        }
    }
    json += &format!(",\"match_action\":{act}}}");
    match serde_json::from_str::<RegexRuleConfig>(&json) {
        Ok(d) => {
            sym::check(sym::same(d.pattern.as_bytes(), s.as_bytes()), 1);
            sym::check(d.match_action == want.match_action, 2);
            sym::check(d.scope == want.scope, 3);
            sym::check(d.proximity_keywords == want.proximity_keywords, 4);
            sym::check(d.validator == want.validator, 5);
            sym::check(d.labels == want.labels, 6);
            sym::check(d.match_validation_type == want.match_validation_type, 7);
        }
        Err(_) => sym::check(false, 9),
    }
    sym::cover(1);
}
/// A rule read from JSON, used as it is, scans like the rule it describes.
/// params: characters
pub fn p18_scan() {
    let n = sym::param(0);
    let json = r#"{"pattern":"[0-9]","match_action":{"type":"PartialRedact","direction":"FirstCharacters","character_count":2},"scope":{"type":"Exclude","paths":[{"segments":[{"type":"Field","value":"b"}]}]},"proximity_keywords":{"look_ahead_character_count":2,"included_keywords":["k"]}}"#;
    let c: RegexRuleConfig = serde_json::from_str(json).unwrap();
    let arc: Arc<dyn RuleConfig> = if sym::flag("build") { c.build() } else { Arc::new(c) };
    let scanner = ScannerBuilder::new(&[arc]).build().unwrap();
    let t = sym::ascii_of(n, "text", |c| (c == b'k') | (c == b' ') | (c == b'7') | (c == b'x'));
    let name = ["a", "b"][sym::choose("field", 2)];
    let mut m = std::collections::BTreeMap::new();
    m.insert(name.to_string(), SimpleEvent::String(t.clone()));
    let mut ev = SimpleEvent::Map(m);
    let got = scanner.scan(&mut ev, vec![]);
    let c: Vec<char> = t.chars().collect();
    let mut want = String::new();
    let mut hits = 0;
    for i in 0..n {
        let lo = if i >= 2 { i - 2 } else { 0 };
        let hit = name == "a" && c[i] == '7' && (lo..i).any(|j| super::kw::occurs(&c, n, j, &['k']));
        if hit {
            want.push_str("**");
            hits += 1;
        } else {
            want.push(c[i]);
        }
    }
    sym::check(got.len() == hits, 1);
    match &ev {
        SimpleEvent::Map(m) => match m.get(name) {
            Some(SimpleEvent::String(o)) => sym::check(sym::same(o.as_bytes(), want.as_bytes()), 2),
            _ => sym::check(false, 3),
        },
        _ => sym::check(false, 4),
    }
    sym::cover_if(hits > 0, 1);
    sym::cover_if(hits == 0, 2);
}
/// ('@': the symbolic character, the only value of it with which the text is acceptable)
const REFUSED: [(&str, char); 13] = [
    (r#"{"patter@":"a","match_action":{"type":"Hash"}}"#, 'n'),
    (r#"{"pattern":"a","match_actio@":{"type":"Hash"}}"#, 'n'),
    (r#"{"pattern":"a","match_action":{"typ@":"Hash"}}"#, 'e'),
    (r#"{"pattern":"a","match_action":{"type":"Has@"}}"#, 'h'),
    (r#"{"pattern":"a","match_action":{"type":"Redac@","replacement":"x"}}"#, 't'),
    (r#"{"pattern":"a","match_action":{"type":"Redact","replacemen@":"x"}}"#, 't'),
    (r#"{"pattern":"a","match_action":{"type":"PartialRedact","direction":"FirstCharacter@","character_count":1}}"#, 's'),
    (r#"{"pattern":"a","match_action":{"type":"PartialRedact","direction":"LastCharacters","character_coun@":1}}"#, 't'),
    (r#"{"pattern":"a","match_action":{"type":"Hash"},"validator":{"type":"LuhnChecksu@"}}"#, 'm'),
    (r#"{"pattern":"a","match_action":{"type":"Hash"},"proximity_keywords":{"look_ahead_character_coun@":3}}"#, 't'),
    (r#"{"pattern":"a","match_action":{"type":"Hash"},"scope":{"type":"Exclud@","paths":[]}}"#, 'e'),
    (r#"{"pattern":"a","match_action":{"type":"Hash"},"scope":{"type":"Exclude","paths":[{"segments":[{"type":"Inde@","value":3}]}]}}"#, 'x'),
    (r#"{"pattern":"a","match_action":{"type":"Hash"},"match_validation_type":{"Aws":"AwsI@"}}"#, 'd'),
];
/// Forms that describe no rule are refused: no part is guessed.
pub fn p18_refuse() {
    let (t, ok) = REFUSED[sym::choose("form", REFUSED.len())];
    let c = sym::ascii_of(1, "c", |c| (c >= b' ') & (c != b'"') & (c != b'\\'));
    let json = t.replace('@', &c);
    let good = c.as_bytes()[0] == ok as u8;
    sym::check(serde_json::from_str::<RegexRuleConfig>(&json).is_ok() == good, 1);
    sym::cover_if(good, 1);
    sym::cover_if(!good, 2);
    // labels are pairs
    let k = sym::choose("arity", 4);
    let json = format!(r#"{{"pattern":"a","match_action":{{"type":"Hash"}},"labels":[["a","b"],[{}]]}}"#, vec!["\"x\""; k].join(","));
    sym::check(serde_json::from_str::<RegexRuleConfig>(&json).is_ok() == (k == 2), 2);
}
