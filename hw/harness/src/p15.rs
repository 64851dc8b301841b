//! P15: match validation keeps every match and gives it the best outcome of its requests.
use super::common::*;
use super::sym;
use dd_sds::*;
use reqwest::Recorded;
use std::sync::Arc;

static mut LOG: Vec<(Recorded, Option<u16>)> = Vec::new();
/// Only one code of each class, for runs with many requests
static mut FEW: bool = false;
/// Any status code, or a transport error.
fn handler(r: &Recorded) -> Option<u16> {
    let out = if unsafe { FEW } {
        [None, Some(200), Some(403), Some(500)][sym::choose("outcome", 4)]
    } else if sym::flag("transport") {
        None
    } else {
        let c = sym::u16("code");
        sym::assume((c >= 100) & (c < 600));
        Some(c)
    };
    unsafe { LOG.push((r.clone(), out)) };
    out
}
fn log() -> &'static [(Recorded, Option<u16>)] {
    unsafe { &LOG }
}
fn start() {
    unsafe {
        LOG.clear();
        FEW = false;
        reqwest::HANDLER = Some(handler)
    }
}
/// 0: nothing known, 2: invalid, 3: error, 4: valid
fn rank(s: &MatchStatus) -> usize {
    match s {
        MatchStatus::NotChecked => 0,
        MatchStatus::NotAvailable => 1,
        MatchStatus::Invalid => 2,
        MatchStatus::Error(_) => 3,
        MatchStatus::Valid => 4,
    }
}
fn http(endpoint: &str, hosts: &[&str], valid: std::ops::Range<u16>, invalid: std::ops::Range<u16>) -> MatchValidationType {
    let mut b = HttpValidatorConfigBuilder::new(endpoint.to_string());
    b.set_hosts(hosts.iter().map(|h| h.to_string()).collect());
    b.set_valid_http_status_code(vec![valid, 302..304]);
    b.set_invalid_http_status_code(vec![invalid, 350..360]);
    b.set_request_header(vec![
        RequestHeader { key: "k".into(), value: "<$MATCH:$MATCH>".into() },
        RequestHeader { key: "u".into(), value: "v".into() },
    ]);
    b.set_method(HttpMethod::Put);
    b.set_timeout(std::time::Duration::from_secs(7));
    MatchValidationType::CustomHttp(b.build().unwrap())
}
fn rm(rule: usize, start: usize, tag: usize, status: MatchStatus) -> RuleMatch {
    RuleMatch {
        rule_index: rule,
        path: Path::from(vec![PathSegment::Index(tag)]),
        replacement_type: ReplacementType::Hash,
        start_index: start,
        end_index_exclusive: start + 1 + tag,
        shift_offset: tag as isize,
        match_value: Some(format!("m{}", tag)),
        match_status: status,
    }
}
fn tag(m: &RuleMatch) -> usize {
    match m.path.segments[0] {
        PathSegment::Index(i) => i,
        _ => 99,
    }
}
/// The same matches as before, ordered by start, only the status may differ.
fn kept(before: &[(usize, usize)], after: &[RuleMatch]) {
    sym::check(after.len() == before.len(), 1);
    for w in after.windows(2) {
        sym::check(w[0].start_index <= w[1].start_index, 2);
    }
    for (t, (rule, start)) in before.iter().enumerate() {
        let same: Vec<&RuleMatch> = after.iter().filter(|m| tag(m) == t).collect();
        sym::check(same.len() == 1, 3);
        let m = same[0];
        sym::check((m.rule_index == *rule) & (m.start_index == *start) & (m.end_index_exclusive == start + 1 + t) & (m.shift_offset == t as isize), 4);
        sym::check(m.replacement_type == ReplacementType::Hash && m.match_value == Some(format!("m{}", t)), 5);
    }
}
/// params: matches, endpoints (1..=3), symbolic status ranges (1) or the defaults (0)
pub fn p15_http() {
    let (n, ne, ranges) = (sym::param(0), sym::param(1), sym::param(2) == 1);
    start();
    let hosts = &["h0", "h1", "h2"][..ne];
    let (va, vb, ia, ib) = if ranges { (sym::u16("va"), sym::u16("vb"), sym::u16("ia"), sym::u16("ib")) } else { (200, 300, 400, 500) };
    let rules: Vec<Arc<dyn RuleConfig>> = vec![
        RegexRuleConfig::new("a").match_validation_type(http("https://$HOST/x", hosts, va..vb, ia..ib)).build(),
        RegexRuleConfig::new("b").build(),
    ];
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    let mut before = vec![];
    let mut list = vec![];
    for t in 0..n {
        let r = sym::choose("rule", 2);
        let s = sym::below("start", 4);
        before.push((r, s));
        list.push(rm(r, s, t, if r == 0 { MatchStatus::NotChecked } else { MatchStatus::NotAvailable }));
    }
    let res = scanner.validate_matches(&mut list);
    sym::check(res.is_ok(), 6);
    kept(&before, &list);
    // every match of the validated rule is tried once against every endpoint
    let https = before.iter().filter(|b| b.0 == 0).count();
    sym::check(log().len() == https * ne, 7);
    for m in &list {
        let t = tag(m);
        let value = format!("<m{}:m{}>", t, t);
        let mut best = if before[t].0 == 0 { 0 } else { 1 };
        for h in hosts {
            let url = format!("https://{}/x", h);
            let rs: Vec<_> = log().iter().filter(|(r, _)| r.url == url && r.headers.iter().any(|x| x.0 == "k" && x.1 == value)).collect();
            sym::check(rs.len() == (before[t].0 == 0) as usize, 8);
            for (r, out) in rs {
                sym::check(r.method == "PUT" && r.headers.len() == 2 && r.headers[1].0 == "u" && r.headers[1].1 == "v", 9);
                sym::check(r.timeout == Some(std::time::Duration::from_secs(7)), 10);
                let o = match out {
                    None => 3,
                    Some(c) => {
                        if ((*c >= va) & (*c < vb)) | ((*c >= 302) & (*c < 304)) {
                            4
                        } else if ((*c >= ia) & (*c < ib)) | ((*c >= 350) & (*c < 360)) {
                            2
                        } else {
                            3
                        }
                    }
                };
                if o > best {
                    best = o;
                }
            }
        }
        sym::check(rank(&m.match_status) == best, 11);
        sym::cover_if(best == 4, 1);
        sym::cover_if(best == 2, 2);
        sym::cover_if(best == 3, 3);
        sym::cover_if(best == 1, 4);
    }
}
/// Key pairs. params: matches, kinds of rules (4: all; 2: key ids and secrets only, four outcomes)
pub fn p15_aws() {
    let (n, kinds) = (sym::param(0), sym::param(1));
    start();
    unsafe { FEW = kinds == 2 };
    let secret = MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig { aws_sts_endpoint: "https://sts".into(), forced_datetime_utc: None, timeout: std::time::Duration::from_secs(3) }));
    let rules: Vec<Arc<dyn RuleConfig>> = vec![
        RegexRuleConfig::new("a").match_validation_type(MatchValidationType::Aws(AwsType::AwsId)).build(),
        RegexRuleConfig::new("b").match_validation_type(secret).build(),
        RegexRuleConfig::new("c").match_validation_type(MatchValidationType::Aws(AwsType::AwsSession)).build(),
        RegexRuleConfig::new("d").build(),
    ];
    sym::clock(1_700_000_000, 0);
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    let secrets: Vec<String> = (0..n).map(|t| format!("{}", (b'A' + t as u8) as char).repeat(40)).collect();
    let mut before = vec![];
    let mut list = vec![];
    for t in 0..n {
        let r = sym::choose("rule", kinds);
        let s = if kinds == 4 { sym::below("start", 4) } else { t };
        before.push((r, s));
        let mut m = rm(r, s, t, if r == 3 { MatchStatus::NotAvailable } else { MatchStatus::NotChecked });
        if r == 1 {
            m.match_value = Some("key=".to_string() + &secrets[t]);
        }
        list.push(m);
    }
    let res = scanner.validate_matches(&mut list);
    sym::check(res.is_ok(), 6);
    for m in list.iter_mut() {
        let t = tag(m);
        if before[t].0 == 1 {
            sym::check(m.match_value == Some("key=".to_string() + &secrets[t]), 12);
            m.match_value = Some(format!("m{}", t));
        }
    }
    kept(&before, &list);
    let mut best: Vec<usize> = before.iter().map(|b| (b.0 == 3) as usize).collect();
    let mut pairs = 0;
    let mut open = false;
    for i in 0..n {
        for j in 0..n {
            if before[i].0 != 0 || before[j].0 != 1 {
                continue;
            }
            pairs += 1;
            let sig = format!("m{}|{}", i, secrets[j]);
            let rs: Vec<_> = log().iter().filter(|(r, _)| r.headers.iter().any(|h| h.0 == "authorization" && h.1 == sig)).collect();
            sym::check(rs.len() == 1, 8);
            let (r, out) = rs[0];
            sym::check(r.method == "POST" && r.url == "https://sts", 9);
            sym::check(r.body == "Action=GetCallerIdentity&Version=2011-06-15", 10);
            let o = match out {
                None => 3,
                Some(c) => {
                    if (*c >= 200) & (*c < 300) {
                        4
                    } else if (*c >= 400) & (*c < 500) {
                        2
                    } else if *c >= 500 {
                        3
                    } else {
                        // informational and redirect codes are left open
                        open = true;
                        0
                    }
                }
            };
            for k in [i, j] {
                if o > best[k] {
                    best[k] = o;
                }
            }
        }
    }
    sym::check(log().len() == pairs, 7);
    if open {
        return;
    }
    for m in &list {
        let t = tag(m);
        sym::check(rank(&m.match_status) == best[t], 11);
        sym::cover_if(best[t] == 4, 1);
        sym::cover_if(best[t] == 2, 2);
        sym::cover_if(best[t] == 3, 3);
        sym::cover_if(best[t] == 0, 4);
    }
}
/// Scanning: the value of a match is kept for validation exactly when some rule can be validated.
/// params: characters, max width, mode (0: nothing to validate, 1: http rule, 2: aws id only, 3: aws secret)
pub fn p15_scan() {
    let (n, maxw, mode) = (sym::param(0), sym::param(1), sym::param(2));
    start();
    let secret = MatchValidationType::Aws(AwsType::AwsSecret(AwsConfig::default()));
    let mut r0 = RegexRuleConfig::new("[0-9]+").match_action(redact("##"));
    match mode {
        1 => r0 = r0.match_validation_type(http("https://x", &[], 200..300, 400..500)),
        2 => r0 = r0.match_validation_type(MatchValidationType::Aws(AwsType::AwsId)),
        3 => r0 = r0.match_validation_type(secret),
        _ => (),
    }
    let rules = [r0.build(), RegexRuleConfig::new("[a-z]").build()];
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    let text = sym::text(n, maxw, "text");
    let mut ev = text.clone();
    let mut got = scanner.scan(&mut ev, vec![]);
    let c: Vec<char> = text.chars().collect();
    let b = boundaries(&text);
    let mut want: Vec<(usize, usize, usize)> = vec![];
    let mut i = 0;
    while i < n {
        let s = i;
        while i < n && c[i].is_ascii_digit() {
            i += 1;
        }
        if i > s {
            want.push((0, b[s], b[i]));
            continue;
        }
        if c[i].is_ascii_lowercase() {
            want.push((1, b[i], b[i + 1]));
        }
        i += 1;
    }
    sym::check(got.len() == want.len(), 20);
    let values = (mode == 1) | (mode == 3);
    for (g, w) in got.iter().zip(&want) {
        sym::check(g.rule_index == w.0, 21);
        match &g.match_value {
            Some(v) => sym::check(values && sym::same(v.as_bytes(), text[w.1..w.2].as_bytes()), 22),
            None => sym::check(!values, 23),
        }
        sym::check(rank(&g.match_status) == if w.0 == 0 && mode != 0 { 0 } else { 1 }, 24);
        sym::cover(1);
    }
    let before = got.len();
    let first: Vec<(usize, usize, usize)> = got.iter().map(|g| (g.rule_index, g.start_index, rank(&g.match_status))).collect();
    let r = scanner.validate_matches(&mut got);
    sym::check(r.is_ok() == values, 25);
    sym::check(got.len() == before, 26);
    if !values {
        // nothing can be validated: the list is untouched
        for (g, f) in got.iter().zip(&first) {
            sym::check((g.rule_index == f.0) & (g.start_index == f.1) & (rank(&g.match_status) == f.2), 27);
        }
        sym::check(log().is_empty(), 28);
        sym::cover(2);
    }
}
/// Two rules that are validated at the same endpoint, each in its own way. params: matches
pub fn p15_pair() {
    let n = sym::param(0);
    start();
    let cfg = |k: usize| {
        let mut b = HttpValidatorConfigBuilder::new("https://one/x".to_string());
        b.set_valid_http_status_code(vec![[200..300, 201..202][k].clone()]);
        b.set_invalid_http_status_code(vec![[400..500, 100..150][k].clone()]);
        b.set_request_header(vec![RequestHeader { key: ["k", "token"][k].into(), value: ["<$MATCH>", "$MATCH"][k].into() }]);
        b.set_method([HttpMethod::Put, HttpMethod::Delete][k].clone());
        b.set_timeout(std::time::Duration::from_secs([7, 9][k]));
        MatchValidationType::CustomHttp(b.build().unwrap())
    };
    let rules: Vec<Arc<dyn RuleConfig>> =
        vec![RegexRuleConfig::new("a").match_validation_type(cfg(0)).build(), RegexRuleConfig::new("b").match_validation_type(cfg(1)).build()];
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    let mut before = vec![];
    let mut list = vec![];
    for t in 0..n {
        let r = sym::choose("rule", 2);
        before.push((r, t));
        list.push(rm(r, t, t, MatchStatus::NotChecked));
    }
    sym::check(scanner.validate_matches(&mut list).is_ok(), 6);
    kept(&before, &list);
    sym::check(log().len() == n, 7);
    for m in &list {
        let t = tag(m);
        let r = before[t].0;
        let (name, value) = if r == 0 { ("k", format!("<m{}>", t)) } else { ("token", format!("m{}", t)) };
        let rs: Vec<_> = log().iter().filter(|(q, _)| q.headers.iter().any(|x| x.0 == name && x.1 == value)).collect();
        sym::check(rs.len() == 1, 30);
        let (q, out) = rs[0];
        sym::check(q.method == ["PUT", "DELETE"][r] && q.headers.len() == 1 && q.url == "https://one/x", 31);
        sym::check(q.timeout == Some(std::time::Duration::from_secs([7, 9][r])), 32);
        let want = match out {
            None => 3,
            Some(c) => {
                let (va, vb, ia, ib) = [(200, 300, 400, 500), (201, 202, 100, 150)][r];
                if (*c >= va) & (*c < vb) {
                    4
                } else if (*c >= ia) & (*c < ib) {
                    2
                } else {
                    3
                }
            }
        };
        sym::check(rank(&m.match_status) == want, 33);
        sym::cover_if(r == 1 && want == 4, 1);
        sym::cover_if(r == 1 && want == 2, 2);
    }
}
