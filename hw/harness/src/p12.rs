//! P12: included keywords found in the field's path.
use super::common::*;
use super::kw::*;
use super::sym;
use dd_sds::*;
use std::borrow::Cow;

const SETS: [&[&str]; 7] = [&["ab"], &["a-b"], &["aB", "_x"], &["a b/C"], &["\u{e9}", "b\u{e9}a"], &["AB-"], &["d a"]];
fn sep(c: char) -> bool {
    (c == '-') | (c == '_') | (c == '.') | (c == ' ') | (c == '/')
}
/// Words of a name are linked by '.': a separator between words becomes '.', a capital letter
/// starting a word gets one in front. The first and the last character stand for themselves.
fn standardize(c: &[char]) -> Vec<char> {
    let mut out = vec![];
    for i in 0..c.len() {
        let x = c[i];
        if i > 0 && i + 1 < c.len() {
            let p = c[i - 1];
            if sep(x) && !sep(p) {
                out.push('.');
                continue;
            }
            if x.is_ascii_uppercase() && !sep(p) && !p.is_ascii_uppercase() {
                out.push('.');
            }
        }
        out.push(x);
    }
    out
}
enum Seg {
    F(String),
    I(usize),
}
fn owned(s: &Seg) -> PathSegment<'static> {
    match s {
        Seg::F(f) => PathSegment::Field(Cow::Owned(f.clone())),
        Seg::I(i) => PathSegment::Index(*i),
    }
}
fn in_path(p: &[Seg], kws: &[&str]) -> bool {
    let mut out: Vec<char> = vec![];
    let mut first = true;
    for s in p {
        if let Seg::F(f) = s {
            if !first {
                out.push('.');
            }
            let c: Vec<char> = f.chars().collect();
            out.extend(standardize(&c));
        }
        first = false;
    }
    kws.iter().any(|k| {
        let kc: Vec<char> = k.chars().collect();
        let kc = standardize(&kc);
        (0..out.len()).any(|i| occurs(&out, out.len(), i, &kc))
    })
}
/// An event with a string at every prefix of a path.
struct Chain(Vec<Seg>, Vec<String>);
impl Event for Chain {
    type Encoding = Utf8Encoding;
    fn visit_event<'p>(&'p mut self, v: &mut impl EventVisitor<'p>) {
        let _ = v.visit_string(&self.1[0]);
        for (s, t) in self.0.iter().zip(&self.1[1..]) {
            v.push_segment(owned(s));
            let _ = v.visit_string(t);
        }
        for _ in &self.0 {
            v.pop_segment();
        }
    }
    fn visit_string_mut(&mut self, p: &Path, mut f: impl FnMut(&mut String) -> bool) {
        f(&mut self.1[p.len()]);
    }
}
/// params: segments, characters per field name, max width, keyword set, feature enabled (0/1)
pub fn p12_path() {
    let (segs, n, maxw, set, on) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4) == 1);
    let kws = SETS[set];
    let path: Vec<Seg> = (0..segs).map(|_| if segs > 1 && sym::flag("index") { Seg::I(sym::below("i", 3)) } else { Seg::F(if maxw == 0 { name(n) } else { sym::text(n, maxw, "name") }) }).collect();
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("[0-9]").match_action(redact("##")).proximity_keywords(keywords(10, kws, &["zz"])).build()])
        .with_keywords_should_match_event_paths(on)
        .build()
        .unwrap();
    // the root string and the leaf string: a digit that only the path can justify, and one after a keyword
    let text = "zz 7 ".to_string() + kws[0] + " 7";
    let root = "7".to_string();
    let mut texts = vec![root.clone()];
    for i in 0..segs {
        texts.push(if i + 1 == segs { text.clone() } else { root.clone() });
    }
    let mut ev = Chain(path, texts);
    let got = scanner.scan(&mut ev, vec![]);
    let mut k = 0;
    for i in 0..=segs {
        let hit = on && in_path(&ev.0[..i], kws);
        let leaf = i == segs;
        let mut want = String::new();
        let mut spans = vec![];
        if leaf {
            want.push_str("zz ");
            if hit {
                spans.push((3, 5));
            }
            want.push_str(if hit { "##" } else { "7" });
            want.push(' ');
            want.push_str(kws[0]);
            want.push(' ');
            spans.push((want.len(), want.len() + 2));
            want.push_str("##");
        } else {
            want.push_str(if hit { "##" } else { "7" });
            if hit {
                spans.push((0, 2));
            }
        }
        sym::check(sym::same(ev.1[i].as_bytes(), want.as_bytes()), 1);
        for (s, e) in spans {
            sym::check(k < got.len(), 2);
            sym::check((got[k].start_index == s) & (got[k].end_index_exclusive == e), 3);
            sym::check(got[k].path.len() == i, 4);
            k += 1;
        }
        sym::cover_if(hit && leaf, 1);
        sym::cover_if(!hit && leaf, 2);
    }
    sym::check(k == got.len(), 5);
}
/// characters that matter for the keyword sets
fn name(n: usize) -> String {
    sym::ascii_of(n, "name", |c| ((c | 32) >= b'a') & ((c | 32) <= b'd') & (c >= b'A') | (c == b'-') | (c == b'.') | (c == b'_'))
}
