//! P11: the binary event protocol used by the language bindings loses and invents nothing.
use super::common::*;
use super::sym;
use dd_sds::*;
use sds_bindings_utils::{encode_response, BinaryEvent};
use std::borrow::Cow;

pub enum T {
    S(Vec<u8>),
    L(Vec<T>),
    M(Vec<(Vec<u8>, T)>),
}
fn u32be(out: &mut Vec<u8>, n: usize) {
    out.push((n >> 24) as u8);
    out.push((n >> 16) as u8);
    out.push((n >> 8) as u8);
    out.push(n as u8);
}
/// The documented encoding of an event, as the bindings produce it.
pub fn encode(t: &T, out: &mut Vec<u8>) {
    match t {
        T::S(s) => {
            out.push(3);
            u32be(out, s.len());
            out.extend_from_slice(s);
        }
        T::L(v) => {
            for (i, x) in v.iter().enumerate() {
                out.push(1);
                u32be(out, i);
                encode(x, out);
                out.push(2);
            }
        }
        T::M(m) => {
            for (k, x) in m {
                out.push(0);
                u32be(out, k.len());
                out.extend_from_slice(k);
                encode(x, out);
                out.push(2);
            }
        }
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
pub type P = Vec<PathSegment<'static>>;
/// All strings of the event with their paths.
pub fn leaves(t: &T, path: &mut P, out: &mut Vec<(P, String)>) {
    match t {
        T::S(s) => out.push((path.clone(), text(s))),
        T::L(v) => {
            for (i, x) in v.iter().enumerate() {
                path.push(PathSegment::Index(i));
                leaves(x, path, out);
                path.pop();
            }
        }
        T::M(m) => {
            for (k, x) in m {
                path.push(PathSegment::Field(Cow::Owned(text(k))));
                leaves(x, path, out);
                path.pop();
            }
        }
    }
}
/// What the bindings read from a response.
pub struct Resp {
    pub mutations: Vec<(P, Vec<u8>)>,
    /// rule, path text, replacement type text, start, end, shift
    pub matches: Vec<(u32, Vec<u8>, Vec<u8>, u32, u32, i32)>,
}
struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn byte(&mut self) -> u8 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    fn num(&mut self) -> u32 {
        let mut r = 0u32;
        for _ in 0..4 {
            r = (r << 8) | self.byte() as u32;
        }
        r
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = sym::conc(self.num() as usize);
        let r = self.0[self.1..self.1 + n].to_vec();
        self.1 += n;
        r
    }
}
pub fn decode(b: &[u8]) -> Resp {
    let mut r = Rd(b, 0);
    let mut out = Resp { mutations: vec![], matches: vec![] };
    while r.1 < b.len() {
        match sym::conc(r.byte() as usize) {
            4 => {
                let mut p = vec![];
                loop {
                    match sym::conc(r.byte() as usize) {
                        0 => p.push(PathSegment::Field(Cow::Owned(text(&r.bytes())))),
                        1 => p.push(PathSegment::Index(r.num() as usize)),
                        3 => break,
                        _ => {
                            sym::check(false, 1);
                            return out;
                        }
                    }
                }
                let c = r.bytes();
                out.mutations.push((p, c));
            }
            5 => {
                let rule = r.num();
                let path = r.bytes();
                let kind = r.bytes();
                let (s, e, d) = (r.num(), r.num(), r.num() as i32);
                out.matches.push((rule, path, kind, s, e, d));
            }
            _ => {
                sym::check(false, 2);
                return out;
            }
        }
    }
    out
}
/// Reference text of a path.
fn path_text(p: &P) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            PathSegment::Field(f) => {
                if !s.is_empty() {
                    s.push('.');
                }
                s.push_str(f);
            }
            PathSegment::Index(i) => {
                s.push('[');
                s.push_str(&i.to_string());
                s.push(']');
            }
        }
    }
    s
}
fn kind_text(a: &MatchAction) -> &'static str {
    match kind(a) {
        ReplacementType::None => "none",
        ReplacementType::Placeholder => "placeholder",
        ReplacementType::Hash => "hash",
        ReplacementType::PartialStart => "partial_beginning",
        ReplacementType::PartialEnd => "partial_end",
    }
}
/// Two rules on disjoint characters: digits, and 'Z'.
pub fn naive(s: &str) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (i, c) in s.char_indices() {
        if c.is_ascii_digit() {
            v.push((0, i, i + 1));
        } else if c == 'Z' {
            v.push((1, i, i + 1));
        }
    }
    v
}
pub fn rules(acts: &[MatchAction]) -> Vec<std::sync::Arc<dyn RuleConfig>> {
    vec![
        RegexRuleConfig::new("[0-9]").match_action(acts[0].clone()).build(),
        RegexRuleConfig::new("Z").match_action(acts[1].clone()).build(),
    ]
}
pub fn compare(out: Option<&[u8]>, strings: &[(P, String)], acts: &[MatchAction], len: fn(&str) -> usize) {
    compare_with(out, strings, acts, len, &naive)
}
pub type Spans<'a> = dyn Fn(&str) -> Vec<(usize, usize, usize)> + 'a;
pub fn compare_with(out: Option<&[u8]>, strings: &[(P, String)], acts: &[MatchAction], len: fn(&str) -> usize, naive: &Spans) {
    let got = match out {
        Some(b) => decode(b),
        None => Resp { mutations: vec![], matches: vec![] },
    };
    let mut total = 0;
    let mut changed = 0;
    for (p, s) in strings {
        let ms = naive(s);
        let want = expect_apply(s, &ms, acts, len);
        total += ms.len();
        let mine: Vec<_> = got.mutations.iter().filter(|m| m.0 == *p).collect();
        if ms.iter().any(|m| mutating(&acts[m.0])) {
            changed += 1;
            sym::check(mine.len() == 1, 10);
            sym::check(sym::same(&mine[0].1, want.text.as_bytes()), 11);
        } else {
            // an unchanged string is not sent back as something else
            for m in &mine {
                sym::check(sym::same(&m.1, s.as_bytes()), 12);
            }
        }
        let pt = path_text(p);
        let hits: Vec<_> = got.matches.iter().filter(|m| sym::same(&m.1, pt.as_bytes())).collect();
        sym::check(hits.len() == ms.len(), 13);
        for (g, w) in hits.iter().zip(want.hits.iter()) {
            sym::check(g.0 as usize == w.0, 14);
            sym::check((g.3 as usize == w.1) & (g.4 as usize == w.2), 15);
            sym::check(g.5 as isize == w.3, 16);
            sym::check(sym::same(&g.2, kind_text(&acts[w.0]).as_bytes()), 17);
        }
    }
    sym::check(got.matches.len() == total, 18);
    sym::check(got.mutations.len() >= changed, 19);
    for m in &got.mutations {
        sym::check(strings.iter().any(|s| s.0 == m.0), 20);
    }
    sym::cover_if(total > 1, 1);
    sym::cover_if(total == 0, 2);
    sym::cover_if(changed > 0, 3);
}
/// String content: characters of up to `maxw` bytes, or (maxw 0) arbitrary bytes.
pub fn content(n: usize, maxw: usize) -> Vec<u8> {
    if maxw == 0 {
        sym::bytes(n, "raw")
    } else {
        sym::text(n, maxw, "text").into_bytes()
    }
}
fn key(i: usize, w: usize) -> Vec<u8> {
    if w == 0 && sym::flag("empty") {
        return vec![];
    }
    let mut s = String::new();
    if w > 1 {
        sym::push_char(&mut s, w, "key");
        s.push((b'a' + i as u8) as char);
        return s.into_bytes();
    }
    let b = sym::u8("key");
    // disjoint ranges keep names distinct; no path punctuation
    sym::assume((b >= [0x30, 0x41, 0x61][i]) & (b < [0x3a, 0x5b, 0x7b][i]));
    vec![b]
}
pub fn tree(shape: usize, n: usize, maxw: usize, kw: usize) -> T {
    let s = || T::S(content(n, maxw));
    match shape {
        0 => s(),
        1 => T::M(vec![(key(0, kw), s())]),
        2 => T::M(vec![(key(1, kw), s()), (key(0, kw), s())]),
        3 => T::L(vec![s(), s()]),
        4 => T::M(vec![(key(0, kw), T::L(vec![T::M(vec![(key(1, kw), s())]), s()]))]),
        5 => T::L(vec![T::L(vec![s()]), T::M(vec![(key(0, kw), T::M(vec![(key(1, kw), s())]))])]),
        6 => T::M(vec![(key(0, kw), T::L(vec![])), (key(1, kw), T::M(vec![(key(2, kw), s()), (key(0, kw), s())]))]),
        _ => T::L(vec![]),
    }
}
pub fn actions(k: usize) -> [MatchAction; 2] {
    match k {
        0 => [redact("##"), MatchAction::None],
        1 => [MatchAction::None, redact("")],
        2 => [partial(true, 2), partial(false, 1)],
        3 => [MatchAction::None, MatchAction::None],
        _ => [MatchAction::Hash, redact("")],
    }
}
/// params: shape, characters, max width (0: arbitrary bytes), key width, actions, flags (1: strings declared UTF-8, 2: UTF-16 indices)
pub fn p11_scan() {
    let (shape, n, maxw, kw, ac, fl) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4), sym::param(5));
    let acts = actions(ac);
    let t = tree(shape, n, maxw, kw);
    let mut b = vec![];
    encode(&t, &mut b);
    let mut strings = vec![];
    leaves(&t, &mut vec![], &mut strings);
    let scanner = ScannerBuilder::new(&rules(&acts)).build().unwrap();
    if fl & 2 == 0 {
        let mut ev = BinaryEvent::<Utf8Encoding>::new(b, fl & 1 == 1);
        let got = scanner.scan(&mut ev, vec![]);
        compare(encode_response(&ev.storage, &got).as_deref(), &strings, &acts, blen);
    } else {
        let mut ev = BinaryEvent::<Utf16Encoding>::new(b, fl & 1 == 1);
        let got = scanner.scan(&mut ev, vec![]);
        compare(encode_response(&ev.storage, &got).as_deref(), &strings, &acts, u16len);
    }
}
/// Large values: long strings and names, large indices, many rules.
/// params: string length, name length, rules
pub fn p11_large() {
    let (len, kl, rc) = (sym::param(0), sym::param(1), sym::param(2));
    let idx = [0usize, 1, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0xffff_ffff][sym::choose("index", 8)];
    let name = "n".repeat(kl);
    let mut s = "a".repeat(len);
    for _ in 0..2 {
        sym::push_char(&mut s, 1, "text");
    }
    // the only rules with matches are the first and the last
    let acts = [redact("##"), partial(true, 1)];
    let ms = naive(&s);
    let (mut m0, mut m1) = (vec![], vec![]);
    for m in &ms {
        if m.0 == 0 {
            m0.push((m.1, m.2));
        } else {
            m1.push((m.1, m.2));
        }
    }
    let mut rules = vec![emit_rule(acts[0].clone(), Scope::all(), m0)];
    for _ in 0..rc - 2 {
        rules.push(emit_rule(MatchAction::None, Scope::all(), vec![]));
    }
    rules.push(emit_rule(acts[1].clone(), Scope::all(), m1));
    let mut b = vec![0];
    u32be(&mut b, kl);
    b.extend_from_slice(name.as_bytes());
    b.push(1);
    u32be(&mut b, idx);
    encode(&T::S(s.clone().into_bytes()), &mut b);
    b.push(2);
    b.push(2);
    let p: P = vec![PathSegment::Field(Cow::Owned(name)), PathSegment::Index(idx)];
    let scanner = ScannerBuilder::new(&rules).build().unwrap();
    let mut ev = BinaryEvent::<Utf8Encoding>::new(b, false);
    let got = scanner.scan(&mut ev, vec![]);
    let out = encode_response(&ev.storage, &got);
    let mut r = match out {
        Some(b) => decode(&b),
        None => Resp { mutations: vec![], matches: vec![] },
    };
    // the compared rule numbers are 0 and 1
    for m in &mut r.matches {
        if m.0 as usize == rc - 1 {
            m.0 = 1;
        } else {
            sym::check(m.0 == 0, 30);
        }
    }
    let want = expect_apply(&s, &ms, &acts, blen);
    sym::check(r.matches.len() == ms.len(), 31);
    sym::check(r.mutations.len() == if ms.is_empty() { 0 } else { 1 }, 32);
    for m in &r.mutations {
        sym::check(m.0 == p, 33);
        sym::check(sym::same(&m.1, want.text.as_bytes()), 34);
    }
    let pt = path_text(&p);
    for (g, w) in r.matches.iter().zip(want.hits.iter()) {
        sym::check(g.0 as usize == w.0, 35);
        sym::check(sym::same(&g.1, pt.as_bytes()), 36);
        sym::check((g.3 as usize == w.1) & (g.4 as usize == w.2), 37);
        sym::check(g.5 as isize == w.3, 38);
        sym::check(sym::same(&g.2, kind_text(&acts[w.0]).as_bytes()), 39);
    }
    sym::cover_if(r.matches.len() == 2, 1);
    sym::cover_if(r.matches.is_empty(), 2);
}
