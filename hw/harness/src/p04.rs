//! P04: scopes decide which rules run on which field.
use super::common::*;
use super::sym;
use dd_sds::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
pub enum Seg {
    F(u8),
    I(u8),
}
fn seg(name: &str) -> Seg {
    if sym::flag("kind") {
        let b = sym::u8(name);
        sym::assume(b < 0x80);
        Seg::F(b)
    } else {
        Seg::I(sym::u8(name))
    }
}
fn owned(s: &Seg) -> PathSegment<'static> {
    match s {
        Seg::F(b) => PathSegment::Field(Cow::Owned(unsafe { String::from_utf8_unchecked(vec![*b]) })),
        Seg::I(i) => PathSegment::Index(*i as usize),
    }
}
fn path(p: &[Seg]) -> Path<'static> {
    Path::from(p.iter().map(owned).collect::<Vec<_>>())
}
fn eq(a: &Seg, b: &Seg) -> bool {
    match (a, b) {
        (Seg::F(x), Seg::F(y)) => x == y,
        (Seg::I(x), Seg::I(y)) => x == y,
        _ => false,
    }
}
/// Does scope path q cover field p (q is a prefix of p; with implicit wildcards, list indices of p
/// may be skipped, but an index right after a skipped one cannot be matched explicitly)?
fn covers(q: &[Seg], p: &[Seg], wild: bool) -> bool {
    let mut states = vec![(0usize, false)];
    if q.is_empty() {
        return true;
    }
    for s in p {
        let idx = matches!(s, Seg::I(_));
        let mut next = vec![];
        for (i, w) in states {
            if !(w && idx) && eq(&q[i], s) {
                if i + 1 == q.len() {
                    return true;
                }
                next.push((i + 1, false));
            }
            if wild && idx {
                next.push((i, true));
            }
        }
        states = next;
    }
    false
}
/// Event made of strings at given nested positions: [], [s0], [s0,s1], ... then [t0], [t0, t1] ...
struct TwoChains {
    a: Vec<Seg>,
    b: Vec<Seg>,
    common: usize,
}
impl TwoChains {
    fn go<'p>(segs: &[Seg], v: &mut impl EventVisitor<'p>) {
        if let Some((f, r)) = segs.split_first() {
            v.push_segment(owned(f));
            let _ = v.visit_string("x");
            Self::go(r, v);
            v.pop_segment();
        }
    }
}
impl Event for TwoChains {
    type Encoding = Utf8Encoding;
    fn visit_event<'p>(&'p mut self, v: &mut impl EventVisitor<'p>) {
        let _ = v.visit_string("x");
        for s in &self.a[..self.common] {
            v.push_segment(owned(s));
        }
        Self::go(&self.a[self.common..], v);
        Self::go(&self.b, v);
        for _ in 0..self.common {
            v.pop_segment();
        }
        let _ = v.visit_string("x");
    }
    fn visit_string_mut(&mut self, _p: &Path, _f: impl FnMut(&mut String) -> bool) {}
}
/// Records (rule, excluded) for every string in visiting order.
struct Probe {
    scope: Scope,
    idx: usize,
    log: Arc<Mutex<Vec<(usize, usize, bool)>>>,
    count: Arc<Mutex<usize>>,
}
struct ProbeCfg(Mutex<Option<Probe>>);
impl RuleConfig for ProbeCfg {
    fn convert_to_compiled_rule(&self, i: usize, _l: Labels) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        let mut p = self.0.lock().unwrap().take().unwrap();
        p.idx = i;
        Ok(Box::new(p))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
}
impl CompiledRule for Probe {
    type GroupData = ();
    type GroupConfig = ();
    type RuleScanCache = ();
    fn get_match_action(&self) -> &MatchAction {
        &MatchAction::None
    }
    fn get_scope(&self) -> &Scope {
        &self.scope
    }
    fn create_group_data(_: &Labels) {}
    fn create_group_config() {}
    fn create_rule_scan_cache() {}
    fn get_string_matches(
        &self,
        _content: &str,
        path: &Path,
        _rc: &mut RegexCaches,
        _gd: &mut (),
        _gc: &(),
        _rs: &mut (),
        ex: &ExclusionCheck<'_>,
        _em: &mut ahash::AHashSet<String>,
        _me: &mut dyn MatchEmitter,
        _tp: &[usize],
        _k: bool,
    ) {
        self.log.lock().unwrap().push((self.idx, path.len(), ex.is_excluded(self.idx)));
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        None
    }
    fn process_scanner_config(&self, _: &mut ()) {}
}
fn scope_path(max: usize, name: &str) -> Vec<Seg> {
    let n = sym::choose("plen", max + 1);
    (0..n).map(|_| seg(name)).collect()
}
/// params: chain a length, chain b length, common prefix, max scope path length, include paths,
/// exclude paths, implicit wildcards (0/1)
pub fn p04_scope() {
    let (la, lb, common) = (sym::param(0), sym::param(1), sym::param(2));
    let maxp = sym::param(3);
    let (ni, ne) = (sym::param(4), sym::param(5));
    let wild = sym::param(6) == 1;
    let inc: Vec<Vec<Seg>> = (0..ni).map(|_| scope_path(maxp, "inc")).collect();
    let exc: Vec<Vec<Seg>> = (0..ne).map(|_| scope_path(maxp, "exc")).collect();
    let a: Vec<Seg> = (0..la).map(|_| seg("a")).collect();
    let b: Vec<Seg> = (0..lb).map(|_| seg("b")).collect();
    let include_kind = ni > 0;
    let ip: Vec<_> = inc.iter().map(|p| path(p)).collect();
    let ep: Vec<_> = exc.iter().map(|p| path(p)).collect();
    let scope = if include_kind { Scope::include_and_exclude(ip, ep) } else { Scope::exclude(ep) };
    let log = Arc::new(Mutex::new(vec![]));
    let cnt = Arc::new(Mutex::new(0));
    let mk = |scope: Scope| -> Arc<dyn RuleConfig> {
        Arc::new(ProbeCfg(Mutex::new(Some(Probe { scope, idx: 0, log: log.clone(), count: cnt.clone() }))))
    };
    // rule 1 always runs everywhere and marks string boundaries in the log
    let scanner = ScannerBuilder::new(&[mk(scope), mk(Scope::all())])
        .with_implicit_wildcard_indexes_for_scopes(wild)
        .build()
        .unwrap();
    let mut ev = TwoChains { a: a.clone(), b: b.clone(), common };
    let got = scanner.scan(&mut ev, vec![]);
    sym::check(got.is_empty(), 1);
    // all strings in visiting order
    let mut strings: Vec<Vec<Seg>> = vec![vec![]];
    for i in common + 1..=la {
        strings.push(a[..i].to_vec());
    }
    for i in 1..=lb {
        let mut p = a[..common].to_vec();
        p.extend(b[..i].iter().cloned());
        strings.push(p);
    }
    strings.push(vec![]);
    // split the log by string: each string logs rule 1 exactly once and rule 0 at most once
    let log = log.lock().unwrap().clone();
    let mut pos = 0;
    for p in &strings {
        let active = !include_kind || inc.iter().any(|q| covers(q, p, wild));
        let excluded = exc.iter().any(|q| covers(q, p, wild));
        let (mut r0, mut r1) = (0, 0);
        let n = 1 + active as usize;
        for _ in 0..n {
            sym::check(pos < log.len(), 2);
            let (r, plen, ex) = log[pos];
            pos += 1;
            sym::check(plen == p.len(), 3);
            if r == 0 {
                r0 += 1;
                sym::check(ex == excluded, 4);
                sym::cover_if(ex, 1);
                sym::cover_if(!ex, 2);
            } else {
                r1 += 1;
                sym::check(!ex, 5);
            }
        }
        sym::check(r1 == 1, 6);
        sym::check(r0 == active as usize, 7);
        sym::cover_if(!active, 3);
    }
    sym::check(pos == log.len(), 8);
    sym::cover(4);
}
/// Many rules, each with its own scope: every string runs exactly the rules that cover it, once each.
/// params: rules, implicit wildcards
pub fn p04_many() {
    let (n, wild) = (sym::param(0), sym::param(1) == 1);
    let fa = Seg::F(b'a');
    // two list positions each rule mentions; the last of them is also mentioned by the previous rule
    let at = |i: usize| (Seg::I(i as u8), Seg::I((i + 1) as u8));
    let scopes: Vec<(Vec<Vec<Seg>>, Vec<Vec<Seg>>)> = (0..n)
        .map(|i| match i % 3 {
            0 => (vec![vec![fa.clone(), at(i).0], vec![at(i).1]], vec![]),
            1 => (vec![], vec![vec![fa.clone(), at(i).0], vec![at(i).1, fa.clone()]]),
            _ => (vec![vec![fa.clone()]], vec![vec![fa.clone(), at(i).1]]),
        })
        .collect();
    let log = Arc::new(Mutex::new(vec![]));
    let cnt = Arc::new(Mutex::new(0));
    let rules: Vec<Arc<dyn RuleConfig>> = scopes
        .iter()
        .map(|(i, e)| {
            let ip: Vec<_> = i.iter().map(|p| path(p)).collect();
            let ep: Vec<_> = e.iter().map(|p| path(p)).collect();
            let scope = if i.is_empty() { Scope::exclude(ep) } else { Scope::include_and_exclude(ip, ep) };
            Arc::new(ProbeCfg(Mutex::new(Some(Probe { scope, idx: 0, log: log.clone(), count: cnt.clone() })))) as Arc<dyn RuleConfig>
        })
        .collect();
    let scanner = ScannerBuilder::new(&rules).with_implicit_wildcard_indexes_for_scopes(wild).build().unwrap();
    let y = sym::u8("index");
    let a = if sym::flag("first") { vec![fa.clone(), Seg::I(y)] } else { vec![Seg::I(y), fa.clone()] };
    let mut ev = TwoChains { a: a.clone(), b: vec![Seg::I(1), fa.clone()], common: 0 };
    let _ = scanner.scan(&mut ev, vec![]);
    let strings: Vec<Vec<Seg>> = vec![vec![], a[..1].to_vec(), a, vec![Seg::I(1)], vec![Seg::I(1), fa.clone()], vec![]];
    let log = log.lock().unwrap().clone();
    let mut pos = 0;
    for p in &strings {
        let mut seen = vec![0u8; n];
        let mut want = 0;
        for (inc, _) in &scopes {
            want += (inc.is_empty() || inc.iter().any(|q| covers(q, p, wild))) as usize;
        }
        for _ in 0..want {
            sym::check(pos < log.len(), 20);
            let (r, plen, ex) = log[pos];
            pos += 1;
            seen[r] += 1;
            sym::check(plen == p.len(), 21);
            let (inc, exc) = &scopes[r];
            sym::check(inc.is_empty() || inc.iter().any(|q| covers(q, p, wild)), 22);
            sym::check(ex == exc.iter().any(|q| covers(q, p, wild)), 23);
            sym::cover_if(ex, 1);
            sym::cover_if(!ex, 2);
        }
        sym::check(seen.iter().all(|x| *x <= 1), 24);
        sym::cover_if(want < n, 3);
    }
    sym::check(pos == log.len(), 25);
}
/// End to end with a regex rule: a match is reported iff its field is in scope.
/// params: depth, implicit wildcards
pub fn p04_regex() {
    let d = sym::param(0);
    let wild = sym::param(1) == 1;
    let inc = vec![scope_path(2, "inc")];
    let exc = vec![scope_path(2, "exc")];
    let a: Vec<Seg> = (0..d).map(|_| seg("a")).collect();
    let scanner = ScannerBuilder::new(&[RegexRuleConfig::new("x")
        .scope(Scope::include_and_exclude(vec![path(&inc[0])], vec![path(&exc[0])]))
        .build()])
    .with_implicit_wildcard_indexes_for_scopes(wild)
    .with_multipass_v0(false)
    .build()
    .unwrap();
    struct One(Vec<Seg>, String);
    impl Event for One {
        type Encoding = Utf8Encoding;
        fn visit_event<'p>(&'p mut self, v: &mut impl EventVisitor<'p>) {
            for s in &self.0 {
                v.push_segment(owned(s));
            }
            let _ = v.visit_string(&self.1);
            for _ in &self.0 {
                v.pop_segment();
            }
        }
        fn visit_string_mut(&mut self, _p: &Path, mut f: impl FnMut(&mut String) -> bool) {
            f(&mut self.1);
        }
    }
    let mut ev = One(a.clone(), "-x".into());
    let got = scanner.scan(&mut ev, vec![]);
    let want = covers(&inc[0], &a, wild) && !covers(&exc[0], &a, wild);
    sym::check(got.len() == want as usize, 1);
    for g in &got {
        sym::check(g.path.len() == d, 2);
        sym::check(g.path == path(&a), 3);
        sym::check((g.start_index, g.end_index_exclusive) == (1, 2), 4);
    }
    sym::cover_if(want, 1);
    sym::cover_if(!want, 2);
}
