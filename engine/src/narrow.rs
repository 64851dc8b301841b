//! Query-specific translation for arithmetic (division, remainder, products): every term is put in
//! the form  sum of one-byte tables + multiples of opaque terms + constant  over the integers, using
//! the byte domains of the query, and translated at the smallest width that holds its range.
use crate::expr::*;
use crate::z3::{Ast, Z3};
use std::collections::BTreeMap;
use std::rc::Rc;

/// An integer-valued term: value = k + sum tables[v][byte v] + sum coef * atom, in lo..=hi
#[derive(Clone)]
pub struct Lin {
    tabs: BTreeMap<u32, Rc<[i128; 256]>>,
    atoms: BTreeMap<usize, i128>,
    k: i128,
    lo: i128,
    hi: i128,
}
struct Atom {
    ast: Ast,
    w: u32,
    lo: i128,
    hi: i128,
}
pub struct Narrow<'a> {
    pub z: &'a mut Z3,
    pub ar: &'a mut Arena,
    doms: FxMap<u32, Set256>,
    atoms: Vec<Atom>,
    atom_key: FxMap<(u32, usize), usize>,
    atom_expr: FxMap<E, usize>,
    memo: FxMap<E, Rc<Lin>>,
    asts: FxMap<E, (Ast, u32)>,
    tabs: FxMap<(u32, [u64; 4], Vec<u64>), (Ast, u32)>,
    full: Set256,
}
fn bits(x: i128) -> u32 {
    (128 - (x as u128).leading_zeros()).max(1)
}
/// coefficients if the table is a linear function of the byte over the whole domain
pub fn affine(d: &Set256, t: &[i128; 256]) -> Option<(i128, i128)> {
    let xs: Vec<usize> = (0..256).filter(|x| set_has(d, *x as u8)).collect();
    if xs.len() < 4 {
        return None;
    }
    let (dx, dt) = ((xs[1] - xs[0]) as i128, t[xs[1]].checked_sub(t[xs[0]])?);
    if dt == 0 || dt % dx != 0 {
        return None;
    }
    let c = dt / dx;
    if c.unsigned_abs().count_ones() != 1 {
        return None;
    }
    let k = t[xs[0]] - c * xs[0] as i128;
    if xs.iter().all(|x| t[*x] == c * *x as i128 + k) {
        Some((c, k))
    } else {
        None
    }
}
/// does a constraint need this translation?
pub fn hard(ar: &Arena, seen: &mut FxMap<E, bool>, e: E) -> bool {
    if let Some(b) = seen.get(&e) {
        return *b;
    }
    let mut stack = vec![e];
    while let Some(&x) = stack.last() {
        if seen.contains_key(&x) {
            stack.pop();
            continue;
        }
        let n = ar.nodes[x as usize];
        if ar.supp[x as usize] != SUPP_MANY {
            seen.insert(x, false);
            stack.pop();
            continue;
        }
        let ch: Vec<E> = match n.op {
            Op::Const | Op::Var | Op::Tab => vec![],
            Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        };
        let mut h = matches!(n.op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Mul);
        if !h {
            let mut ok = true;
            for c in &ch {
                match seen.get(c) {
                    None => {
                        stack.push(*c);
                        ok = false;
                    }
                    Some(b) => h |= *b,
                }
            }
            if !ok {
                continue;
            }
        }
        seen.insert(x, h);
        stack.pop();
    }
    seen[&e]
}
impl<'a> Narrow<'a> {
    pub fn new(z: &'a mut Z3, ar: &'a mut Arena, doms: &[(u32, Set256)]) -> Self {
        let mut full = [0u64; 4];
        for v in 0..256 {
            set_add(&mut full, v as u8);
        }
        Narrow {
            z,
            ar,
            doms: doms.iter().cloned().collect(),
            atoms: vec![],
            atom_key: Default::default(),
            atom_expr: Default::default(),
            memo: Default::default(),
            asts: Default::default(),
            tabs: Default::default(),
            full,
        }
    }
    fn dom(&self, v: u32) -> Set256 {
        *self.doms.get(&v).unwrap_or(&self.full)
    }
    fn konst(&self, k: i128) -> Lin {
        Lin { tabs: Default::default(), atoms: Default::default(), k, lo: k, hi: k }
    }
    fn ranges(&self, mut l: Lin) -> Lin {
        // canonical tables: minimum 0 over the domain, constant ones dropped
        let vs: Vec<u32> = l.tabs.keys().cloned().collect();
        let (mut lo, mut hi) = (0, 0);
        for v in vs {
            let d = self.dom(v);
            let t = l.tabs[&v].clone();
            let (mut a, mut b) = (i128::MAX, i128::MIN);
            for x in 0..256 {
                if set_has(&d, x as u8) {
                    a = a.min(t[x]);
                    b = b.max(t[x]);
                }
            }
            if a == i128::MAX || a == b {
                l.k += if a == i128::MAX { 0 } else { a };
                l.tabs.remove(&v);
                continue;
            }
            let mut n = [0i128; 256];
            for x in 0..256 {
                n[x] = if set_has(&d, x as u8) { t[x] - a } else { 0 };
            }
            l.k += a;
            hi += b - a;
            l.tabs.insert(v, Rc::new(n));
        }
        for (i, c) in &l.atoms {
            let (a, b) = (self.atoms[*i].lo * c, self.atoms[*i].hi * c);
            lo += a.min(b);
            hi += a.max(b);
        }
        l.lo = lo + l.k;
        l.hi = hi + l.k;
        l
    }
    fn combine(&self, a: &Lin, ca: i128, b: &Lin, cb: i128) -> Lin {
        let mut r = Lin { tabs: Default::default(), atoms: Default::default(), k: a.k * ca + b.k * cb, lo: 0, hi: 0 };
        for (l, c) in [(a, ca), (b, cb)] {
            if c == 0 {
                continue;
            }
            for (v, t) in &l.tabs {
                let mut n = r.tabs.get(v).map(|x| **x).unwrap_or([0; 256]);
                for x in 0..256 {
                    n[x] += t[x] * c;
                }
                r.tabs.insert(*v, Rc::new(n));
            }
            for (i, k) in &l.atoms {
                let e = r.atoms.entry(*i).or_insert(0);
                *e += k * c;
                if *e == 0 {
                    r.atoms.remove(i);
                }
            }
        }
        self.ranges(r)
    }
    /// bring into 0..2^w if the whole range lies in one period
    fn wrap(&self, mut l: Lin, w: u32) -> Option<Lin> {
        let m = 1i128 << w;
        let q = l.lo.div_euclid(m);
        if l.hi.div_euclid(m) != q {
            return None;
        }
        l.k -= q * m;
        l.lo -= q * m;
        l.hi -= q * m;
        Some(l)
    }
    fn atom(&mut self, ast: Ast, w: u32, lo: i128, hi: i128) -> Lin {
        let key = (w, ast as usize);
        let i = match self.atom_key.get(&key) {
            Some(i) => *i,
            None => {
                self.atoms.push(Atom { ast, w, lo, hi });
                self.atom_key.insert(key, self.atoms.len() - 1);
                self.atoms.len() - 1
            }
        };
        let mut l = self.konst(0);
        l.atoms.insert(i, 1);
        self.ranges(l)
    }
    fn table_ast(&mut self, v: u32, t: &[i128; 256], w: u32) -> Ast {
        let d = self.dom(v);
        let mut max = 0;
        for x in 0..256 {
            if set_has(&d, x as u8) {
                max = max.max(t[x]);
            }
        }
        if let Some((c, k)) = affine(&d, t) {
            // value = c * v + k
            let e = self.ar.var(v);
            let x = self.z.to_bv(self.ar, e);
            let x = self.z.fit(x, 8, w);
            return self.z.affine_(x, w, c, k);
        }
        let tw = bits(max);
        let key = (v, d, t.iter().map(|x| *x as u64).collect::<Vec<_>>());
        let (ast, aw) = match self.tabs.get(&key) {
            Some(a) => *a,
            None => {
                let mut groups: BTreeMap<i128, Set256> = BTreeMap::new();
                for x in 0..256 {
                    if set_has(&d, x as u8) {
                        set_add(groups.entry(t[x]).or_insert([0; 4]), x as u8);
                    }
                }
                let mut it = groups.into_iter();
                let first = it.next().unwrap();
                let mut r = self.z.num_(tw, first.0 as u128);
                for (val, s) in it {
                    let p = self.z.set_pred(self.ar, v, &s);
                    let n = self.z.num_(tw, val as u128);
                    r = self.z.ite_(p, n, r);
                }
                self.tabs.insert(key, (r, tw));
                (r, tw)
            }
        };
        self.z.fit(ast, aw, w)
    }
    /// AST of width w whose value is l mod 2^w
    fn lin_ast(&mut self, l: &Lin, w: u32) -> Ast {
        let m = if w >= 127 { i128::MAX } else { 1i128 << w };
        let mut r: Option<Ast> = None;
        for (v, t) in &l.tabs {
            let a = self.table_ast(*v, t, w);
            r = Some(match r {
                None => a,
                Some(x) => self.z.bin_(Op::Add, x, a),
            });
        }
        for (i, c) in &l.atoms {
            let (ast, aw) = (self.atoms[*i].ast, self.atoms[*i].w);
            let mut a = self.z.fit(ast, aw, w);
            let cm = c.rem_euclid(m);
            if cm != 1 {
                if cm == m - 1 {
                    let z = self.z.num_(w, 0);
                    a = self.z.bin_(Op::Sub, z, a);
                } else {
                    let k = self.z.num_(w, cm as u128);
                    a = self.z.bin_(Op::Mul, a, k);
                }
            }
            r = Some(match r {
                None => a,
                Some(x) => self.z.bin_(Op::Add, x, a),
            });
        }
        let k = l.k.rem_euclid(m);
        match r {
            None => self.z.num_(w, k as u128),
            Some(x) if k == 0 => x,
            Some(x) => {
                let kk = self.z.num_(w, k as u128);
                self.z.bin_(Op::Add, x, kk)
            }
        }
    }
    fn value(&mut self, l: &Lin) -> (Ast, u32) {
        let w = bits(l.hi);
        (self.lin_ast(l, w), w)
    }
    /// t mod m with canonical (reduced) coefficients
    fn reduce(&self, l: &Lin, m: i128) -> Lin {
        let mut r = l.clone();
        r.k = r.k.rem_euclid(m);
        for (_, t) in r.tabs.iter_mut() {
            let mut n = [0i128; 256];
            for x in 0..256 {
                n[x] = t[x].rem_euclid(m);
            }
            *t = Rc::new(n);
        }
        let at: Vec<(usize, i128)> = r.atoms.iter().map(|(i, c)| (*i, c.rem_euclid(m))).filter(|x| x.1 != 0).collect();
        r.atoms = at.into_iter().collect();
        let mut r = self.ranges(r);
        let q = r.lo.div_euclid(m) * m;
        r.k -= q;
        r.lo -= q;
        r.hi -= q;
        r
    }
    pub fn lin(&mut self, e: E) -> Option<Rc<Lin>> {
        if let Some(l) = self.memo.get(&e) {
            return Some(l.clone());
        }
        let n = self.ar.nodes[e as usize];
        let w = n.w as u32;
        if w > 64 {
            return None;
        }
        let supp = self.ar.supp[e as usize];
        let l = if supp == SUPP_NONE {
            let k = self.ar.as_const(e)? as i128;
            self.konst(k)
        } else if supp != SUPP_MANY {
            let t = self.ar.table(e);
            let mut n = [0i128; 256];
            for x in 0..256 {
                n[x] = t[x] as i128;
            }
            let mut l = self.konst(0);
            l.tabs.insert(supp - 1, Rc::new(n));
            self.ranges(l)
        } else {
            self.many(e, n, w)?
        };
        let l = Rc::new(l);
        self.memo.insert(e, l.clone());
        Some(l)
    }
    fn many(&mut self, e: E, n: Node, w: u32) -> Option<Lin> {
        let half = |w: u32| 1i128 << (w - 1);
        match n.op {
            Op::Add | Op::Sub => {
                let (a, b) = (self.lin(n.a)?, self.lin(n.b)?);
                let c = self.combine(&a, 1, &b, if n.op == Op::Add { 1 } else { -1 });
                if let Some(r) = self.wrap(c.clone(), w) {
                    return Some(r);
                }
                let ast = self.lin_ast(&c, w);
                Some(self.atom(ast, w, 0, (1i128 << w) - 1))
            }
            Op::Mul => {
                let (a, b) = (self.lin(n.a)?, self.lin(n.b)?);
                let (c, v) = if a.lo == a.hi { (a.lo, &b) } else if b.lo == b.hi { (b.lo, &a) } else { (0, &a) };
                if c != 0 && c < 1 << 40 && v.hi < 1 << 64 {
                    let z = self.konst(0);
                    let r = self.combine(v, c, &z, 0);
                    if let Some(r) = self.wrap(r, w) {
                        return Some(r);
                    }
                }
                if a.hi < 1 << 62 && b.hi < 1 << 62 && a.hi * b.hi < 1i128 << w {
                    let k = bits(a.hi * b.hi);
                    let (x, y) = (self.lin_ast(&a, k), self.lin_ast(&b, k));
                    let r = self.z.bin_(Op::Mul, x, y);
                    return Some(self.atom(r, k, a.lo * b.lo, a.hi * b.hi));
                }
                self.opaque(e, n, w)
            }
            Op::URem | Op::SRem | Op::UDiv | Op::SDiv => {
                let (a, b) = (self.lin(n.a)?, self.lin(n.b)?);
                let signed = matches!(n.op, Op::SRem | Op::SDiv);
                if b.lo != b.hi || b.lo <= 0 || (signed && (a.hi >= half(w) || b.hi >= half(w))) {
                    return self.opaque(e, n, w);
                }
                let m = b.lo;
                if matches!(n.op, Op::URem | Op::SRem) {
                    let r = self.reduce(&a, m);
                    if r.hi < m {
                        return Some(r);
                    }
                    let (x, k) = self.value(&r);
                    let mm = self.z.num_(k, m as u128);
                    let q = self.z.bin_(Op::URem, x, mm);
                    let kk = bits(m - 1);
                    let q = self.z.fit(q, k, kk);
                    Some(self.atom(q, kk, 0, m - 1))
                } else {
                    let (x, k) = self.value(&a);
                    if bits(m) > k {
                        return Some(self.konst(0));
                    }
                    let mm = self.z.num_(k, m as u128);
                    let q = self.z.bin_(Op::UDiv, x, mm);
                    let (lo, hi) = (a.lo / m, a.hi / m);
                    let kk = bits(hi);
                    let q = self.z.fit(q, k, kk);
                    Some(self.atom(q, kk, lo, hi))
                }
            }
            Op::ZExt => self.lin(n.a).map(|l| (*l).clone()),
            Op::SExt => {
                let a = self.lin(n.a)?;
                if a.hi < half(self.ar.w(n.a)) {
                    return Some((*a).clone());
                }
                self.opaque(e, n, w)
            }
            Op::Extract => {
                let a = self.lin(n.a)?;
                if n.b == 0 {
                    if let Some(r) = self.wrap((*a).clone(), w) {
                        return Some(r);
                    }
                }
                let aw = self.ar.w(n.a);
                let x = self.lin_ast(&a, aw);
                let r = self.z.extract_(n.b + w - 1, n.b, x);
                Some(self.atom(r, w, 0, (1i128 << w) - 1))
            }
            Op::Ite => {
                let c = self.boolean(n.a)?;
                let (a, b) = (self.lin(n.b)?, self.lin(n.c)?);
                let k = bits(a.hi.max(b.hi));
                let (x, y) = (self.lin_ast(&a, k), self.lin_ast(&b, k));
                let r = self.z.ite_(c, x, y);
                Some(self.atom(r, k, a.lo.min(b.lo), a.hi.max(b.hi)))
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.boolean(e)?;
                let (o, z) = (self.z.num_(1, 1), self.z.num_(1, 0));
                let r = self.z.ite_(b, o, z);
                Some(self.atom(r, 1, 0, 1))
            }
            _ if w == 1 => {
                let b = self.boolean(e)?;
                let (o, z) = (self.z.num_(1, 1), self.z.num_(1, 0));
                let r = self.z.ite_(b, o, z);
                Some(self.atom(r, 1, 0, 1))
            }
            _ => self.opaque(e, n, w),
        }
    }
    /// full-width translation of one operator
    fn opaque(&mut self, e: E, n: Node, w: u32) -> Option<Lin> {
        if let Some(i) = self.atom_expr.get(&e) {
            let mut l = self.konst(0);
            l.atoms.insert(*i, 1);
            return Some(self.ranges(l));
        }
        let a = self.lin(n.a)?;
        let wa = self.ar.w(n.a);
        let x = self.lin_ast(&a, wa);
        let r = if n.op == Op::SExt {
            self.z.sext_(x, w - wa)
        } else {
            let b = self.lin(n.b)?;
            let wb = self.ar.w(n.b);
            let y = self.lin_ast(&b, wb);
            self.z.bin_(n.op, x, y)
        };
        Some(self.atom(r, w, 0, (1i128 << w) - 1))
    }
    pub fn boolean(&mut self, e: E) -> Option<Ast> {
        if let Some((a, _)) = self.asts.get(&e) {
            return Some(*a);
        }
        let n = self.ar.nodes[e as usize];
        let supp = self.ar.supp[e as usize];
        let r = if supp == SUPP_NONE {
            self.z.bool_(self.ar.as_const(e)? == 1)
        } else if supp != SUPP_MANY {
            let s = self.ar.set_of(e);
            self.z.set_pred(self.ar, supp - 1, &s)
        } else {
            match n.op {
                Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?);
                    self.z.logic_(n.op, a, b)
                }
                Op::Ite => {
                    let (c, a, b) = (self.boolean(n.a)?, self.boolean(n.b)?, self.boolean(n.c)?);
                    self.z.ite_(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.lin(n.a)?, self.lin(n.b)?);
                    let w = self.ar.w(n.a);
                    let signed = matches!(n.op, Op::Slt | Op::Sle);
                    let h = 1i128 << (w - 1);
                    if signed && (a.hi >= h || b.hi >= h) {
                        let (x, y) = (self.lin_ast(&a, w), self.lin_ast(&b, w));
                        self.z.bin_(n.op, x, y)
                    } else {
                        let k = bits(a.hi.max(b.hi));
                        let (x, y) = (self.lin_ast(&a, k), self.lin_ast(&b, k));
                        let op = match n.op {
                            Op::Slt => Op::Ult,
                            Op::Sle => Op::Ule,
                            o => o,
                        };
                        self.z.bin_(op, x, y)
                    }
                }
                _ => {
                    let l = self.lin(e)?;
                    let x = self.lin_ast(&l, 1);
                    let one = self.z.num_(1, 1);
                    self.z.bin_(Op::Eq, x, one)
                }
            }
        };
        self.asts.insert(e, (r, 1));
        Some(r)
    }
}
