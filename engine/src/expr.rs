//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32; // expression id; 0 is reserved ("concrete")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // a = const index
    Var,   // a = var index (8 bit)
    Tab,   // a = table index, b = var : lookup table over one byte
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = hi, b = lo
    Extract, // a = e, b = low bit
    ZExt,
    SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const SUPP_NONE: u32 = 0;
pub const SUPP_MANY: u32 = u32::MAX;

pub type Set256 = [u64; 4];
pub fn set_has(s: &Set256, v: u8) -> bool {
    s[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_add(s: &mut Set256, v: u8) {
    s[(v >> 6) as usize] |= 1 << (v & 63);
}
pub fn set_and(a: &Set256, b: &Set256) -> Set256 {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_diff(a: &Set256, b: &Set256) -> Set256 {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_count(a: &Set256) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_first(a: &Set256) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub supp: Vec<u32>,
    map: FxMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tmap: FxMap<Vec<u64>, u32>,
    // caches
    tab_cache: FxMap<E, Rc<[u64; 256]>>,
    set_cache: FxMap<E, Set256>,
    vars_cache: FxMap<E, Rc<Vec<u32>>>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_to_i128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn eval_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        SRem => {
            let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext_to_i128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext_to_i128(a, w) < sext_to_i128(b, w)) as u128,
        Sle => (sext_to_i128(a, w) <= sext_to_i128(b, w)) as u128,
        _ => panic!("eval_bin {:?}", op),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            supp: vec![],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            tables: vec![],
            tmap: Default::default(),
            tab_cache: Default::default(),
            set_cache: Default::default(),
            vars_cache: Default::default(),
            memo: vec![],
            memo_gen: vec![],
            gen: 0,
        };
        // id 0 reserved
        a.nodes.push(Node { op: Const, w: 0, a: u32::MAX, b: 0, c: 0 });
        a.supp.push(0);
        a
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as u32;
        let s = match n.op {
            Const => SUPP_NONE,
            Var => n.a + 1,
            Tab => n.b + 1,
            Extract | ZExt | SExt => self.supp[n.a as usize],
            Ite => self.join(self.join(self.supp[n.a as usize], self.supp[n.b as usize]), self.supp[n.c as usize]),
            _ => self.join(self.supp[n.a as usize], self.supp[n.b as usize]),
        };
        self.nodes.push(n);
        self.supp.push(s);
        self.map.insert(n, id);
        id
    }
    fn join(&self, a: u32, b: u32) -> u32 {
        if a == SUPP_NONE {
            b
        } else if b == SUPP_NONE || a == b {
            a
        } else {
            SUPP_MANY
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        let ci = match self.cmap.get(&v) {
            Some(c) => *c,
            None => {
                let c = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, c);
                c
            }
        };
        self.intern(Node { op: Const, w: w as u16, a: ci, b: 0, c: 0 })
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node { op: Var, w: 8, a: i, b: 0, c: 0 })
    }
    pub fn tab(&mut self, w: u32, var: u32, t: &[u64; 256]) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let key = t.to_vec();
        let ti = match self.tmap.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(Rc::new(*t));
                self.tmap.insert(key, i);
                i
            }
        };
        self.intern(Node { op: Tab, w: w as u16, a: ti, b: var, c: 0 })
    }
    fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.konst(w, mask(w));
        self.bin(Xor, e, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Eq, a, b)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let is_cmp = matches!(op, Eq | Ult | Ule | Slt | Sle);
        let rw = if is_cmp { 1 } else { w };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_bin(op, w, x, y);
            return self.konst(rw, v);
        }
        // canonical: constant on the right for commutative ops
        let (mut ca, mut cb) = (ca, cb);
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.n(a);
                    if na.op == Add {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(w, y.wrapping_add(z));
                            return self.bin(Add, na.a, k);
                        }
                    }
                }
            }
            Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, (0u128).wrapping_sub(y));
                    return self.bin(Add, a, k);
                }
                // (x + c) - x, x - (x + c), (x+c)-(x+d)
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Add && na.a == b && self.as_const(na.b).is_some() {
                    return na.b;
                }
                if nb.op == Add && nb.a == a {
                    if let Some(c) = self.as_const(nb.b) {
                        return self.konst(w, 0u128.wrapping_sub(c));
                    }
                }
                if na.op == Add && nb.op == Add && na.a == nb.a {
                    if let (Some(c), Some(d)) = (self.as_const(na.b), self.as_const(nb.b)) {
                        return self.konst(w, c.wrapping_sub(d));
                    }
                }
            }
            Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Shl, a, k);
                    }
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(LShr, a, k);
                    }
                }
            }
            URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(And, a, k);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(y) = cb {
                    // low mask => zext(extract)
                    if (y & (y + 1)) == 0 {
                        let k = y.count_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    let na = self.n(a);
                    if na.op == And {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(w, y & z);
                            return self.bin(And, na.a, k);
                        }
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        let k = self.konst(iw, y);
                        let x = self.bin(And, na.a, k);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 0);
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
                // or of disjoint zext/shl pieces => concat
                if let Some(e) = self.try_or_concat(a, b) {
                    return e;
                }
            }
            Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let na = self.n(a);
                    if na.op == Xor {
                        if let Some(z) = self.as_const(na.b) {
                            let k = self.konst(w, y ^ z);
                            return self.bin(Xor, na.a, k);
                        }
                    }
                    if w == 1 && y == 1 {
                        // negate comparisons
                        match na.op {
                            Ult => return self.bin(Ule, na.b, na.a),
                            Ule => return self.bin(Ult, na.b, na.a),
                            Slt => return self.bin(Sle, na.b, na.a),
                            Sle => return self.bin(Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Shl | LShr | AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 && op != AShr {
                        return self.konst(w, 0);
                    }
                    if s < w as u128 {
                        let s = s as u32;
                        if op == LShr {
                            let x = self.extract(a, s, w - s);
                            return self.zext(x, w);
                        }
                        if op == Shl {
                            let x = self.extract(a, 0, w - s);
                            let z = self.konst(s, 0);
                            return self.concat(x, z);
                        }
                        if op == AShr {
                            let x = self.extract(a, s, w - s);
                            return self.sext(x, w);
                        }
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(y) = cb {
                    let na = self.n(a);
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, y);
                            return self.bin(Eq, na.a, k);
                        }
                        SExt => {
                            let iw = self.w(na.a);
                            if (sext_to_i128(y & mask(iw), iw) as u128) & m != y {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, y);
                            return self.bin(Eq, na.a, k);
                        }
                        Add => {
                            if let Some(z) = self.as_const(na.b) {
                                let k = self.konst(w, y.wrapping_sub(z));
                                return self.bin(Eq, na.a, k);
                            }
                        }
                        Xor => {
                            if let Some(z) = self.as_const(na.b) {
                                let k = self.konst(w, y ^ z);
                                return self.bin(Eq, na.a, k);
                            }
                        }
                        Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kh = self.konst(hw, y >> lw);
                            let kl = self.konst(lw, y);
                            let h = self.bin(Eq, na.a, kh);
                            if self.as_const(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Eq, na.b, kl);
                            return self.bin(And, h, l);
                        }
                        Ite => {
                            let (t, f) = (self.as_const(na.b), self.as_const(na.c));
                            match (t, f) {
                                (Some(t), Some(f)) => {
                                    return if t == y && f == y {
                                        self.konst(1, 1)
                                    } else if t == y {
                                        na.a
                                    } else if f == y {
                                        self.not(na.a)
                                    } else {
                                        self.konst(1, 0)
                                    };
                                }
                                (Some(t), None) => {
                                    let r = self.bin(Eq, na.c, b);
                                    return if t == y {
                                        self.or(na.a, r)
                                    } else {
                                        let nc = self.not(na.a);
                                        self.and(nc, r)
                                    };
                                }
                                (None, Some(f)) => {
                                    let r = self.bin(Eq, na.b, b);
                                    return if f == y {
                                        let nc = self.not(na.a);
                                        self.or(nc, r)
                                    } else {
                                        self.and(na.a, r)
                                    };
                                }
                                _ => {}
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Eq, na.a, nb.a);
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Eq, na.a, nb.a);
                        if self.as_const(h) == Some(0) {
                            return h;
                        }
                        let l = self.bin(Eq, na.b, nb.b);
                        return self.bin(And, h, l);
                    }
                }
            }
            Ult | Ule => {
                if a == b {
                    return self.konst(1, (op == Ule) as u128);
                }
                if let Some(y) = cb {
                    if op == Ult && y == 0 {
                        return self.konst(1, 0);
                    }
                    if op == Ule && y == m {
                        return self.konst(1, 1);
                    }
                    if op == Ult && y == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Eq, a, z);
                    }
                    if op == Ule && y == 0 {
                        return self.bin(Eq, a, b);
                    }
                    let na = self.n(a);
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if y > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(iw, y);
                        return self.bin(op, na.a, k);
                    }
                }
                if let Some(x) = ca {
                    if op == Ule && x == 0 {
                        return self.konst(1, 1);
                    }
                    if op == Ult && x == m {
                        return self.konst(1, 0);
                    }
                    let nb = self.n(b);
                    if nb.op == ZExt {
                        let iw = self.w(nb.a);
                        if x > mask(iw) {
                            return self.konst(1, 0);
                        }
                        let k = self.konst(iw, x);
                        return self.bin(op, k, nb.a);
                    }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.konst(1, (op == Sle) as u128);
                }
                // signed compare of zero-extended values is unsigned
                let uop = if op == Slt { Ult } else { Ule };
                let pa = self.nonneg(a);
                let pb = self.nonneg(b);
                if pa && pb {
                    return self.bin(uop, a, b);
                }
                if let Some(y) = cb {
                    if pa && sext_to_i128(y, w) < 0 {
                        return self.konst(1, 0);
                    }
                }
                if let Some(x) = ca {
                    if pb && sext_to_i128(x, w) < 0 {
                        return self.konst(1, 1);
                    }
                }
                // x <s 0  => sign bit
                if op == Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
            }
            _ => {}
        }
        self.intern(Node { op, w: rw as u16, a, b, c: 0 })
    }
    fn nonneg(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Const => self.consts[n.a as usize] >> (n.w as u32 - 1) & 1 == 0,
            ZExt => true,
            Concat => self.nonneg(n.a),
            Ite => self.nonneg(n.b) && self.nonneg(n.c),
            _ => false,
        }
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Xor && na.a == b && self.as_const(na.b) == Some(1))
            || (nb.op == Xor && nb.a == a && self.as_const(nb.b) == Some(1))
    }
    /// bits known to be zero in the low part / high part; returns (lo, hi): value occupies bits [lo,hi)
    fn occ(&self, e: E) -> (u32, u32) {
        let n = self.n(e);
        match n.op {
            ZExt => {
                let (l, h) = self.occ(n.a);
                (l, h)
            }
            Concat => {
                let lw = self.w(n.b);
                let (lh, hh) = self.occ(n.a);
                if self.as_const(n.b) == Some(0) {
                    (lw + lh, lw + hh)
                } else {
                    let (l, h) = self.occ(n.b);
                    if lh == hh {
                        (l, h)
                    } else {
                        (l, lw + hh)
                    }
                }
            }
            Const => {
                let v = self.consts[n.a as usize];
                if v == 0 {
                    (0, 0)
                } else {
                    (v.trailing_zeros(), 128 - v.leading_zeros())
                }
            }
            _ => (0, n.w as u32),
        }
    }
    fn try_or_concat(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (la, ha) = self.occ(a);
        let (lb, hb) = self.occ(b);
        let (lo, hi, ll, lh) = if ha <= lb {
            (a, b, ha, lb)
        } else if hb <= la {
            (b, a, hb, la)
        } else {
            return None;
        };
        let _ = ll;
        if lh == 0 || lh >= w {
            return None;
        }
        let h = self.extract(hi, lh, w - lh);
        let l = self.extract(lo, 0, lh);
        Some(self.concat(h, l))
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        let ew = n.w as u32;
        debug_assert!(lo + w <= ew && w > 0);
        if lo == 0 && w == ew {
            return e;
        }
        match n.op {
            Const => {
                let v = self.consts[n.a as usize] >> lo;
                return self.konst(w, v);
            }
            Extract => return self.extract(n.a, n.b + lo, w),
            Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            And | Or | Xor if lo == 0 || self.as_const(n.b).is_some() => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Add | Sub | Mul if lo == 0 => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() && w <= 8 => {
                let t = self.extract(n.b, lo, w);
                let f = self.extract(n.c, lo, w);
                return self.ite(n.a, t, f);
            }
            _ => {}
        }
        self.intern(Node { op: Extract, w: w as u16, a: e, b: lo, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let (hw, lw) = (nh.w as u32, nl.w as u32);
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        if let (Some(a), Some(b)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst(w, a << lw | b);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nl.b + lw == nh.b {
            return self.extract(nh.a, nl.b, w);
        }
        // hi = extract(x, k..), lo = x itself truncated representation (x has width lw)? (not applicable)
        // hi = Concat(hh, hl): try merging hl with lo
        if nh.op == Concat {
            let hl = self.n(nh.b);
            if hl.op == Extract && nl.op == Extract && hl.a == nl.a && nl.b + lw == hl.b {
                let m = self.extract(hl.a, nl.b, lw + hl.w as u32);
                return self.concat(nh.a, m);
            }
            if self.as_const(nh.b).is_some() && self.as_const(lo).is_some() {
                let m = self.concat(nh.b, lo);
                return self.concat(nh.a, m);
            }
            // right-associate
            let m = self.concat(nh.b, lo);
            return self.concat(nh.a, m);
        }
        if nl.op == Concat && nh.op == Extract {
            let lh = self.n(nl.a);
            if lh.op == Extract && lh.a == nh.a && lh.b + lh.w as u32 == nh.b {
                let m = self.extract(nh.a, lh.b, hw + lh.w as u32);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Ite && nl.op == Ite && nh.a == nl.a {
            if let (Some(a), Some(b), Some(c), Some(d)) =
                (self.as_const(nh.b), self.as_const(nh.c), self.as_const(nl.b), self.as_const(nl.c))
            {
                let t = self.konst(w, a << lw | c);
                let f = self.konst(w, b << lw | d);
                return self.ite(nh.a, t, f);
            }
        }
        if nh.op == ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        self.intern(Node { op: Concat, w: w as u16, a: hi, b: lo, c: 0 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Const => {
                let v = self.consts[n.a as usize];
                return self.konst(w, v);
            }
            ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.intern(Node { op: ZExt, w: w as u16, a: e, b: 0, c: 0 })
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w {
            return e;
        }
        match n.op {
            Const => {
                let v = sext_to_i128(self.consts[n.a as usize], n.w as u32) as u128;
                return self.konst(w, v);
            }
            ZExt => return self.zext(n.a, w),
            SExt => return self.sext(n.a, w),
            _ => {}
        }
        self.intern(Node { op: SExt, w: w as u16, a: e, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(x) = self.as_const(c) {
            return if x == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        let nc = self.n(c);
        if nc.op == Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, f, t);
        }
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, f);
                }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, t);
                }
                _ => {}
            }
        }
        let (nt, nf) = (self.n(t), self.n(f));
        if nt.op == Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        if nf.op == Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.intern(Node { op: Ite, w: w as u16, a: c, b: t, c: f })
    }

    fn children(&self, n: &Node) -> ([u32; 3], usize) {
        match n.op {
            Const | Var | Tab => ([0; 3], 0),
            Extract | ZExt | SExt => ([n.a, 0, 0], 1),
            Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }

    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        let s = self.supp[e as usize];
        if s == SUPP_NONE {
            return Rc::new(vec![]);
        }
        if s != SUPP_MANY {
            return Rc::new(vec![s - 1]);
        }
        if let Some(v) = self.vars_cache.get(&e) {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vars_cache.contains_key(&x) || self.supp[x as usize] != SUPP_MANY {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let (ch, k) = self.children(&n);
            let mut ready = true;
            for c in &ch[..k] {
                if self.supp[*c as usize] == SUPP_MANY && !self.vars_cache.contains_key(c) {
                    stack.push(*c);
                    ready = false;
                }
            }
            if ready {
                let mut set: Vec<u32> = vec![];
                for c in &ch[..k] {
                    let s = self.supp[*c as usize];
                    if s == SUPP_MANY {
                        set.extend(self.vars_cache[c].iter());
                    } else if s != SUPP_NONE {
                        set.push(s - 1);
                    }
                }
                set.sort_unstable();
                set.dedup();
                self.vars_cache.insert(x, Rc::new(set));
                stack.pop();
            }
        }
        self.vars_cache[&e].clone()
    }

    fn step(&self, n: &Node, get: &dyn Fn(u32) -> u128, var: &dyn Fn(u32) -> u8) -> u128 {
        match n.op {
            Const => self.consts[n.a as usize],
            Var => var(n.a) as u128,
            Tab => self.tables[n.a as usize][var(n.b) as usize] as u128,
            Extract => (get(n.a) >> n.b) & mask(n.w as u32),
            ZExt => get(n.a),
            SExt => (sext_to_i128(get(n.a), self.w(n.a)) as u128) & mask(n.w as u32),
            Concat => get(n.a) << self.w(n.b) | get(n.b),
            Ite => {
                if get(n.a) == 1 {
                    get(n.b)
                } else {
                    get(n.c)
                }
            }
            op => eval_bin(op, self.w(n.a), get(n.a), get(n.b)),
        }
    }

    /// Evaluate under a full assignment of the input bytes.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.n(e);
        match n.op {
            Const => return self.consts[n.a as usize],
            Var => return model[n.a as usize] as u128,
            _ => {}
        }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, 0);
            self.memo_gen.resize(self.nodes.len() + 1024, 0);
        }
        self.gen += 1;
        let g = self.gen;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo_gen[x as usize] == g {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let (ch, k) = self.children(&n);
            let mut ready = true;
            for c in &ch[..k] {
                if self.memo_gen[*c as usize] != g {
                    stack.push(*c);
                    ready = false;
                }
            }
            if ready {
                let v = {
                    let memo = &self.memo;
                    self.step(&n, &|i| memo[i as usize], &|v| model[v as usize])
                };
                self.memo[x as usize] = v;
                self.memo_gen[x as usize] = g;
                stack.pop();
            }
        }
        self.memo[e as usize]
    }

    /// Value table of an expression whose support is exactly one byte.
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tab_cache.get(&e) {
            return t.clone();
        }
        debug_assert!(self.w(e) <= 64);
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.tab_cache.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let (ch, k) = self.children(&n);
            let mut ready = true;
            let mut wide = false;
            for c in &ch[..k] {
                if self.w(*c) > 64 {
                    wide = true;
                } else if !self.tab_cache.contains_key(c) {
                    stack.push(*c);
                    ready = false;
                }
            }
            if wide {
                // fall back to plain evaluation
                let var = self.supp[x as usize] - 1;
                let mut model = vec![0u8; var as usize + 1];
                let mut t = [0u64; 256];
                for v in 0..256usize {
                    model[var as usize] = v as u8;
                    t[v] = self.eval(x, &model) as u64;
                }
                while *stack.last().unwrap() != x {
                    stack.pop();
                }
                self.tab_cache.insert(x, Rc::new(t));
                stack.pop();
                continue;
            }
            if !ready {
                continue;
            }
            let mut t = [0u64; 256];
            match n.op {
                Const => t = [self.consts[n.a as usize] as u64; 256],
                Var => {
                    for v in 0..256 {
                        t[v] = v as u64;
                    }
                }
                Tab => t = *self.tables[n.a as usize],
                _ => {
                    let ta = self.tab_cache[&ch[0]].clone();
                    let tb = if k > 1 { self.tab_cache[&ch[1]].clone() } else { ta.clone() };
                    let tc = if k > 2 { self.tab_cache[&ch[2]].clone() } else { ta.clone() };
                    for v in 0..256 {
                        t[v] = match n.op {
                            Extract => (ta[v] >> n.b) & mask(n.w as u32) as u64,
                            ZExt => ta[v],
                            SExt => (sext_to_i128(ta[v] as u128, self.w(n.a)) as u128 & mask(n.w as u32)) as u64,
                            Concat => ta[v] << self.w(n.b) | tb[v],
                            Ite => {
                                if ta[v] == 1 {
                                    tb[v]
                                } else {
                                    tc[v]
                                }
                            }
                            op => eval_bin(op, self.w(n.a), ta[v] as u128, tb[v] as u128) as u64,
                        };
                    }
                }
            }
            self.tab_cache.insert(x, Rc::new(t));
            stack.pop();
        }
        if self.tab_cache.len() > 400_000 {
            let t = self.tab_cache[&e].clone();
            self.tab_cache.clear();
            self.tab_cache.insert(e, t);
        }
        self.tab_cache[&e].clone()
    }
    /// Set of byte values for which a one-byte-support boolean holds.
    pub fn set_of(&mut self, e: E) -> Set256 {
        if let Some(s) = self.set_cache.get(&e) {
            return *s;
        }
        let t = self.table(e);
        let mut s = [0u64; 4];
        for v in 0..256usize {
            if t[v] & 1 == 1 {
                set_add(&mut s, v as u8);
            }
        }
        self.set_cache.insert(e, s);
        s
    }
    pub fn dump(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        match n.op {
            Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Var => format!("v{}", n.a),
            Tab => format!("tab{}(v{})", n.a, n.b),
            _ if depth == 0 => "..".into(),
            Extract => format!("({}[{}+:{}])", self.dump(n.a, depth - 1), n.b, n.w),
            ZExt => format!("zx{}({})", n.w, self.dump(n.a, depth - 1)),
            SExt => format!("sx{}({})", n.w, self.dump(n.a, depth - 1)),
            Ite => format!(
                "ite({},{},{})",
                self.dump(n.a, depth - 1),
                self.dump(n.b, depth - 1),
                self.dump(n.c, depth - 1)
            ),
            op => format!("{:?}({},{})", op, self.dump(n.a, depth - 1), self.dump(n.b, depth - 1)),
        }
    }
}
