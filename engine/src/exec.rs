//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Z3;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const HEAP_BASE: u64 = 0x4000_0000;
pub const TLS_BASE: u64 = 0x0700_0000;
pub const STACK_BASE: u64 = 0x2_0000_0000;
pub const MAXFN: usize = 65536;
pub const MAXPROC: usize = 65536;

#[repr(C)]
pub struct Shared {
    pub stop: AtomicU32,
    pub free_workers: AtomicU32,
    pub active: AtomicU32,
    pub nproc: AtomicU32,
    pub paths: AtomicU64,
    pub assumed_out: AtomicU64,
    pub forks: AtomicU64,
    pub insts: AtomicU64,
    pub queries: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_us: AtomicU64,
    pub q_max_us: AtomicU64,
    pub dom_decisions: AtomicU64,
    pub cache_hits: AtomicU64,
    pub asserts_concrete: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub viols: AtomicU32,
    pub errs: AtomicU32,
    pub max_depth: AtomicU64,
    pub maxrss_kb: AtomicU64,
    pub witnesses: AtomicU32,
    pub covers: [AtomicU64; 16],
    pub fns: [AtomicU32; MAXFN],
    pub pids: [AtomicU32; MAXPROC], // pid, 0 when finished cleanly
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp0: u64,
    pub ret_d: u32,
    pub normal: u32,
    pub phis: u32,
}

/// A thread that is not running.
#[derive(Clone)]
pub struct Parked {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub sp: u64,
    pub sp_mapped: u64,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub sp: u64,
    pub sp_mapped: u64,
    pub brk: u64,
    pub brk_mapped: u64,
    pub free: Rc<FxMap<u64, Vec<u64>>>,
    pub model: Rc<Vec<u8>>,
    pub doms: Rc<Vec<Set256>>,
    pub linked: Rc<Vec<bool>>,
    pub cons: Rc<Vec<E>>,
    pub objs: Rc<Vec<(String, u32, u32)>>,
    pub depth: u32,
    pub insts: u64,
    pub clock: Option<(Val, Val)>,
    pub ticks: u64,
    pub log: Rc<Vec<Val>>,
    pub keys: u64,
    pub live: i64,
    pub tid: usize,
    pub parked: Vec<Option<Parked>>,
    pub covers: [u64; 16],
}

pub enum Stop {
    End,
    Assume,
    Viol(String),
    Err(String),
}
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Unknown,
    Body,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    SymMake,
    SymAssume,
    SymAssert,
    SymCover,
    SymConc,
    SymClock,
    SymLive,
    SymSpawn,
    SymSwitch,
    SymLog,
    SymMerge,
    SymParam,
    ClockGettime,
    Syscall,
    Write,
    Zero,
    One,
    MinusOne,
    Getenv,
    Abort,
    Errno,
    KeyCreate,
    Intr,
    Sysconf,
    Bad,
}

pub struct Opts {
    pub out: String,
    pub max_viol: u32,
    pub max_path_insts: u64,
    pub deadline: std::time::Instant,
    pub profile: bool,
    pub poison: bool,
    pub trace: bool,
    pub witness_every: u64,
    pub max_witness: u32,
    pub params: Vec<u64>,
}

pub struct Engine<'t> {
    pub m: Module<'t>,
    pub ar: Arena,
    pub z3: Z3,
    pub funcs: Vec<Option<&'static Func>>,
    ext: Vec<Ext>,
    pub pending: Vec<State>,
    pub sh: &'static Shared,
    pub o: Opts,
    pub dom_decisions: u64,
    pub cache_hits: u64,
    pub asserts_c: u64,
    pub asserts_s: u64,
    pub npaths: u64,
    pub nassume: u64,
    pub nforks: u64,
    pub ninsts: u64,
    qcache: FxMap<u128, Option<Rc<Vec<(u32, u8)>>>>,
    pub fork_sites: std::collections::HashMap<String, u64>,
    pub proc_slot: usize,
    fn_seen: Vec<bool>,
    errno: u64,
}

fn val_const(w: u32, v: u128) -> Val {
    if w > 64 {
        Val::W(Rc::new(v))
    } else {
        Val::I(v as u64)
    }
}

impl<'t> Engine<'t> {
    pub fn new(m: Module<'t>, sh: &'static Shared, o: Opts, z3_timeout_ms: u32) -> Self {
        let n = m.fn_src.len();
        assert!(n < MAXFN);
        Engine {
            m,
            ar: Arena::new(),
            z3: Z3::new(z3_timeout_ms),
            funcs: vec![None; n],
            ext: vec![Ext::Unknown; n],
            pending: vec![],
            sh,
            o,
            dom_decisions: 0,
            cache_hits: 0,
            asserts_c: 0,
            asserts_s: 0,
            npaths: 0,
            nassume: 0,
            nforks: 0,
            ninsts: 0,
            qcache: Default::default(),
            fork_sites: Default::default(),
            proc_slot: 0,
            fn_seen: vec![false; n],
            errno: 0,
        }
    }

    pub fn func(&mut self, id: u32) -> X<&'static Func> {
        if let Some(f) = self.funcs[id as usize] {
            return Ok(f);
        }
        let f = self.m.compile(id).map_err(Stop::Err)?;
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize] = Some(f);
        Ok(f)
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let mut mem = Mem::new();
        mem.map(GLOBAL_BASE, self.m.globals_end - GLOBAL_BASE + 4096);
        self.errno = self.m.globals_end + 64;
        for (addr, s, e) in std::mem::take(&mut self.m.global_defs) {
            let (ty, v) = self.m.global_init(s, e)?;
            store_const(&mut mem, addr, &ty, &v);
        }
        let id = *self.m.fn_ids.get(entry).ok_or(format!("no entry {entry}"))?;
        let f = match self.func(id) {
            Ok(f) => f,
            Err(_) => return Err("compile entry".into()),
        };
        mem.map(STACK_BASE, 1 << 16);
        let mut off = 0;
        mem.map(TLS_BASE, 4 * 4096);
        for (a, n) in &self.m.tls {
            for t in 0..4 {
                mem.copy(TLS_BASE + 4096 * t + off, *a, *n);
            }
            off += n;
        }
        if off > 4096 {
            return Err("too much thread-local storage".into());
        }
        Ok(State {
            cur: Frame { f, pc: 0, regs: f.uninit.clone(), sp0: STACK_BASE, ret_d: u32::MAX, normal: u32::MAX, phis: u32::MAX },
            stack: vec![],
            mem,
            sp: STACK_BASE + 64,
            sp_mapped: STACK_BASE + (1 << 16),
            brk: HEAP_BASE,
            brk_mapped: HEAP_BASE,
            free: Rc::new(Default::default()),
            model: Rc::new(vec![]),
            doms: Rc::new(vec![]),
            linked: Rc::new(vec![]),
            cons: Rc::new(vec![]),
            objs: Rc::new(vec![]),
            depth: 0,
            insts: 0,
            clock: None,
            ticks: 0,
            log: Rc::new(vec![]),
            keys: 0,
            live: 0,
            tid: 0,
            parked: vec![None],
            covers: [0; 16],
        })
    }

    // ------------------------------------------------------------ value helpers
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.ar.konst(w, *x as u128),
            Val::W(x) => self.ar.konst(w, **x),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("to_e of aggregate"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.ar.as_const(e) {
            Some(c) => val_const(self.ar.w(e), c),
            None => Val::S(e),
        }
    }

    // ------------------------------------------------------------ constraints
    fn eff_vars(&mut self, st: &State, e: E) -> Vec<u32> {
        let vs = self.ar.vars(e);
        vs.iter().cloned().filter(|v| set_count(&st.doms[*v as usize]) > 1).collect()
    }
    /// Set of values of the single effective variable v for which e holds (all other vars fixed by model)
    fn eff_set(&mut self, st: &State, e: E, v: u32) -> Set256 {
        if self.ar.supp[e as usize] == v + 1 {
            return set_and(&self.ar.set_of(e), &st.doms[v as usize]);
        }
        let mut model = (*st.model).clone();
        let mut s = [0u64; 4];
        for x in 0..256usize {
            if set_has(&st.doms[v as usize], x as u8) {
                model[v as usize] = x as u8;
                if self.ar.eval(e, &model) == 1 {
                    set_add(&mut s, x as u8);
                }
            }
        }
        s
    }
    /// Is PC && e satisfiable?  On success returns a model.
    fn feasible(&mut self, st: &State, e: E) -> X<Option<Rc<Vec<u8>>>> {
        if let Some(c) = self.ar.as_const(e) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if self.ar.eval(e, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let ev = self.eff_vars(st, e);
        if ev.is_empty() {
            self.dom_decisions += 1;
            return Ok(None);
        }
        if ev.len() == 1 {
            let v = ev[0];
            let s = self.eff_set(st, e, v);
            if set_count(&s) == 0 {
                self.dom_decisions += 1;
                return Ok(None);
            }
            if !st.linked[v as usize] {
                self.dom_decisions += 1;
                let mut m = (*st.model).clone();
                m[v as usize] = set_first(&s).unwrap();
                return Ok(Some(Rc::new(m)));
            }
        }
        self.solve(st, e, ev)
    }
    fn solve(&mut self, st: &State, e: E, ev: Vec<u32>) -> X<Option<Rc<Vec<u8>>>> {
        // connected component
        let mut inset = vec![false; st.doms.len()];
        let mut vars = ev;
        for v in &vars {
            inset[*v as usize] = true;
        }
        let mut used = vec![false; st.cons.len()];
        let mut cons = vec![];
        loop {
            let mut changed = false;
            for (i, c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.ar.vars(*c);
                if vs.iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    cons.push(*c);
                    for v in vs.iter() {
                        if !inset[*v as usize] && set_count(&st.doms[*v as usize]) > 1 {
                            inset[*v as usize] = true;
                            vars.push(*v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        cons.sort_unstable();
        cons.push(e);
        // all variables mentioned (including fixed ones) with domains
        let mut all: Vec<u32> = vec![];
        for c in &cons {
            all.extend(self.ar.vars(*c).iter());
        }
        all.sort_unstable();
        all.dedup();
        let doms: Vec<(u32, Set256)> = all.iter().map(|v| (*v, st.doms[*v as usize])).collect();
        // cache
        let mut h: [u64; 2] = [0x9e3779b97f4a7c15, 0xc2b2ae3d27d4eb4f];
        let mut mix = |x: u64| {
            h[0] = (h[0] ^ x).wrapping_mul(0x9ddfea08eb382d69).rotate_left(29);
            h[1] = (h[1].rotate_left(17) ^ x).wrapping_mul(0xff51afd7ed558ccd);
            h[1] ^= h[1] >> 31;
        };
        for c in &cons {
            mix(*c as u64);
        }
        for (v, d) in &doms {
            mix(*v as u64);
            for x in d {
                mix(*x);
            }
        }
        let key = (h[0] as u128) << 64 | h[1] as u128;
        let res = if let Some(r) = self.qcache.get(&key) {
            self.cache_hits += 1;
            r.clone()
        } else {
            let r = self.z3.check(&mut self.ar, &cons, &doms).map_err(Stop::Err)?;
            let r = r.map(|vals| Rc::new(doms.iter().map(|d| d.0).zip(vals).collect::<Vec<_>>()));
            self.qcache.insert(key, r.clone());
            r
        };
        Ok(match res {
            None => None,
            Some(a) => {
                let mut m = (*st.model).clone();
                for (v, x) in a.iter() {
                    m[*v as usize] = *x;
                }
                Some(Rc::new(m))
            }
        })
    }
    /// Add e (known feasible, with model m) to the path condition.
    fn constrain(&mut self, st: &mut State, e: E, m: Rc<Vec<u8>>) {
        st.model = m;
        self.add_con(st, e);
    }
    fn add_con(&mut self, st: &mut State, e: E) {
        if self.ar.as_const(e).is_some() {
            return;
        }
        let n = self.ar.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_con(st, n.a);
            self.add_con(st, n.b);
            return;
        }
        // not(a or b)
        if n.op == Op::Xor && n.w == 1 && self.ar.as_const(n.b) == Some(1) {
            let i = self.ar.nodes[n.a as usize];
            if i.op == Op::Or {
                let a = self.ar.not(i.a);
                let b = self.ar.not(i.b);
                self.add_con(st, a);
                self.add_con(st, b);
                return;
            }
        }
        let ev = self.eff_vars(st, e);
        if ev.is_empty() {
            return;
        }
        if ev.len() == 1 {
            let v = ev[0];
            let s = self.eff_set(st, e, v);
            Rc::make_mut(&mut st.doms)[v as usize] = s;
            return;
        }
        let l = Rc::make_mut(&mut st.linked);
        for v in ev {
            l[v as usize] = true;
        }
        let c = Rc::make_mut(&mut st.cons);
        if !c.contains(&e) {
            c.push(e);
        }
    }

    fn note_fork(&mut self, st: &State, what: &str) {
        self.nforks += 1;
        if self.o.profile {
            let mut s = format!("{what} {}", crate::demangle(&st.cur.f.name));
            for fr in st.stack.iter().rev().take(2) {
                s.push_str(" < ");
                s.push_str(&crate::demangle(&fr.f.name));
            }
            *self.fork_sites.entry(s).or_insert(0) += 1;
        }
    }

    /// Make a value concrete, forking the other possibilities (they re-execute this instruction).
    fn conc(&mut self, st: &mut State, v: &Val, what: &str) -> X<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => err(format!("conc of aggregate ({what})")),
            Val::S(e) => {
                let w = self.ar.w(*e);
                let x = self.ar.eval(*e, &st.model);
                let k = self.ar.konst(w, x);
                let eq = self.ar.eq(*e, k);
                let ne = self.ar.not(eq);
                if let Some(m) = self.feasible(st, ne)? {
                    self.note_fork(st, what);
                    let mut other = st.clone();
                    self.constrain(&mut other, ne, m);
                    other.depth += 1;
                    self.pending.push(other);
                }
                let m = st.model.clone();
                self.constrain(st, eq, m);
                st.depth += 1;
                Ok(x as u64)
            }
        }
    }

    // ------------------------------------------------------------ memory access
    fn load_bytes_sym(&mut self, st: &State, a: u64, n: usize) -> X<E> {
        let mut r: Option<E> = None;
        for i in 0..n {
            let (b, s) = match st.mem.byte(a + i as u64) {
                Some(x) => x,
                None => return err(format!("load from unmapped {a:#x}")),
            };
            let be = if s != 0 { s } else { self.ar.konst(8, b as u128) };
            r = Some(match r {
                None => be,
                Some(lo) => self.ar.concat(be, lo),
            });
        }
        Ok(r.unwrap())
    }
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> X<Val> {
        let n = (w as usize).div_ceil(8);
        if n > 16 {
            return err(format!("load of i{w}"));
        }
        match st.mem.load(a, n) {
            None => err(format!("load from unmapped {a:#x}")),
            Some(Ok(v)) => Ok(val_const(w, v & mask(w))),
            Some(Err(())) => {
                let e = self.load_bytes_sym(st, a, n)?;
                let e = self.ar.extract(e, 0, w);
                Ok(self.from_e(e))
            }
        }
    }
    fn load_ty(&mut self, st: &State, a: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, a, 64),
            Ty::F32 => self.load_int(st, a, 32),
            Ty::Arr(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * t.size(), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let tot = b * n;
                    let x = self.load_int(st, a, tot as u32)?;
                    return self.bitcast(x, &Ty::Int(tot as u32), ty);
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * b / 8, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let (o, _) = ty.field_offsets();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + o[i], t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> X<()> {
        let n = (w as usize).div_ceil(8);
        let ok = match v {
            Val::I(x) => {
                if n > 8 {
                    st.mem.store(a, 8, *x as u128);
                    st.mem.store(a + 8, n - 8, 0)
                } else {
                    st.mem.store(a, n, *x as u128)
                }
            }
            Val::W(x) => {
                if n > 16 {
                    return err("wide store");
                }
                st.mem.store(a, n, **x)
            }
            Val::S(e) => {
                let mut e = *e;
                if w as usize != n * 8 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                let mut r = Some(());
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i as u32, 8);
                    let (cv, se) = match self.ar.as_const(b) {
                        Some(c) => (c as u8, 0),
                        None => (0, b),
                    };
                    r = st.mem.set_byte(a + i as u64, cv, se);
                    if r.is_none() {
                        break;
                    }
                }
                r
            }
            Val::A(_) => return err("store agg as int"),
        };
        match ok {
            Some(()) => Ok(()),
            None => err(format!("store to unmapped {a:#x}")),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, a, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, a, 64, v),
            Ty::F32 => self.store_int(st, a, 32, v),
            Ty::Arr(n, t) => {
                let vs = agg(v)?;
                for i in 0..*n {
                    self.store_ty(st, a + i * t.size(), t, &vs[i as usize])?;
                }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let tot = (b * n) as u32;
                    let x = self.bitcast(v.clone(), ty, &Ty::Int(tot))?;
                    return self.store_int(st, a, tot, &x);
                }
                let vs = agg(v)?;
                for i in 0..*n {
                    self.store_ty(st, a + i * b / 8, t, &vs[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let (o, _) = ty.field_offsets();
                let vs = agg(v)?;
                for (i, t) in f.iter().enumerate() {
                    self.store_ty(st, a + o[i], t, &vs[i])?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    /// Load through a symbolic address that depends on one byte only: build a table or an ite chain.
    fn load_symaddr(&mut self, st: &mut State, e: E, ty: &Ty) -> X<Option<Val>> {
        let w = match ty {
            Ty::Int(w) if *w <= 64 => *w,
            Ty::Ptr => 64,
            _ => return Ok(None),
        };
        let ev = self.eff_vars(st, e);
        if ev.len() != 1 {
            return Ok(None);
        }
        let v = ev[0];
        let dom = st.doms[v as usize];
        let mut addrs = [0u64; 256];
        if self.ar.supp[e as usize] == v + 1 {
            addrs = *self.ar.table(e);
        } else {
            let mut model = (*st.model).clone();
            for x in 0..256usize {
                if set_has(&dom, x as u8) {
                    model[v as usize] = x as u8;
                    addrs[x] = self.ar.eval(e, &model) as u64;
                }
            }
        }
        let n = (w as usize).div_ceil(8);
        let mut tab = [0u64; 256];
        let mut allc = true;
        let mut last = (u64::MAX, 0u64);
        for x in 0..256usize {
            if set_has(&dom, x as u8) {
                let a = addrs[x];
                if a == last.0 {
                    tab[x] = last.1;
                    continue;
                }
                match st.mem.load(a, n) {
                    None => return Ok(None),
                    Some(Err(())) => {
                        allc = false;
                        break;
                    }
                    Some(Ok(c)) => {
                        tab[x] = (c & mask(w)) as u64;
                        last = (a, tab[x]);
                    }
                }
            }
        }
        if allc {
            // make don't-care entries equal to the first one for sharing
            let f = tab[set_first(&dom).unwrap() as usize];
            for x in 0..256usize {
                if !set_has(&dom, x as u8) {
                    tab[x] = f;
                }
            }
            let e = self.ar.tab(w, v, &tab);
            return Ok(Some(self.from_e(e)));
        }
        let mut uniq: Vec<u64> = (0..256usize).filter(|x| set_has(&dom, *x as u8)).map(|x| addrs[x]).collect();
        uniq.sort_unstable();
        uniq.dedup();
        if uniq.len() > 16 {
            return Ok(None);
        }
        let mut r: Option<E> = None;
        for a in uniq {
            let x = self.load_int(st, a, w)?;
            let xe = self.to_e(&x, w);
            r = Some(match r {
                None => xe,
                Some(p) => {
                    let k = self.ar.konst(64, a as u128);
                    let c = self.ar.eq(e, k);
                    self.ar.ite(c, xe, p)
                }
            });
        }
        Ok(Some(self.from_e(r.unwrap())))
    }

    fn bitcast(&mut self, v: Val, from: &Ty, to: &Ty) -> X<Val> {
        let lanes = |t: &Ty| -> (u64, u64) {
            match t {
                Ty::Vec(n, t) => (*n, t.bits()),
                t => (1, t.bits()),
            }
        };
        let (fnn, fw) = lanes(from);
        let (tn, tw) = lanes(to);
        if fw == tw && fnn == tn {
            return Ok(match (matches!(from, Ty::Vec(..)), matches!(to, Ty::Vec(..))) {
                (true, false) => agg(&v)?[0].clone(),
                (false, true) => Val::A(Rc::new(vec![v])),
                _ => v,
            });
        }
        let src: Vec<Val> = match from {
            Ty::Vec(..) => agg(&v)?.to_vec(),
            _ => vec![v],
        };
        let tot = fnn * fw;
        if tot > 128 {
            // split in 128-bit chunks when lanes allow
            if 128 % fw == 0 && 128 % tw == 0 && tot % 128 == 0 {
                let per = (128 / fw) as usize;
                let mut out = vec![];
                for ch in src.chunks(per) {
                    let ft = Ty::Vec(per as u64, Rc::new(Ty::Int(fw as u32)));
                    let tt = Ty::Vec(128 / tw, Rc::new(Ty::Int(tw as u32)));
                    let r = self.bitcast(Val::A(Rc::new(ch.to_vec())), &ft, &tt)?;
                    out.extend(agg(&r)?.iter().cloned());
                }
                return Ok(Val::A(Rc::new(out)));
            }
            return err("wide bitcast");
        }
        let allc = src.iter().all(|x| matches!(x, Val::I(_) | Val::W(_)));
        let mut out = vec![];
        if allc {
            let mut x = 0u128;
            for (i, s) in src.iter().enumerate() {
                x |= Module::as_u(s) << (i as u64 * fw);
            }
            for i in 0..tn {
                out.push(val_const(tw as u32, (x >> (i * tw)) & mask(tw as u32)));
            }
        } else {
            let mut e: Option<E> = None;
            for s in &src {
                let x = self.to_e(s, fw as u32);
                e = Some(match e {
                    None => x,
                    Some(lo) => self.ar.concat(x, lo),
                });
            }
            let e = e.unwrap();
            for i in 0..tn {
                let x = self.ar.extract(e, (i * tw) as u32, tw as u32);
                out.push(self.from_e(x));
            }
        }
        Ok(match to {
            Ty::Vec(..) => Val::A(Rc::new(out)),
            _ => out.pop().unwrap(),
        })
    }

    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::I(x), Val::I(y)) if w <= 64 => {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(y) & m,
                    Op::Sub => x.wrapping_sub(y) & m,
                    Op::Mul => x.wrapping_mul(y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    Op::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => eval_bin(op, w, x as u128, y as u128) as u64,
                };
                Val::I(r)
            }
            (Val::S(_), _) | (_, Val::S(_)) => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let e = self.ar.bin(op, x, y);
                self.from_e(e)
            }
            _ => val_const(w, eval_bin(op, w, Module::as_u(a), Module::as_u(b))),
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| sext_to_i128(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            };
            return Val::I(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.from_e(e)
    }
    fn cast_scalar(&mut self, k: CastK, fw: u32, tw: u32, v: &Val) -> X<Val> {
        Ok(match (k, v) {
            (CastK::Trunc, Val::S(e)) => {
                let e = self.ar.extract(*e, 0, tw);
                self.from_e(e)
            }
            (CastK::Trunc, _) => val_const(tw, Module::as_u(v) & mask(tw)),
            (CastK::ZExt, Val::S(e)) => {
                let e = self.ar.zext(*e, tw);
                self.from_e(e)
            }
            (CastK::ZExt, _) => val_const(tw, Module::as_u(v)),
            (CastK::SExt, Val::S(e)) => {
                let e = self.ar.sext(*e, tw);
                self.from_e(e)
            }
            (CastK::SExt, _) => val_const(tw, sext_to_i128(Module::as_u(v), fw) as u128 & mask(tw)),
            (CastK::PtrToInt | CastK::IntToPtr, v) => {
                if fw == tw {
                    v.clone()
                } else if fw > tw {
                    self.cast_scalar(CastK::Trunc, fw, tw, v)?
                } else {
                    self.cast_scalar(CastK::ZExt, fw, tw, v)?
                }
            }
            (_, Val::S(_)) => return err("symbolic float cast"),
            (CastK::UiToFp, v) => {
                let x = Module::as_u(v);
                if tw == 64 {
                    Val::I((x as f64).to_bits())
                } else {
                    Val::I((x as f32).to_bits() as u64)
                }
            }
            (CastK::SiToFp, v) => {
                let x = sext_to_i128(Module::as_u(v), fw);
                if tw == 64 {
                    Val::I((x as f64).to_bits())
                } else {
                    Val::I((x as f32).to_bits() as u64)
                }
            }
            (CastK::FpToUi | CastK::FpToSi, Val::I(x)) => {
                let f = if fw == 64 { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 };
                let r = if k == CastK::FpToUi { f as u128 } else { f as i128 as u128 };
                val_const(tw, r & mask(tw))
            }
            (CastK::FpExt, Val::I(x)) => Val::I((f32::from_bits(*x as u32) as f64).to_bits()),
            (CastK::FpTrunc, Val::I(x)) => Val::I((f64::from_bits(*x) as f32).to_bits() as u64),
            _ => return err("cast"),
        })
    }
    fn ite_val(&mut self, c: E, a: &Val, b: &Val, ty: &Ty) -> X<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut o = vec![];
                for i in 0..x.len() {
                    let t = match ty {
                        Ty::Struct(f, _) => f[i].clone(),
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => return err("ite agg"),
                    };
                    o.push(self.ite_val(c, &x[i], &y[i], &t)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => {
                let w = ty.bits() as u32;
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let e = self.ar.ite(c, x, y);
                Ok(self.from_e(e))
            }
        }
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, mut st: State) -> (Stop, State) {
        let before = st.insts;
        let r = self.run_inner(&mut st);
        self.ninsts += st.insts - before;
        match r {
            Ok(()) => (Stop::End, st),
            Err(s) => (s, st),
        }
    }

    fn take_edge(st: &mut State, target: u32, edge: u32) {
        let f = st.cur.f;
        if edge != u32::MAX {
            let cp = &f.edges[edge as usize];
            if cp.len() == 1 {
                let v = get(&st.cur.regs, &cp[0].1);
                st.cur.regs[cp[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = cp.iter().map(|(_, o)| get(&st.cur.regs, o)).collect();
                for ((d, _), v) in cp.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.pc = f.starts[target as usize];
    }

    fn run_inner(&mut self, st: &mut State) -> X<()> {
        loop {
            st.insts += 1;
            if st.insts & 0xfff == 0 {
                if self.sh.stop.load(Relaxed) != 0 {
                    return Err(Stop::Assume);
                }
                if st.insts & 0xfffff == 0 && std::time::Instant::now() > self.o.deadline {
                    return err("time limit");
                }
                if st.insts > self.o.max_path_insts {
                    return err(format!("path instruction limit in {}", self.bt(st)));
                }
            }
            let f = st.cur.f;
            let pc = st.cur.pc as usize;
            let inst = &f.code[pc];
            match inst {
                Inst::Bin { d, op, w, lanes, a, b } => {
                    let (x, y) = (get(&st.cur.regs, a), get(&st.cur.regs, b));
                    let r = if *lanes == 0 {
                        self.bin(*op, *w, &x, &y)
                    } else {
                        let (x, y) = (agg(&x)?, agg(&y)?);
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            o.push(self.bin(*op, *w, &x[i], &y[i]));
                        }
                        Val::A(Rc::new(o))
                    };
                    st.cur.regs[*d as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::ICmp { d, p, w, lanes, a, b } => {
                    let (x, y) = (get(&st.cur.regs, a), get(&st.cur.regs, b));
                    let r = if *lanes == 0 {
                        self.icmp(*p, *w, &x, &y)
                    } else {
                        let (x, y) = (agg(&x)?, agg(&y)?);
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            o.push(self.icmp(*p, *w, &x[i], &y[i]));
                        }
                        Val::A(Rc::new(o))
                    };
                    st.cur.regs[*d as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Load { d, ty, p } => {
                    let pv = get(&st.cur.regs, p);
                    let v = match &pv {
                        Val::I(a) => match &**ty {
                            Ty::Int(w) => self.load_int(st, *a, *w),
                            Ty::Ptr => self.load_int(st, *a, 64),
                            t => self.load_ty(st, *a, t),
                        },
                        Val::S(e) => match self.load_symaddr(st, *e, ty)? {
                            Some(v) => Ok(v),
                            None => {
                                let a = self.conc(st, &pv, "load-addr")?;
                                self.load_ty(st, a, ty)
                            }
                        },
                        _ => return err("load ptr"),
                    };
                    let v = match v {
                        Ok(v) => v,
                        Err(Stop::Err(s)) => return err(format!("{s} in {}", self.bt(st))),
                        Err(s) => return Err(s),
                    };
                    st.cur.regs[*d as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::Store { ty, v, p } => {
                    let pv = get(&st.cur.regs, p);
                    let a = self.conc(st, &pv, "store-addr")?;
                    let x = get(&st.cur.regs, v);
                    match self.store_ty(st, a, ty, &x) {
                        Ok(()) => {}
                        Err(Stop::Err(s)) => return err(format!("{s} in {}", self.bt(st))),
                        Err(s) => return Err(s),
                    }
                    st.cur.pc += 1;
                }
                Inst::Gep { d, base, off, terms } => {
                    let b = get(&st.cur.regs, base);
                    let mut r = self.bin(Op::Add, 64, &b, &Val::I(*off));
                    for (o, w, sc) in terms {
                        let i = get(&st.cur.regs, o);
                        let i = if *w == 64 { i } else { self.cast_scalar(CastK::SExt, *w, 64, &i)? };
                        let t = if *sc == 1 { i } else { self.bin(Op::Mul, 64, &i, &Val::I(*sc)) };
                        r = self.bin(Op::Add, 64, &r, &t);
                    }
                    st.cur.regs[*d as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::GepVec { d, base, off, terms, n } => {
                    let b = get(&st.cur.regs, base);
                    let mut o = vec![];
                    for k in 0..*n as usize {
                        let bl = match &b {
                            Val::A(v) => v[k].clone(),
                            v => v.clone(),
                        };
                        let mut r = self.bin(Op::Add, 64, &bl, &Val::I(*off));
                        for (op, w, sc) in terms {
                            let i = get(&st.cur.regs, op);
                            let i = match &i {
                                Val::A(v) => v[k].clone(),
                                v => v.clone(),
                            };
                            let i = if *w == 64 { i } else { self.cast_scalar(CastK::SExt, *w, 64, &i)? };
                            let t = self.bin(Op::Mul, 64, &i, &Val::I(*sc));
                            r = self.bin(Op::Add, 64, &r, &t);
                        }
                        o.push(r);
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(o));
                    st.cur.pc += 1;
                }
                Inst::Br { t, e } => Self::take_edge(st, *t, *e),
                Inst::CondBr { c, t, te, f: fb, fe } => {
                    match get(&st.cur.regs, c) {
                        Val::I(x) => {
                            if x & 1 == 1 {
                                Self::take_edge(st, *t, *te)
                            } else {
                                Self::take_edge(st, *fb, *fe)
                            }
                        }
                        Val::S(e) => {
                            let ne = self.ar.not(e);
                            let cur_true = self.ar.eval(e, &st.model) == 1;
                            let (other, tgt) = if cur_true { (ne, (*fb, *fe)) } else { (e, (*t, *te)) };
                            let mine = if cur_true { e } else { ne };
                            if let Some(m) = self.feasible(st, other)? {
                                self.note_fork(st, "br");
                                let mut o = st.clone();
                                o.depth += 1;
                                self.constrain(&mut o, other, m);
                                Self::take_edge(&mut o, tgt.0, tgt.1);
                                self.pending.push(o);
                                let m = st.model.clone();
                                self.constrain(st, mine, m);
                                st.depth += 1;
                            }
                            if cur_true {
                                Self::take_edge(st, *t, *te)
                            } else {
                                Self::take_edge(st, *fb, *fe)
                            }
                        }
                        _ => return err("br cond"),
                    }
                }
                Inst::Switch { v, w, def, defe, cases } => {
                    match get(&st.cur.regs, v) {
                        Val::I(x) => {
                            let mut tgt = (*def, *defe);
                            for (c, t, e) in cases {
                                if *c == x {
                                    tgt = (*t, *e);
                                    break;
                                }
                            }
                            Self::take_edge(st, tgt.0, tgt.1);
                        }
                        Val::S(e) => {
                            let x = self.ar.eval(e, &st.model) as u64;
                            // group cases by target/edge
                            let mut groups: Vec<((u32, u32), Vec<u64>)> = vec![];
                            for (c, t, ed) in cases {
                                if let Some(g) = groups.iter_mut().find(|g| g.0 .0 == *t) {
                                    g.1.push(*c);
                                } else {
                                    groups.push(((*t, *ed), vec![*c]));
                                }
                            }
                            let mut conds: Vec<((u32, u32), E, bool)> = vec![];
                            let mut any = self.ar.konst(1, 0);
                            let mut hit = false;
                            for (tg, cs) in groups {
                                let mut g = self.ar.konst(1, 0);
                                let mut h = false;
                                for c in cs {
                                    let k = self.ar.konst(*w, c as u128);
                                    let q = self.ar.eq(e, k);
                                    g = self.ar.or(g, q);
                                    h |= c == x;
                                }
                                any = self.ar.or(any, g);
                                hit |= h;
                                conds.push((tg, g, h));
                            }
                            let d = self.ar.not(any);
                            conds.push(((*def, *defe), d, !hit));
                            let mut mine = None;
                            for (tg, c, h) in conds {
                                if h {
                                    mine = Some((tg, c));
                                    continue;
                                }
                                if let Some(m) = self.feasible(st, c)? {
                                    self.note_fork(st, "switch");
                                    let mut o = st.clone();
                                    o.depth += 1;
                                    self.constrain(&mut o, c, m);
                                    Self::take_edge(&mut o, tg.0, tg.1);
                                    self.pending.push(o);
                                }
                            }
                            let (tg, c) = mine.unwrap();
                            let m = st.model.clone();
                            self.constrain(st, c, m);
                            st.depth += 1;
                            Self::take_edge(st, tg.0, tg.1);
                        }
                        _ => return err("switch"),
                    }
                }
                Inst::Select { d, c, a, b, ty, vec } => {
                    let cv = get(&st.cur.regs, c);
                    let r = match cv {
                        Val::I(x) => {
                            if x & 1 == 1 {
                                get(&st.cur.regs, a)
                            } else {
                                get(&st.cur.regs, b)
                            }
                        }
                        Val::S(e) => {
                            let x = get(&st.cur.regs, a);
                            let y = get(&st.cur.regs, b);
                            if **ty == Ty::Ptr {
                                // pointers: decide by forking (keeps addresses concrete)
                                let k = self.conc(st, &Val::S(e), "select-ptr")?;
                                if k == 1 {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite_val(e, &x, &y, ty)?
                            }
                        }
                        Val::A(cs) if *vec => {
                            let x = get(&st.cur.regs, a);
                            let y = get(&st.cur.regs, b);
                            let (x, y) = (agg(&x)?.to_vec(), agg(&y)?.to_vec());
                            let lt = match &**ty {
                                Ty::Vec(_, t) => t.clone(),
                                _ => return err("vselect"),
                            };
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(match &cs[i] {
                                    Val::I(k) => {
                                        if k & 1 == 1 {
                                            x[i].clone()
                                        } else {
                                            y[i].clone()
                                        }
                                    }
                                    Val::S(e) => self.ite_val(*e, &x[i], &y[i], &lt)?,
                                    _ => return err("vselect"),
                                });
                            }
                            Val::A(Rc::new(o))
                        }
                        _ => return err("select"),
                    };
                    st.cur.regs[*d as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Cast { d, k, from, to, a } => {
                    let v = get(&st.cur.regs, a);
                    let r = if *k == CastK::BitCast {
                        self.bitcast(v, from, to)?
                    } else {
                        match (&**from, &**to) {
                            (Ty::Vec(_, ft), Ty::Vec(_, tt)) => {
                                let (fw, tw) = (ft.bits() as u32, tt.bits() as u32);
                                let mut o = vec![];
                                for x in agg(&v)?.to_vec() {
                                    o.push(self.cast_scalar(*k, fw, tw, &x)?);
                                }
                                Val::A(Rc::new(o))
                            }
                            (ft, tt) => self.cast_scalar(*k, ft.bits() as u32, tt.bits() as u32, &v)?,
                        }
                    };
                    st.cur.regs[*d as usize] = r;
                    st.cur.pc += 1;
                }
                Inst::Alloca { d, size, align, n } => {
                    let k = get(&st.cur.regs, n);
                    let k = self.conc(st, &k, "alloca")?;
                    let a = (st.sp + align - 1) / align * align;
                    st.sp = a + size * k;
                    if st.sp - STACK_BASE - ((st.tid as u64) << 30) > 256 << 20 {
                        return Err(Stop::Viol("stack overflow".into()));
                    }
                    if st.sp > st.sp_mapped {
                        let from = st.sp_mapped;
                        let to = (st.sp + 0xffff) & !0xffff;
                        st.mem.map(from, to - from);
                        st.sp_mapped = to;
                    }
                    st.cur.regs[*d as usize] = Val::I(a);
                    st.cur.pc += 1;
                }
                Inst::Call { d, callee, args, ret, normal, phis } => {
                    let id = match callee {
                        Callee::Direct(i) => *i,
                        Callee::Indirect(o) => {
                            let p = get(&st.cur.regs, o);
                            let p = self.conc(st, &p, "call-ptr")?;
                            if p < FN_BASE || (p - FN_BASE) % 16 != 0 || (p - FN_BASE) / 16 >= self.m.fn_src.len() as u64 {
                                return err(format!("bad function pointer {p:#x} in {}", self.bt(st)));
                            }
                            ((p - FN_BASE) / 16) as u32
                        }
                    };
                    let mut k = self.ext[id as usize];
                    if k == Ext::Unknown {
                        k = self.classify(id);
                        self.ext[id as usize] = k;
                    }
                    if k == Ext::Body {
                        let nf = self.func(id)?;
                        if !self.fn_seen[id as usize] {
                            self.fn_seen[id as usize] = true;
                            self.sh.fns[id as usize].store(1, Relaxed);
                        }
                        let mut regs = nf.uninit.clone();
                        for (i, (a, _)) in args.iter().enumerate() {
                            if i < nf.params.len() {
                                regs[nf.params[i] as usize] = get(&st.cur.regs, a);
                            }
                        }
                        let nfrm = Frame { f: nf, pc: 0, regs, sp0: st.sp, ret_d: *d, normal: *normal, phis: *phis };
                        let old = std::mem::replace(&mut st.cur, nfrm);
                        st.stack.push(Rc::new(old));
                        if st.stack.len() > 20_000 {
                            return Err(Stop::Viol(format!("stack overflow (recursion) in {}", self.bt(st))));
                        }
                        continue;
                    }
                    let vals: Vec<Val> = args.iter().map(|(a, _)| get(&st.cur.regs, a)).collect();
                    let r = match self.builtin(st, k, id, &vals, args, ret) {
                        Ok(r) => r,
                        Err(Stop::Err(s)) => return err(format!("{s} in {}", self.bt(st))),
                        Err(s) => return Err(s),
                    };
                    if *d != u32::MAX {
                        if let Some(r) = r {
                            st.cur.regs[*d as usize] = r;
                        }
                    }
                    if *normal != u32::MAX {
                        Self::take_edge(st, *normal, *phis);
                    } else {
                        st.cur.pc = st.cur.pc.wrapping_add(1);
                    }
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|o| get(&st.cur.regs, o));
                    match st.stack.pop() {
                        None => return Ok(()),
                        Some(p) => {
                            let parent = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                            let old = std::mem::replace(&mut st.cur, parent);
                            st.sp = old.sp0;
                            if old.ret_d != u32::MAX {
                                if let Some(r) = r {
                                    st.cur.regs[old.ret_d as usize] = r;
                                }
                            }
                            if old.normal != u32::MAX {
                                Self::take_edge(st, old.normal, old.phis);
                            } else {
                                st.cur.pc += 1;
                            }
                        }
                    }
                }
                Inst::ExtractValue { d, a, idx } => {
                    let mut v = get(&st.cur.regs, a);
                    for i in idx {
                        let n = agg(&v)?[*i as usize].clone();
                        v = n;
                    }
                    st.cur.regs[*d as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::InsertValue { d, a, v, idx, ty } => {
                    let mut base = get(&st.cur.regs, a);
                    if let Val::I(_) = base {
                        base = Module::zero(ty);
                    }
                    let x = get(&st.cur.regs, v);
                    fn ins(b: &mut Val, idx: &[u32], x: Val) {
                        if idx.is_empty() {
                            *b = x;
                            return;
                        }
                        if let Val::A(v) = b {
                            ins(&mut Rc::make_mut(v)[idx[0] as usize], &idx[1..], x);
                        }
                    }
                    ins(&mut base, idx, x);
                    st.cur.regs[*d as usize] = base;
                    st.cur.pc += 1;
                }
                Inst::ExtractElem { d, a, i } => {
                    let iv = get(&st.cur.regs, i);
                    let i = self.conc(st, &iv, "extractelement")?;
                    let v = get(&st.cur.regs, a);
                    let v = agg(&v)?[i as usize].clone();
                    st.cur.regs[*d as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::InsertElem { d, a, v, i } => {
                    let iv = get(&st.cur.regs, i);
                    let i = self.conc(st, &iv, "insertelement")?;
                    let mut base = get(&st.cur.regs, a);
                    let x = get(&st.cur.regs, v);
                    if let Val::A(b) = &mut base {
                        Rc::make_mut(b)[i as usize] = x;
                    } else {
                        return err("insertelement base");
                    }
                    st.cur.regs[*d as usize] = base;
                    st.cur.pc += 1;
                }
                Inst::Shuffle { d, a, b, mask, n } => {
                    let x = get(&st.cur.regs, a);
                    let y = get(&st.cur.regs, b);
                    let (x, y) = (agg(&x)?, agg(&y)?);
                    let mut o = vec![];
                    for m in mask {
                        let m = *m as usize;
                        o.push(if m < *n as usize { x[m].clone() } else { y[m - *n as usize].clone() });
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(o));
                    st.cur.pc += 1;
                }
                Inst::Freeze { d, a } => {
                    let v = get(&st.cur.regs, a);
                    st.cur.regs[*d as usize] = v;
                    st.cur.pc += 1;
                }
                Inst::AtomicRmw { d, op, p, v, ty } => {
                    let pv = get(&st.cur.regs, p);
                    let a = self.conc(st, &pv, "rmw")?;
                    let old = self.load_ty(st, a, ty)?;
                    let x = get(&st.cur.regs, v);
                    let w = ty.bits() as u32;
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(Op::Add, w, &old, &x),
                        "sub" => self.bin(Op::Sub, w, &old, &x),
                        "and" => self.bin(Op::And, w, &old, &x),
                        "or" => self.bin(Op::Or, w, &old, &x),
                        "xor" => self.bin(Op::Xor, w, &old, &x),
                        "umax" | "umin" => {
                            let c = self.icmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &x);
                            match c {
                                Val::I(1) => old.clone(),
                                Val::I(_) => x,
                                Val::S(e) => self.ite_val(e, &old, &x, ty)?,
                                _ => return err("rmw"),
                            }
                        }
                        o => return err(format!("atomicrmw {o}")),
                    };
                    self.store_ty(st, a, ty, &new)?;
                    st.cur.regs[*d as usize] = old;
                    st.cur.pc += 1;
                }
                Inst::CmpXchg { d, p, e, n, ty } => {
                    let pv = get(&st.cur.regs, p);
                    let a = self.conc(st, &pv, "cmpxchg")?;
                    let old = self.load_ty(st, a, ty)?;
                    let ex = get(&st.cur.regs, e);
                    let c = self.icmp(Pred::Eq, ty.bits() as u32, &old, &ex);
                    let k = self.conc(st, &c, "cmpxchg")?;
                    if k == 1 {
                        let nv = get(&st.cur.regs, n);
                        self.store_ty(st, a, ty, &nv)?;
                    }
                    st.cur.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::I(k)]));
                    st.cur.pc += 1;
                }
                Inst::FBin { d, op, f64_, a, b } => {
                    let (x, y) = (get(&st.cur.regs, a), get(&st.cur.regs, b));
                    let (x, y) = match (x, y) {
                        (Val::I(x), Val::I(y)) => (x, y),
                        _ => return err("symbolic float"),
                    };
                    let r = if *f64_ {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            b'a' => x + y,
                            b's' => x - y,
                            b'm' => x * y,
                            b'd' => x / y,
                            _ => x % y,
                        }
                        .to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            b'a' => x + y,
                            b's' => x - y,
                            b'm' => x * y,
                            b'd' => x / y,
                            _ => x % y,
                        }
                        .to_bits() as u64
                    };
                    st.cur.regs[*d as usize] = Val::I(r);
                    st.cur.pc += 1;
                }
                Inst::FNeg { d, f64_, a } => {
                    let x = match get(&st.cur.regs, a) {
                        Val::I(x) => x,
                        _ => return err("symbolic float"),
                    };
                    st.cur.regs[*d as usize] = Val::I(if *f64_ { x ^ (1 << 63) } else { x ^ (1 << 31) });
                    st.cur.pc += 1;
                }
                Inst::FCmp { d, p, f64_, a, b } => {
                    let (x, y) = match (get(&st.cur.regs, a), get(&st.cur.regs, b)) {
                        (Val::I(x), Val::I(y)) => (x, y),
                        _ => return err("symbolic float"),
                    };
                    let (x, y) = if *f64_ {
                        (f64::from_bits(x), f64::from_bits(y))
                    } else {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "one" => !un && x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "une" => un || x != y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        o => return err(format!("fcmp {o}")),
                    };
                    st.cur.regs[*d as usize] = Val::I(r as u64);
                    st.cur.pc += 1;
                }
                Inst::Asm { d, text, ret } => {
                    if *d != u32::MAX {
                        // cpuid and friends: report "no optional CPU features"
                        st.cur.regs[*d as usize] = Module::zero(ret);
                    }
                    let _ = text;
                    st.cur.pc += 1;
                }
                Inst::Unreachable => return err(format!("unreachable executed in {}", self.bt(st))),
                Inst::Bad(s) => return err(format!("bad instruction: {s} in {}", crate::demangle(&f.name))),
            }
        }
    }

    pub fn bt(&self, st: &State) -> String {
        let mut s = crate::demangle(&st.cur.f.name);
        for fr in st.stack.iter().rev().take(12) {
            s.push_str(" < ");
            s.push_str(&crate::demangle(&fr.f.name));
        }
        s
    }

    fn classify(&self, id: u32) -> Ext {
        let (name, src) = &self.m.fn_src[id as usize];
        let n = name.as_str();
        if n.contains("4core9panicking")
            || n.contains("16slice_error_fail")
            || n.contains("13unwrap_failed")
            || n.contains("13expect_failed")
            || n.contains("26slice_start_index_len_fail")
            || n.contains("24slice_end_index_len_fail")
            || n.contains("22slice_index_order_fail")
            || n.contains("raw_vec12handle_error")
            || n.contains("raw_vec17capacity_overflow")
            || n.contains("18handle_alloc_error")
            || n.contains("22panic_already_borrowed")
            || n.contains("30panic_already_mutably_borrowed")
            || n.contains("9panicking11begin_panic")
            || n.contains("10rust_panic")
            || n.contains("20rust_panic_with_hook")
            || n == "rust_begin_unwind"
        {
            return Ext::Panic;
        }
        match n {
            "malloc" => return Ext::Malloc,
            "calloc" => return Ext::Calloc,
            "realloc" => return Ext::Realloc,
            "free" => return Ext::Free,
            "posix_memalign" => return Ext::PosixMemalign,
            "memcpy" | "memmove" => return Ext::Memcpy,
            "memset" => return Ext::Memset,
            "memcmp" => return Ext::Memcmp,
            "bcmp" => return Ext::Bcmp,
            "strlen" => return Ext::Strlen,
            "__sym_make" => return Ext::SymMake,
            "__sym_assume" => return Ext::SymAssume,
            "__sym_assert" => return Ext::SymAssert,
            "__sym_cover" => return Ext::SymCover,
            "__sym_conc" => return Ext::SymConc,
            "__sym_clock" => return Ext::SymClock,
            "__sym_live" => return Ext::SymLive,
            "__sym_spawn" => return Ext::SymSpawn,
            "__sym_switch" => return Ext::SymSwitch,
            "__sym_log" => return Ext::SymLog,
            "__sym_param" => return Ext::SymParam,
            "__sym_merge" => return Ext::SymMerge,
            "clock_gettime" => return Ext::ClockGettime,
            "syscall" => return Ext::Syscall,
            "write" => return Ext::Write,
            "getenv" => return Ext::Getenv,
            "abort" => return Ext::Abort,
            "__errno_location" => return Ext::Errno,
            "pthread_key_create" => return Ext::KeyCreate,
            "sysconf" => return Ext::Sysconf,
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_setspecific" | "pthread_key_delete" | "munmap"
            | "close" | "pthread_self" | "sched_yield" | "__cxa_thread_atexit_impl" | "pthread_getspecific" => return Ext::Zero,
            "open" | "open64" | "stat64" | "fstat64" | "readlink" => return Ext::MinusOne,
            _ => {}
        }
        if n.starts_with("llvm.") {
            return Ext::Intr;
        }
        if src.is_some() {
            return Ext::Body;
        }
        Ext::Bad
    }

    // ------------------------------------------------------------ builtins
    fn malloc(&mut self, st: &mut State, size: u64, align: u64) -> X<u64> {
        if size > 1 << 31 {
            return Ok(0);
        }
        let sz = (size.max(1) + 15) & !15;
        if align <= 16 {
            if let Some(l) = st.free.get(&sz) {
                if !l.is_empty() {
                    let a = Rc::make_mut(&mut st.free).get_mut(&sz).unwrap().pop().unwrap();
                    if self.o.poison {
                        st.mem.store(a - 8, 8, sz as u128);
                    }
                    st.live += 1;
                    return Ok(a);
                }
            }
        }
        let al = align.max(16);
        let a = (st.brk + 16 + al - 1) / al * al;
        st.brk = a + sz;
        if st.brk >= STACK_BASE {
            return err("heap exhausted");
        }
        if st.brk > st.brk_mapped {
            let from = st.brk_mapped;
            let to = (st.brk + 0xffff) & !0xfff;
            st.mem.map(from, to - from);
            st.brk_mapped = to;
        }
        st.mem.store(a - 8, 8, (if align <= 16 { sz } else { sz | 1 }) as u128);
        st.live += 1;
        Ok(a)
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 {
            return Ok(());
        }
        let sz = match st.mem.load(p - 8, 8) {
            Some(Ok(v)) => v as u64,
            _ => return err("free of bad pointer"),
        };
        if self.o.poison {
            if sz & 2 == 2 {
                return Err(Stop::Viol(format!("memory freed twice < {}", self.bt(st))));
            }
            if sz == 0 || sz > 1 << 32 {
                return Err(Stop::Viol(format!("free of something that was not allocated < {}", self.bt(st))));
            }
            st.mem.store(p - 8, 8, (sz | 2) as u128);
            st.mem.fill(p, sz & !3, 0xdd);
        }
        st.live -= 1;
        if sz & 1 == 1 || sz > 1 << 20 {
            return Ok(());
        }
        Rc::make_mut(&mut st.free).entry(sz).or_default().push(p);
        Ok(())
    }

    fn builtin(
        &mut self,
        st: &mut State,
        k: Ext,
        id: u32,
        v: &[Val],
        args: &[(Opd, Rc<Ty>)],
        ret: &Rc<Ty>,
    ) -> X<Option<Val>> {
        Ok(match k {
            Ext::Panic | Ext::Abort => {
                return Err(Stop::Viol(format!(
                    "panic: {} < {}",
                    crate::demangle(&self.m.fn_src[id as usize].0),
                    self.bt(st)
                )))
            }
            Ext::Malloc => {
                let n = self.conc(st, &v[0], "malloc")?;
                Some(Val::I(self.malloc(st, n, 16)?))
            }
            Ext::Calloc => {
                let t = self.bin(Op::Mul, 64, &v[0], &v[1]);
                let n = self.conc(st, &t, "calloc")?;
                let a = self.malloc(st, n, 16)?;
                if a != 0 {
                    st.mem.fill(a, n, 0);
                }
                Some(Val::I(a))
            }
            Ext::Realloc => {
                let p = self.conc(st, &v[0], "realloc")?;
                let n = self.conc(st, &v[1], "realloc")?;
                let a = self.malloc(st, n, 16)?;
                if a == 0 {
                    return Ok(Some(Val::I(0)));
                }
                if p != 0 {
                    let old = match st.mem.load(p - 8, 8) {
                        Some(Ok(v)) => v as u64 & !1,
                        _ => return err("realloc of bad pointer"),
                    };
                    st.mem.copy(a, p, old.min(n));
                    self.free(st, p)?;
                }
                Some(Val::I(a))
            }
            Ext::Free => {
                let p = self.conc(st, &v[0], "free")?;
                self.free(st, p)?;
                None
            }
            Ext::PosixMemalign => {
                let al = self.conc(st, &v[1], "memalign")?;
                let n = self.conc(st, &v[2], "memalign")?;
                let out = self.conc(st, &v[0], "memalign")?;
                let a = self.malloc(st, n, al.max(32))?;
                st.mem.store(out, 8, a as u128);
                Some(Val::I(0))
            }
            Ext::Memcpy => {
                let n = self.conc(st, &v[2], "memcpy-len")?;
                let d = self.conc(st, &v[0], "memcpy-dst")?;
                let s = self.conc(st, &v[1], "memcpy-src")?;
                if st.mem.copy(d, s, n).is_none() {
                    return err(format!("memcpy unmapped d={d:#x} s={s:#x} n={n}"));
                }
                Some(Val::I(d))
            }
            Ext::Memset => {
                let n = self.conc(st, &v[2], "memset-len")?;
                let d = self.conc(st, &v[0], "memset-dst")?;
                match &v[1] {
                    Val::I(x) => {
                        if st.mem.fill(d, n, *x as u8).is_none() {
                            return err("memset unmapped");
                        }
                    }
                    Val::S(e) => {
                        let b = self.ar.extract(*e, 0, 8);
                        for i in 0..n {
                            if st.mem.set_byte(d + i, 0, b).is_none() {
                                return err("memset unmapped");
                            }
                        }
                    }
                    _ => return err("memset"),
                }
                Some(Val::I(d))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc(st, &v[2], "memcmp-len")?;
                if n == 0 {
                    return Ok(Some(Val::I(0)));
                }
                let a = self.conc(st, &v[0], "memcmp-a")?;
                let b = self.conc(st, &v[1], "memcmp-b")?;
                // concrete prefix
                let mut pairs = vec![];
                let mut decided = None;
                for i in 0..n {
                    let (x, xs) = match st.mem.byte(a + i) {
                        Some(x) => x,
                        None => return err("memcmp unmapped"),
                    };
                    let (y, ys) = match st.mem.byte(b + i) {
                        Some(x) => x,
                        None => return err("memcmp unmapped"),
                    };
                    if xs == 0 && ys == 0 {
                        if x != y {
                            decided = Some(if x < y { 0xffff_ffffu128 } else { 1 });
                            break;
                        }
                        continue;
                    }
                    if xs == ys {
                        continue;
                    }
                    let xe = if xs != 0 { xs } else { self.ar.konst(8, x as u128) };
                    let ye = if ys != 0 { ys } else { self.ar.konst(8, y as u128) };
                    pairs.push((xe, ye));
                }
                let mut r = self.ar.konst(32, decided.unwrap_or(0));
                if k == Ext::Bcmp {
                    if decided.is_some() {
                        return Ok(Some(Val::I(1)));
                    }
                    let mut all = self.ar.konst(1, 1);
                    for (x, y) in pairs {
                        let e = self.ar.eq(x, y);
                        all = self.ar.and(all, e);
                    }
                    let ne = self.ar.not(all);
                    let z = self.ar.zext(ne, 32);
                    return Ok(Some(self.from_e(z)));
                }
                let one = self.ar.konst(32, 1);
                let m1 = self.ar.konst(32, 0xffff_ffff);
                for (x, y) in pairs.into_iter().rev() {
                    let e = self.ar.eq(x, y);
                    let l = self.ar.bin(Op::Ult, x, y);
                    let d = self.ar.ite(l, m1, one);
                    r = self.ar.ite(e, r, d);
                }
                Some(self.from_e(r))
            }
            Ext::Strlen => {
                let a = self.conc(st, &v[0], "strlen")?;
                let mut n = 0;
                while let Some((b, s)) = st.mem.byte(a + n) {
                    if s != 0 {
                        return err("strlen symbolic");
                    }
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::I(n))
            }
            Ext::SymMake => {
                let a = self.conc(st, &v[0], "sym")?;
                let n = self.conc(st, &v[1], "sym")?;
                let np = self.conc(st, &v[2], "sym")?;
                let nl = self.conc(st, &v[3], "sym")?;
                let name = String::from_utf8_lossy(&st.mem.read_concrete(np, nl).unwrap_or_default()).into_owned();
                let base = st.doms.len() as u32;
                Rc::make_mut(&mut st.objs).push((name, base, n as u32));
                for i in 0..n {
                    let e = self.ar.var(base + i as u32);
                    Rc::make_mut(&mut st.doms).push([u64::MAX; 4]);
                    Rc::make_mut(&mut st.model).push(0);
                    Rc::make_mut(&mut st.linked).push(false);
                    if st.mem.set_byte(a + i, 0, e).is_none() {
                        return err("sym_make unmapped");
                    }
                }
                None
            }
            Ext::SymAssume => {
                match &v[0] {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::S(e) => {
                        let e = self.ar.extract(*e, 0, 1);
                        match self.feasible(st, e)? {
                            Some(m) => self.constrain(st, e, m),
                            None => return Err(Stop::Assume),
                        }
                    }
                    _ => return err("assume"),
                }
                None
            }
            Ext::SymAssert => {
                let aid = self.conc(st, &v[1], "assert id")?;
                match &v[0] {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Viol(format!("assert {aid} < {}", self.bt(st))));
                        }
                        self.asserts_c += 1;
                    }
                    Val::S(e) => {
                        let e = self.ar.extract(*e, 0, 1);
                        let ne = self.ar.not(e);
                        self.asserts_s += 1;
                        let ev = self.eff_vars(st, ne);
                        // the verdict on an assertion is always the SMT solver's
                        let m = if ev.is_empty() {
                            if self.ar.eval(ne, &st.model) == 1 {
                                Some(st.model.clone())
                            } else {
                                None
                            }
                        } else {
                            self.solve(st, ne, ev)?
                        };
                        if let Some(m) = m {
                            st.model = m;
                            return Err(Stop::Viol(format!("assert {aid} < {}", self.bt(st))));
                        }
                    }
                    _ => return err("assert"),
                }
                None
            }
            Ext::SymCover => {
                let i = self.conc(st, &v[0], "cover")? as usize;
                st.covers[(i / 64) & 15] |= 1 << (i % 64);
                None
            }
            Ext::SymConc => {
                let x = self.conc(st, &v[0], "conc")?;
                Some(Val::I(x))
            }
            Ext::SymSpawn => {
                let p = self.conc(st, &v[0], "spawn")?;
                if p < FN_BASE || (p - FN_BASE) % 16 != 0 || (p - FN_BASE) / 16 >= self.m.fn_src.len() as u64 {
                    return err("spawn: bad function pointer");
                }
                let f = self.func(((p - FN_BASE) / 16) as u32)?;
                let t = st.parked.len();
                if t > 3 {
                    return err("too many threads");
                }
                let base = STACK_BASE + ((t as u64) << 30);
                st.mem.map(base, 1 << 16);
                let mut regs = f.uninit.clone();
                regs[f.params[0] as usize] = v[1].clone();
                let cur = Frame { f, pc: u32::MAX, regs, sp0: base, ret_d: u32::MAX, normal: u32::MAX, phis: u32::MAX };
                st.parked.push(Some(Parked { cur, stack: vec![], sp: base + 64, sp_mapped: base + (1 << 16) }));
                Some(Val::I(t as u64))
            }
            Ext::SymSwitch => {
                let t = self.conc(st, &v[0], "switch")? as usize;
                if t != st.tid {
                    let p = match st.parked.get_mut(t).and_then(|p| p.take()) {
                        Some(p) => p,
                        None => return err("switch to a thread that does not exist"),
                    };
                    // thread-local storage is one region, exchanged on every switch
                    let mut off = 0;
                    for (a, n) in &self.m.tls {
                        st.mem.copy(TLS_BASE + 4096 * st.tid as u64 + off, *a, *n);
                        st.mem.copy(*a, TLS_BASE + 4096 * t as u64 + off, *n);
                        off += n;
                    }
                    let old = Parked {
                        cur: std::mem::replace(&mut st.cur, p.cur),
                        stack: std::mem::replace(&mut st.stack, p.stack),
                        sp: std::mem::replace(&mut st.sp, p.sp),
                        sp_mapped: std::mem::replace(&mut st.sp_mapped, p.sp_mapped),
                    };
                    st.parked[st.tid] = Some(old);
                    st.tid = t;
                }
                None
            }
            Ext::SymLive => Some(Val::I(st.live as u64)),
            Ext::SymClock => {
                st.clock = Some((v[0].clone(), v[1].clone()));
                None
            }
            Ext::SymLog => {
                Rc::make_mut(&mut st.log).push(v[0].clone());
                None
            }
            Ext::SymMerge => None,
            Ext::SymParam => {
                let i = self.conc(st, &v[0], "param")? as usize;
                match self.o.params.get(i) {
                    Some(x) => Some(Val::I(*x)),
                    None => return err(format!("parameter {i} not given")),
                }
            }
            Ext::ClockGettime => {
                let id = self.conc(st, &v[0], "clock")?;
                let p = self.conc(st, &v[1], "clock")?;
                st.ticks += 1;
                let (s, n) = match (&st.clock, id) {
                    (Some(c), 0) => c.clone(),
                    _ => (Val::I(1_700_000_000), Val::I(st.ticks * 1000)),
                };
                self.store_int(st, p, 64, &s)?;
                self.store_int(st, p + 8, 64, &n)?;
                Some(Val::I(0))
            }
            Ext::Syscall => {
                let n = self.conc(st, &v[0], "syscall")?;
                match n {
                    318 => {
                        // getrandom(buf, len, flags): fixed seed (see DESIGN: hash seeds)
                        let a = self.conc(st, &v[1], "getrandom")?;
                        let l = self.conc(st, &v[2], "getrandom")?;
                        for i in 0..l {
                            st.mem.set_byte(a + i, (i as u8).wrapping_mul(37).wrapping_add(11), 0);
                        }
                        Some(Val::I(l))
                    }
                    202 => Some(Val::I(0)), // futex
                    186 => Some(Val::I(1)), // gettid
                    n => return err(format!("syscall {n}")),
                }
            }
            Ext::Write => {
                let l = self.conc(st, &v[2], "write")?;
                Some(Val::I(l))
            }
            Ext::Getenv => Some(Val::I(0)),
            Ext::Zero => Some(Val::I(0)),
            Ext::One => Some(Val::I(1)),
            Ext::MinusOne => Some(Val::I(0xffff_ffff)),
            Ext::Sysconf => Some(Val::I(4096)),
            Ext::Errno => Some(Val::I(self.errno)),
            Ext::KeyCreate => {
                let p = self.conc(st, &v[0], "key")?;
                st.keys += 1;
                let k = st.keys;
                st.mem.store(p, 4, k as u128);
                Some(Val::I(0))
            }
            Ext::Intr => {
                let name = self.m.fn_src[id as usize].0.clone();
                self.intrinsic(st, &name, v, args, ret)?
            }
            Ext::Bad => return err(format!("external {}", self.m.fn_src[id as usize].0)),
            Ext::Unknown | Ext::Body => unreachable!(),
        })
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, v: &[Val], args: &[(Opd, Rc<Ty>)], ret: &Rc<Ty>) -> X<Option<Val>> {
        let n = &name[5..];
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            return self.builtin(st, Ext::Memcpy, 0, v, args, ret);
        }
        if n.starts_with("memset") {
            return self.builtin(st, Ext::Memset, 0, v, args, ret);
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect.") || n.starts_with("ptrmask") {
            return Ok(Some(v[0].clone()));
        }
        if n.starts_with("is.constant") {
            return Ok(Some(Val::I(0)));
        }
        if n.starts_with("objectsize") {
            return Ok(Some(Val::I(u64::MAX)));
        }
        if n == "trap" || n == "ubsantrap" {
            return Err(Stop::Viol(format!("trap < {}", self.bt(st))));
        }
        if n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("stacksave") || n.starts_with("va_") {
            return Ok(Some(Val::I(0)));
        }
        if n.starts_with("stackrestore") || n.starts_with("assume") || n.starts_with("lifetime") || n.starts_with("dbg") {
            return Ok(None);
        }
        if n.starts_with("x86.xgetbv") {
            return Ok(Some(Val::I(0)));
        }
        if n.starts_with("load.relative") {
            let p = self.conc(st, &v[0], "load.relative")?;
            let o = self.conc(st, &v[1], "load.relative")?;
            let x = self.load_int(st, p.wrapping_add(o), 32)?;
            let x = self.conc(st, &x, "load.relative")? as u32 as i32 as i64;
            return Ok(Some(Val::I(p.wrapping_add(x as u64))));
        }
        if n.starts_with("fabs") {
            let x = self.conc(st, &v[0], "fabs")?;
            return Ok(Some(Val::I(if n.ends_with("f64") { x & !(1 << 63) } else { x & !(1 << 31) })));
        }
        if n.starts_with("x86.sse2.pmovmskb.128") {
            let ls = agg(&v[0])?.to_vec();
            let mut r = self.ar.konst(1, 0);
            for (i, l) in ls.iter().enumerate() {
                let e = self.to_e(l, 8);
                let b = self.ar.extract(e, 7, 1);
                r = if i == 0 { b } else { self.ar.concat(b, r) };
            }
            let r = self.ar.zext(r, 32);
            return Ok(Some(self.from_e(r)));
        }
        if n.starts_with("vector.reduce.") {
            let op = n.split('.').nth(2).unwrap();
            let (lt, ls) = match &*args[0].1 {
                Ty::Vec(_, t) => (t.clone(), agg(&v[0])?.to_vec()),
                _ => return err("reduce"),
            };
            let w = lt.bits() as u32;
            let mut r = ls[0].clone();
            for x in &ls[1..] {
                r = match op {
                    "add" => self.bin(Op::Add, w, &r, x),
                    "and" => self.bin(Op::And, w, &r, x),
                    "or" => self.bin(Op::Or, w, &r, x),
                    "xor" => self.bin(Op::Xor, w, &r, x),
                    "mul" => self.bin(Op::Mul, w, &r, x),
                    "umax" | "umin" | "smax" | "smin" => self.minmax(op, w, &r, x)?,
                    o => return err(format!("reduce {o}")),
                };
            }
            return Ok(Some(r));
        }
        // element-wise integer intrinsics
        let base: String = n.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(n.to_string());
        if let Ty::Vec(_, t) = &*args[0].1 {
            let w = t.bits() as u32;
            let k = agg(&v[0])?.len();
            let mut out = vec![];
            for i in 0..k {
                let lane: Vec<Val> = v
                    .iter()
                    .map(|x| match x {
                        Val::A(a) => a[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                match self.int_intr(&base, w, &lane)? {
                    Some(x) => out.push(x),
                    None => return err(format!("intrinsic {name}")),
                }
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        let w = args[0].1.bits() as u32;
        match self.int_intr(&base, w, v)? {
            Some(x) => Ok(Some(x)),
            None => err(format!("intrinsic {name}")),
        }
    }
    fn minmax(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> X<Val> {
        let p = match op {
            "umax" => Pred::Ugt,
            "umin" => Pred::Ult,
            "smax" => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(p, w, a, b);
        self.sel(&c, a, b, w)
    }
    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> X<Val> {
        Ok(match c {
            Val::I(1) => a.clone(),
            Val::I(_) => b.clone(),
            Val::S(e) => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.ar.ite(*e, x, y);
                self.from_e(r)
            }
            _ => return err("sel"),
        })
    }
    fn int_intr(&mut self, base: &str, w: u32, v: &[Val]) -> X<Option<Val>> {
        Ok(Some(match base {
            "umax" | "umin" | "smax" | "smin" => self.minmax(base, w, &v[0], &v[1])?,
            "abs" => {
                let z = val_const(w, 0);
                let n = self.bin(Op::Sub, w, &z, &v[0]);
                let c = self.icmp(Pred::Slt, w, &v[0], &z);
                self.sel(&c, &n, &v[0], w)?
            }
            "ctpop" => match &v[0] {
                Val::S(e) => {
                    let e = *e;
                    let mut r = self.ar.konst(w, 0);
                    for i in 0..w {
                        let b = self.ar.extract(e, i, 1);
                        let b = self.ar.zext(b, w);
                        r = self.ar.bin(Op::Add, r, b);
                    }
                    self.from_e(r)
                }
                x => val_const(w, Module::as_u(x).count_ones() as u128),
            },
            "ctlz" => match &v[0] {
                Val::S(e) => {
                    let e = *e;
                    let mut r = self.ar.konst(w, w as u128);
                    for i in 0..w {
                        let b = self.ar.extract(e, i, 1);
                        let k = self.ar.konst(w, (w - 1 - i) as u128);
                        r = self.ar.ite(b, k, r);
                    }
                    self.from_e(r)
                }
                x => {
                    let x = Module::as_u(x);
                    val_const(w, (x.leading_zeros() - (128 - w)) as u128)
                }
            },
            "cttz" => match &v[0] {
                Val::S(e) => {
                    let e = *e;
                    let mut r = self.ar.konst(w, w as u128);
                    for i in (0..w).rev() {
                        let b = self.ar.extract(e, i, 1);
                        let k = self.ar.konst(w, i as u128);
                        r = self.ar.ite(b, k, r);
                    }
                    self.from_e(r)
                }
                x => {
                    let x = Module::as_u(x);
                    val_const(w, x.trailing_zeros().min(w) as u128)
                }
            },
            "bswap" => match &v[0] {
                Val::S(e) => {
                    let e = *e;
                    let mut r = self.ar.extract(e, 0, 8);
                    for i in 1..w / 8 {
                        let b = self.ar.extract(e, i * 8, 8);
                        r = self.ar.concat(r, b);
                    }
                    self.from_e(r)
                }
                x => val_const(w, Module::as_u(x).swap_bytes() >> (128 - w)),
            },
            "bitreverse" => match &v[0] {
                Val::S(e) => {
                    let e = *e;
                    let mut r = self.ar.extract(e, 0, 1);
                    for i in 1..w {
                        let b = self.ar.extract(e, i, 1);
                        r = self.ar.concat(r, b);
                    }
                    self.from_e(r)
                }
                x => val_const(w, Module::as_u(x).reverse_bits() >> (128 - w)),
            },
            "fshl" | "fshr" => {
                let k = val_const(w, w as u128);
                let s = self.bin(Op::URem, w, &v[2], &k);
                let inv = self.bin(Op::Sub, w, &k, &s);
                if base == "fshl" {
                    let a = self.bin(Op::Shl, w, &v[0], &s);
                    let b = self.bin(Op::LShr, w, &v[1], &inv);
                    self.bin(Op::Or, w, &a, &b)
                } else {
                    let a = self.bin(Op::Shl, w, &v[0], &inv);
                    let b = self.bin(Op::LShr, w, &v[1], &s);
                    self.bin(Op::Or, w, &a, &b)
                }
            }
            "uadd.sat" => {
                let s = self.bin(Op::Add, w, &v[0], &v[1]);
                let c = self.icmp(Pred::Ult, w, &s, &v[0]);
                self.sel(&c, &val_const(w, mask(w)), &s, w)?
            }
            "usub.sat" => {
                let s = self.bin(Op::Sub, w, &v[0], &v[1]);
                let c = self.icmp(Pred::Ult, w, &v[0], &v[1]);
                self.sel(&c, &val_const(w, 0), &s, w)?
            }
            "sadd.sat" | "ssub.sat" => {
                let op = if base == "sadd.sat" { Op::Add } else { Op::Sub };
                let a = self.cast_scalar(CastK::SExt, w, w + 1, &v[0])?;
                let b = self.cast_scalar(CastK::SExt, w, w + 1, &v[1])?;
                let s = self.bin(op, w + 1, &a, &b);
                let max = val_const(w + 1, mask(w - 1));
                let min = val_const(w + 1, mask(w + 1) ^ mask(w - 1));
                let c = self.icmp(Pred::Sgt, w + 1, &s, &max);
                let s = self.sel(&c, &max, &s, w + 1)?;
                let c = self.icmp(Pred::Slt, w + 1, &s, &min);
                let s = self.sel(&c, &min, &s, w + 1)?;
                self.cast_scalar(CastK::Trunc, w + 1, w, &s)?
            }
            "uadd.with.overflow" => {
                let s = self.bin(Op::Add, w, &v[0], &v[1]);
                let c = self.icmp(Pred::Ult, w, &s, &v[0]);
                Val::A(Rc::new(vec![s, c]))
            }
            "usub.with.overflow" => {
                let s = self.bin(Op::Sub, w, &v[0], &v[1]);
                let c = self.icmp(Pred::Ult, w, &v[0], &v[1]);
                Val::A(Rc::new(vec![s, c]))
            }
            "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" | "umul.with.overflow" => {
                let (ext, op) = match base {
                    "sadd.with.overflow" => (CastK::SExt, Op::Add),
                    "ssub.with.overflow" => (CastK::SExt, Op::Sub),
                    "smul.with.overflow" => (CastK::SExt, Op::Mul),
                    _ => (CastK::ZExt, Op::Mul),
                };
                if w > 64 {
                    return err("wide overflow op");
                }
                let w2 = w * 2;
                let a = self.cast_scalar(ext, w, w2, &v[0])?;
                let b = self.cast_scalar(ext, w, w2, &v[1])?;
                let s = self.bin(op, w2, &a, &b);
                let lo = self.cast_scalar(CastK::Trunc, w2, w, &s)?;
                let back = self.cast_scalar(ext, w, w2, &lo)?;
                let c = self.icmp(Pred::Ne, w2, &s, &back);
                Val::A(Rc::new(vec![lo, c]))
            }
            _ => return Ok(None),
        }))
    }
}

#[inline]
fn get(regs: &[Val], o: &Opd) -> Val {
    match o {
        Opd::R(r) => regs[*r as usize].clone(),
        Opd::C(v) => v.clone(),
    }
}
fn agg(v: &Val) -> X<&Vec<Val>> {
    match v {
        Val::A(a) => Ok(a),
        _ => err("aggregate expected"),
    }
}
fn store_const(mem: &mut Mem, a: u64, ty: &Ty, v: &Val) {
    match ty {
        Ty::Arr(_, t) => {
            if let Val::A(vs) = v {
                if **t == Ty::Int(8) {
                    let b: Vec<u8> = vs.iter().map(|x| Module::as_u(x) as u8).collect();
                    mem.write_bytes(a, &b);
                    return;
                }
                let s = t.size();
                for (i, x) in vs.iter().enumerate() {
                    store_const(mem, a + i as u64 * s, t, x);
                }
            }
        }
        Ty::Vec(_, t) => {
            if let Val::A(vs) = v {
                let s = t.bits() / 8;
                for (i, x) in vs.iter().enumerate() {
                    store_const(mem, a + i as u64 * s, t, x);
                }
            }
        }
        Ty::Struct(f, _) => {
            let (o, _) = ty.field_offsets();
            if let Val::A(vs) = v {
                for (i, x) in vs.iter().enumerate() {
                    store_const(mem, a + o[i], &f[i], x);
                }
            }
        }
        t => {
            let n = (t.bits() as usize).div_ceil(8);
            mem.store(a, n.min(16), Module::as_u(v));
        }
    }
}
