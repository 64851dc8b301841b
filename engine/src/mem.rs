//! Flat 64-bit memory with copy-on-write pages; every byte is concrete or an 8-bit expression.
use std::rc::Rc;

pub const PAGE: usize = 4096;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[u32; PAGE]>>,
    pub nsym: u32,
}
type L2 = Vec<Option<Rc<Page>>>; // 512 entries
#[derive(Clone)]
pub struct Mem {
    l1: Rc<Vec<Option<Rc<L2>>>>,
}
const L1N: usize = 6144; // covers 12 GB

impl Mem {
    pub fn new() -> Self {
        Mem { l1: Rc::new(vec![None; L1N]) }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let i = (a >> 21) as usize;
        if i >= L1N {
            return None;
        }
        match &self.l1[i] {
            Some(l2) => l2[((a >> 12) & 511) as usize].as_deref(),
            None => None,
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64, create: bool) -> Option<&mut Page> {
        let i = (a >> 21) as usize;
        if i >= L1N {
            return None;
        }
        if self.page(a).is_none() && !create {
            return None;
        }
        let l1 = Rc::make_mut(&mut self.l1);
        let l2 = l1[i].get_or_insert_with(|| Rc::new(vec![None; 512]));
        let l2 = Rc::make_mut(l2);
        let p = l2[((a >> 12) & 511) as usize]
            .get_or_insert_with(|| Rc::new(Page { data: [0; PAGE], sym: None, nsym: 0 }));
        Some(Rc::make_mut(p))
    }
    pub fn map(&mut self, a: u64, n: u64) {
        let mut p = a & !4095;
        while p < a + n {
            self.page_mut(p, true);
            p += 4096;
        }
    }
    pub fn byte(&self, a: u64) -> Option<(u8, u32)> {
        let p = self.page(a)?;
        let o = (a & 4095) as usize;
        Some((p.data[o], p.sym.as_ref().map(|s| s[o]).unwrap_or(0)))
    }
    pub fn set_byte(&mut self, a: u64, v: u8, e: u32) -> Option<()> {
        let p = self.page_mut(a, false)?;
        let o = (a & 4095) as usize;
        p.data[o] = v;
        if e != 0 {
            let s = p.sym.get_or_insert_with(|| Box::new([0; PAGE]));
            if s[o] == 0 {
                p.nsym += 1;
            }
            s[o] = e;
        } else if let Some(s) = &mut p.sym {
            if s[o] != 0 {
                s[o] = 0;
                p.nsym -= 1;
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
        }
        Some(())
    }
    /// concrete load of up to 16 bytes; None if unmapped, Some(Err) if some byte is symbolic
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Option<Result<u128, ()>> {
        let o = (a & 4095) as usize;
        if o + n <= PAGE {
            let p = self.page(a)?;
            if let Some(s) = &p.sym {
                if s[o..o + n].iter().any(|x| *x != 0) {
                    return Some(Err(()));
                }
            }
            let d = &p.data[o..o + n];
            let v = match n {
                1 => d[0] as u128,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(d);
                    u128::from_le_bytes(b)
                }
            };
            Some(Ok(v))
        } else {
            let mut v = 0u128;
            for i in 0..n {
                let (b, s) = self.byte(a + i as u64)?;
                if s != 0 {
                    return Some(Err(()));
                }
                v |= (b as u128) << (8 * i);
            }
            Some(Ok(v))
        }
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: u128) -> Option<()> {
        let o = (a & 4095) as usize;
        let b = v.to_le_bytes();
        if o + n <= PAGE {
            let p = self.page_mut(a, false)?;
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym {
                for i in o..o + n {
                    if s[i] != 0 {
                        s[i] = 0;
                        p.nsym -= 1;
                    }
                }
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
        } else {
            for i in 0..n {
                self.set_byte(a + i as u64, b[i], 0)?;
            }
        }
        Some(())
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8]) -> Option<()> {
        let mut i = 0;
        while i < d.len() {
            let ad = a + i as u64;
            let o = (ad & 4095) as usize;
            let k = (PAGE - o).min(d.len() - i);
            let p = self.page_mut(ad, false)?;
            p.data[o..o + k].copy_from_slice(&d[i..i + k]);
            if let Some(s) = &mut p.sym {
                for j in o..o + k {
                    if s[j] != 0 {
                        s[j] = 0;
                        p.nsym -= 1;
                    }
                }
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
            i += k;
        }
        Some(())
    }
    pub fn fill(&mut self, a: u64, n: u64, v: u8) -> Option<()> {
        let buf = [v; PAGE];
        let mut i = 0u64;
        while i < n {
            let k = (PAGE as u64 - ((a + i) & 4095)).min(n - i);
            self.write_bytes(a + i, &buf[..k as usize])?;
            i += k;
        }
        Some(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Option<()> {
        if n == 0 || d == s {
            return Some(());
        }
        // read all, then write (memmove semantics)
        let mut data: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(usize, u32)> = vec![];
        let mut i = 0u64;
        while i < n {
            let ad = s + i;
            let o = (ad & 4095) as usize;
            let k = (PAGE - o).min((n - i) as usize);
            let p = self.page(ad)?;
            data.extend_from_slice(&p.data[o..o + k]);
            if let Some(sp) = &p.sym {
                for j in 0..k {
                    if sp[o + j] != 0 {
                        syms.push((i as usize + j, sp[o + j]));
                    }
                }
            }
            i += k as u64;
        }
        self.write_bytes(d, &data)?;
        for (j, e) in syms {
            self.set_byte(d + j as u64, 0, e)?;
        }
        Some(())
    }
    pub fn read_concrete(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let mut v = vec![];
        for i in 0..n {
            v.push(self.byte(a + i)?.0);
        }
        Some(v)
    }
}
