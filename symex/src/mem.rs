//! Copy-on-write paged memory of concrete and symbolic bytes.

use crate::expr::{Arena, Ex};
use std::rc::Rc;

pub const PAGE: u64 = 1024;
const DIRN: usize = 1024;
const TOP: usize = 4096;

#[derive(Clone)]
pub struct Page {
    b: [u8; PAGE as usize],
    ok: [u64; 16],
    /// Symbolic bytes: term and byte offset in it; term 0 means concrete.
    sym: Option<Box<[(Ex, u32)]>>,
    nsym: u32,
}

impl Page {
    fn new() -> Self {
        Page { b: [0; PAGE as usize], ok: [0; 16], sym: None, nsym: 0 }
    }
    #[inline]
    fn ok_range(&self, o: usize, n: usize) -> bool {
        // n <= 64
        let w = o / 64;
        let s = o % 64;
        if s + n <= 64 {
            let m = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << s };
            self.ok[w] & m == m
        } else {
            let lo = u64::MAX << s;
            let hi = (1u64 << (s + n - 64)) - 1;
            self.ok[w] & lo == lo && self.ok[w + 1] & hi == hi
        }
    }
    fn put(&mut self, o: usize, v: u8) {
        self.b[o] = v;
        if let Some(s) = &mut self.sym {
            if s[o].0 != 0 {
                s[o] = (0, 0);
                self.nsym -= 1;
            }
        }
    }
    fn put_sym(&mut self, o: usize, e: (Ex, u32)) {
        let s = self.sym.get_or_insert_with(|| vec![(0, 0); PAGE as usize].into());
        if s[o].0 == 0 {
            self.nsym += 1;
        }
        s[o] = e;
    }
}

type Dir = Vec<Option<Rc<Page>>>;

#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Dir>>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault(pub u64);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Byte {
    C(u8),
    S(Ex, u32),
}

pub enum Loaded {
    C(u64),
    E(Ex),
}

impl Mem {
    pub fn new() -> Self {
        Mem { top: vec![None; TOP] }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let p = a / PAGE;
        let d = (p / DIRN as u64) as usize;
        if d >= TOP {
            return None;
        }
        self.top[d].as_ref()?[p as usize % DIRN].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let p = a / PAGE;
        let d = (p / DIRN as u64) as usize;
        if d >= TOP {
            return None;
        }
        let dir = self.top[d].as_mut()?;
        let dir = Rc::make_mut(dir);
        dir[p as usize % DIRN].as_mut().map(Rc::make_mut)
    }
    fn page_create(&mut self, a: u64) -> &mut Page {
        let p = a / PAGE;
        let d = (p / DIRN as u64) as usize;
        assert!(d < TOP, "address {a:#x}");
        let dir = self.top[d].get_or_insert_with(|| Rc::new(vec![None; DIRN]));
        let dir = Rc::make_mut(dir);
        Rc::make_mut(dir[p as usize % DIRN].get_or_insert_with(|| Rc::new(Page::new())))
    }
    /// Makes a range (in)accessible.
    pub fn mark(&mut self, mut a: u64, mut n: u64, ok: bool) {
        while n > 0 {
            let o = (a % PAGE) as usize;
            let k = n.min(PAGE - a % PAGE) as usize;
            let p = self.page_create(a);
            let (mut i, e) = (o, o + k);
            while i < e {
                let w = i / 64;
                let s = i % 64;
                let c = (64 - s).min(e - i);
                let m = if c == 64 { u64::MAX } else { ((1u64 << c) - 1) << s };
                if ok {
                    p.ok[w] |= m;
                } else {
                    p.ok[w] &= !m;
                }
                i += c;
            }
            a += k as u64;
            n -= k as u64;
        }
    }
    pub fn accessible(&self, mut a: u64, mut n: u64) -> bool {
        while n > 0 {
            let o = (a % PAGE) as usize;
            let k = n.min(PAGE - a % PAGE).min(64) as usize;
            match self.page(a) {
                Some(p) if p.ok_range(o, k) => {}
                _ => return false,
            }
            a = a.wrapping_add(k as u64);
            n -= k as u64;
        }
        true
    }
    pub fn byte(&self, a: u64) -> Byte {
        let Some(p) = self.page(a) else { return Byte::C(0) };
        let o = (a % PAGE) as usize;
        if let Some(s) = &p.sym {
            if s[o].0 != 0 {
                return Byte::S(s[o].0, s[o].1);
            }
        }
        Byte::C(p.b[o])
    }
    pub fn set_byte(&mut self, a: u64, v: Byte) {
        let p = self.page_create(a);
        let o = (a % PAGE) as usize;
        match v {
            Byte::C(c) => p.put(o, c),
            Byte::S(e, k) => p.put_sym(o, (e, k)),
        }
    }
    /// Loads `n` bytes, little endian.
    #[inline]
    pub fn load(&self, ar: &mut Arena, a: u64, n: u64) -> Result<Loaded, Fault> {
        let o = (a % PAGE) as usize;
        if n <= 8 && o as u64 + n <= PAGE {
            if let Some(p) = self.page(a) {
                if !p.ok_range(o, n as usize) {
                    return Err(Fault(a));
                }
                if p.nsym == 0 {
                    let mut v = 0u64;
                    for i in (0..n as usize).rev() {
                        v = v << 8 | p.b[o + i] as u64;
                    }
                    return Ok(Loaded::C(v));
                }
            } else {
                return Err(Fault(a));
            }
        } else if !self.accessible(a, n) {
            return Err(Fault(a));
        }
        Ok(self.gather(ar, a, n))
    }
    fn gather(&self, ar: &mut Arena, a: u64, n: u64) -> Loaded {
        let mut parts: Vec<Ex> = Vec::new();
        let mut i = 0;
        let mut any = false;
        while i < n {
            match self.byte(a + i) {
                Byte::C(_) => {
                    let mut big = Vec::new();
                    let st = i;
                    while i < n {
                        let Byte::C(c) = self.byte(a + i) else { break };
                        let k = (i - st) as usize;
                        if k % 8 == 0 {
                            big.push(0u64);
                        }
                        *big.last_mut().unwrap() |= (c as u64) << (8 * (k % 8));
                        i += 1;
                    }
                    parts.push(ar.big(8 * (i - st) as u32, big));
                }
                Byte::S(e, k) => {
                    any = true;
                    let mut len = 1;
                    while i + len < n && self.byte(a + i + len) == Byte::S(e, k + len as u32) {
                        len += 1;
                    }
                    parts.push(ar.extract(e, 8 * k, 8 * len as u32));
                    i += len;
                }
            }
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = ar.concat(*p, r);
        }
        if !any && n <= 8 {
            return Loaded::C(ar.const_u64(r).unwrap());
        }
        if let (true, Some(v)) = (n <= 8, ar.const_u64(r)) {
            return Loaded::C(v);
        }
        Loaded::E(r)
    }
    #[inline]
    pub fn store_c(&mut self, a: u64, n: u64, v: u64) -> Result<(), Fault> {
        let o = (a % PAGE) as usize;
        if n <= 8 && o as u64 + n <= PAGE {
            let Some(p) = self.page_mut(a) else { return Err(Fault(a)) };
            if !p.ok_range(o, n as usize) {
                return Err(Fault(a));
            }
            if p.nsym == 0 {
                p.b[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
                return Ok(());
            }
            for i in 0..n as usize {
                p.put(o + i, (v >> (8 * i)) as u8);
            }
            return Ok(());
        }
        if !self.accessible(a, n) {
            return Err(Fault(a));
        }
        for i in 0..n {
            self.set_byte(a + i, Byte::C(if i < 8 { (v >> (8 * i)) as u8 } else { 0 }));
        }
        Ok(())
    }
    pub fn store_e(&mut self, ar: &Arena, a: u64, n: u64, e: Ex) -> Result<(), Fault> {
        if !self.accessible(a, n) {
            return Err(Fault(a));
        }
        if let Some(b) = ar.const_big(e) {
            for i in 0..n {
                let v = b.get(i as usize / 8).copied().unwrap_or(0) >> (8 * (i % 8));
                self.set_byte(a + i, Byte::C(v as u8));
            }
            return Ok(());
        }
        for i in 0..n {
            self.set_byte(a + i, Byte::S(e, i as u32));
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        if !self.accessible(s, n) {
            return Err(Fault(s));
        }
        if !self.accessible(d, n) {
            return Err(Fault(d));
        }
        // Forward or backward by chunks that stay in one page on both sides.
        let overlap_back = d > s && d < s + n;
        if overlap_back {
            let v: Vec<Byte> = (0..n).map(|i| self.byte(s + i)).collect();
            for (i, b) in v.into_iter().enumerate() {
                self.set_byte(d + i as u64, b);
            }
            return Ok(());
        }
        let mut i = 0;
        let mut buf = [0u8; PAGE as usize];
        while i < n {
            let (a, b) = (s + i, d + i);
            let k = (n - i).min(PAGE - a % PAGE).min(PAGE - b % PAGE) as usize;
            let (ao, bo) = ((a % PAGE) as usize, (b % PAGE) as usize);
            let sp = self.page(a).unwrap();
            if sp.nsym == 0 {
                buf[..k].copy_from_slice(&sp.b[ao..ao + k]);
                let dp = self.page_mut(b).unwrap();
                if dp.nsym == 0 {
                    dp.b[bo..bo + k].copy_from_slice(&buf[..k]);
                } else {
                    for j in 0..k {
                        dp.put(bo + j, buf[j]);
                    }
                }
            } else {
                for j in 0..k as u64 {
                    let x = self.byte(a + j);
                    self.set_byte(b + j, x);
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) -> Result<(), Fault> {
        if n > 0 && !self.accessible(d, n) {
            return Err(Fault(d));
        }
        let mut i = 0;
        while i < n {
            let b = d + i;
            let k = (n - i).min(PAGE - b % PAGE) as usize;
            let bo = (b % PAGE) as usize;
            let dp = self.page_mut(b).unwrap();
            if dp.nsym == 0 {
                dp.b[bo..bo + k].fill(v);
            } else {
                for j in 0..k {
                    dp.put(bo + j, v);
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        (0..n)
            .map(|i| match self.byte(a + i) {
                Byte::C(c) => Some(c),
                _ => None,
            })
            .collect()
    }
    /// Whether the page at `a` is the one `o` has.
    pub fn same(&self, o: &Mem, a: u64) -> bool {
        match (self.page(a), o.page(a)) {
            (Some(x), Some(y)) => std::ptr::eq(x, y),
            (None, None) => true,
            _ => false,
        }
    }
    fn is_ok(&self, a: u64) -> bool {
        self.page(a).is_some_and(|p| p.ok[(a % PAGE) as usize / 64] >> (a % 64) & 1 != 0)
    }
    /// The accessible range around `a`.
    pub fn extent(&self, a: u64) -> Option<(u64, u64)> {
        if !self.is_ok(a) {
            return None;
        }
        let word = |a: u64| self.page(a).map_or(0, |p| p.ok[(a % PAGE) as usize / 64]);
        let mut s = a;
        while s % 64 != 0 || word(s - 1) != u64::MAX {
            if !self.is_ok(s - 1) {
                break;
            }
            s -= 1;
        }
        while s % 64 == 0 && word(s - 1) == u64::MAX {
            s -= 64;
        }
        while self.is_ok(s - 1) {
            s -= 1;
        }
        let mut e = a + 1;
        while self.is_ok(e) {
            if e % 64 == 0 && word(e) == u64::MAX {
                e += 64;
            } else {
                e += 1;
            }
        }
        Some((s, e))
    }
    /// The accessible content of a range, in aligned words; symbolic bytes one by one.
    pub fn visit(&self, mut a: u64, end: u64, f: &mut dyn FnMut(u64, Result<u64, (Ex, u32)>)) {
        while a < end {
            let Some(p) = self.page(a) else {
                a = (a / PAGE + 1) * PAGE;
                continue;
            };
            let stop = end.min((a / PAGE + 1) * PAGE);
            while a < stop {
                let o = (a % PAGE) as usize;
                let n = (8 - a % 8).min(stop - a) as usize;
                let m = (p.ok[o / 64] >> (o % 64)) & ((1u64 << n) - 1);
                if m == 0 {
                    if o % 64 == 0 && p.ok[o / 64] == 0 {
                        a = (a + 64).min(stop);
                    } else {
                        a += n as u64;
                    }
                    continue;
                }
                let mut v = 0u64;
                for i in 0..n {
                    if m >> i & 1 != 0 {
                        match &p.sym {
                            Some(s) if s[o + i].0 != 0 => f(a + i as u64, Err(s[o + i])),
                            _ => v |= (p.b[o + i] as u64) << (8 * i),
                        }
                    }
                }
                f(a, Ok(v));
                a += n as u64;
            }
        }
    }
    /// The pages of a range that differ from `o`'s.
    pub fn changed(&self, o: &Mem, a: u64, end: u64) -> Vec<u64> {
        let mut r = Vec::new();
        let mut p = a / PAGE;
        while p * PAGE < end {
            if self.top[p as usize / DIRN].is_none() {
                p = (p / DIRN as u64 + 1) * DIRN as u64;
                continue;
            }
            if !self.same(o, p * PAGE) {
                r.push(p * PAGE);
            }
            p += 1;
        }
        r
    }
}
