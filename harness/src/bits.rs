//! Generators and models for bit contents.
use crate::engine::*;
use std::fmt;
use succinct_neo::bit_vec::{BitGet, BitModify, BitVec};

/// Reference bit array. Deliberately naive.
#[derive(Clone, PartialEq)]
pub struct Model(pub Vec<bool>);
impl fmt::Debug for Model {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}b", self.0.len())
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Zeros,
    Ones,
    /// ones at i % period == phase
    Every(usize, usize),
    /// each bit one with probability d/256
    Rand(u8, u64),
    /// whole words drawn from 0, all ones, single bits, random
    Words(u64),
    OneAt(usize),
    ZeroAt(usize),
}

/// Content of a bit vector: consecutive segments.
#[derive(Clone, Debug)]
pub struct Pat {
    pub n: usize,
    pub segs: Vec<(usize, Kind)>,
}
impl Pat {
    pub fn for_each_one(&self, mut f: impl FnMut(usize)) {
        let mut at = 0;
        for (len, k) in &self.segs {
            let end = (at + len).min(self.n);
            match k {
                Kind::Zeros => {}
                Kind::Ones => (at..end).for_each(&mut f),
                Kind::Every(p, ph) => (at..end).filter(|i| (i - at) % p == *ph).for_each(&mut f),
                Kind::Rand(d, s) => {
                    let mut r = Rng::new(*s);
                    let (mut word, mut left) = (0u64, 0);
                    for i in at..end {
                        if left == 0 {
                            word = r.next();
                            left = 8;
                        }
                        if (word as u8) < *d {
                            f(i)
                        }
                        word >>= 8;
                        left -= 1;
                    }
                }
                Kind::Words(s) => {
                    let mut r = Rng::new(*s);
                    let mut w = 0u64;
                    for i in at..end {
                        if (i - at) % 64 == 0 {
                            let x = r.next();
                            w = match x & 7 {
                                0 | 1 => 0,
                                2 | 3 => u64::MAX,
                                4 => 1 << (x >> 58),
                                5 => !(1 << (x >> 58)),
                                _ => r.next(),
                            };
                        }
                        if w >> ((i - at) % 64) & 1 == 1 {
                            f(i)
                        }
                    }
                }
                Kind::OneAt(p) => {
                    if at + p < end {
                        f(at + p)
                    }
                }
                Kind::ZeroAt(p) => (at..end).filter(|i| i - at != *p).for_each(&mut f),
            }
            at = end;
        }
    }
    pub fn model(&self) -> Vec<bool> {
        let mut m = vec![false; self.n];
        self.for_each_one(|i| m[i] = true);
        m
    }
}

/// A length up to `max`, biased to word, sub-block and block borders.
pub fn gen_len(s: &mut Src, max: usize) -> usize {
    let near = |s: &mut Src, unit: usize| {
        let k = s.range(0, (max / unit).max(1));
        let d = s.pick(&[0isize, 1, -1, 2, -2, 63, -63, 64, -64]);
        (k * unit) as isize + d
    };
    let v = match s.weighted(&[5, 6, 4, 5, 3, 4, 3]) {
        0 => s.range(0, 130) as isize,
        1 => {
            let k = s.range(0, 20.min(max / 64 + 1));
            (k * 64) as isize + s.pick(&[0isize, 1, -1])
        }
        2 => near(s, 512),
        3 => near(s, 4096),
        4 => near(s, 8192),
        5 => {
            let bits = 64 - (max as u64).leading_zeros();
            let e = s.range(0, bits as usize);
            s.below(1u64 << e.min(62)) as isize
        }
        _ => s.range(0, max) as isize,
    };
    v.clamp(0, max as isize) as usize
}

/// An index below `n` (`n > 0`), biased to the ends and to borders.
pub fn gen_index(s: &mut Src, n: usize) -> usize {
    debug_assert!(n > 0);
    let near = |s: &mut Src, unit: usize| {
        let k = s.range(0, n / unit);
        (k * unit) as isize + s.pick(&[0isize, -1, 1])
    };
    let v = match s.weighted(&[2, 2, 6, 2, 2, 8]) {
        0 => s.range(0, 2) as isize,
        1 => n as isize - 1 - s.range(0, 2) as isize,
        2 => near(s, 64),
        3 => near(s, 512),
        4 => near(s, 4096),
        _ => s.idx(n) as isize,
    };
    v.clamp(0, n as isize - 1) as usize
}

pub fn gen_kind(s: &mut Src, len: usize) -> Kind {
    match s.weighted(&[4, 5, 3, 4, 4, 2, 2]) {
        0 => Kind::Zeros,
        1 => Kind::Ones,
        2 => {
            let p = match s.weighted(&[3, 1, 1]) {
                0 => s.range(2, 9),
                1 => s.pick(&[63usize, 64, 65, 127, 128]),
                _ => s.pick(&[511usize, 512, 513, 4095, 4096, 4097, 1000, 2000]),
            };
            Kind::Every(p, s.idx(p))
        }
        3 => Kind::Rand(s.pick(&[128u8, 1, 8, 32, 224, 250, 255]), s.bytes(4)),
        4 => Kind::Words(s.bytes(4)),
        5 => Kind::OneAt(s.idx(len.max(1))),
        _ => Kind::ZeroAt(s.idx(len.max(1))),
    }
}

pub fn gen_pat(s: &mut Src, n: usize) -> Pat {
    let mut segs = Vec::new();
    let count = s.weighted(&[4, 3, 3, 2, 1, 1]) + 1;
    let mut left = n;
    for i in 0..count {
        if left == 0 {
            break;
        }
        let len = if i + 1 == count {
            left
        } else {
            let l = match s.weighted(&[3, 2, 2, 3]) {
                0 => s.range(0, left),
                1 => s.range(0, left / 64) * 64,
                2 => s.range(0, left / 512) * 512,
                _ => s.range(0, left / 4096) * 4096,
            };
            l.min(left)
        };
        let k = gen_kind(s, len);
        segs.push((len, k));
        left -= len;
    }
    Pat { n, segs }
}

/// How a bit vector is brought to a given content.
pub const BUILDS: usize = 6;
pub fn build(m: &[bool], how: usize) -> BitVec {
    let n = m.len();
    let mut bv = BitVec::new(n);
    match how {
        // only the ones, ascending
        0 => {
            for i in 0..n {
                if m[i] {
                    bv.set_bit(i, true)
                }
            }
        }
        // everything set, then zeroes cleared, descending
        1 => {
            for i in (0..n).rev() {
                bv.set_bit(i, true)
            }
            for i in (0..n).rev() {
                if !m[i] {
                    bv.set_bit(i, false)
                }
            }
        }
        // flips, with pairs of flips on zeroes
        2 => {
            for i in 0..n {
                if m[i] {
                    bv.flip_bit(i)
                } else if i % 3 == 0 {
                    bv.flip_bit(i);
                    bv.flip_bit(i);
                }
            }
        }
        // every bit set explicitly through views of 1000 bits
        3 => {
            let mut a = 0;
            while a < n {
                let b = (a + 1000).min(n);
                let mut v = bv.slice_mut(a..b);
                for i in 0..b - a {
                    v.set_bit(i, m[a + i])
                }
                a = b;
            }
        }
        // through the parts of a split
        4 => {
            if n > 0 {
                let at = n / 3;
                let (mut l, mut r) = bv.split_at_mut(at);
                for i in 0..n - at {
                    r.set_bit(i, m[at + i])
                }
                for i in 0..at {
                    l.set_bit(i, m[i])
                }
            }
        }
        // unchecked writes onto a clone
        _ => {
            let mut c = bv.clone();
            for i in 0..n {
                unsafe { c.set_bit_unchecked(i, m[i]) }
            }
            bv = c;
        }
    }
    bv
}

/// Builds only the ones of a pattern (for large vectors).
pub fn build_pat(p: &Pat) -> BitVec {
    let mut bv = BitVec::new(p.n);
    p.for_each_one(|i| bv.set_bit(i, true));
    bv
}

/// A user-defined backing that keeps one bool per bit and records any
/// unchecked access outside of it.
#[derive(Clone, Debug, Default)]
pub struct Spy {
    pub bits: Vec<bool>,
    pub stray: std::cell::Cell<u64>,
}
impl Spy {
    pub fn new(bits: Vec<bool>) -> Self {
        Spy { bits, stray: Default::default() }
    }
}
impl BitGet for Spy {
    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
        match self.bits.get(index) {
            Some(b) => *b,
            None => {
                self.stray.set(self.stray.get() + 1);
                false
            }
        }
    }
    fn get_bit(&self, index: usize) -> bool {
        self.bits[index]
    }
}
impl BitModify for Spy {
    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {
        match self.bits.get_mut(index) {
            Some(b) => *b = value,
            None => self.stray.set(self.stray.get() + 1),
        }
    }
    fn set_bit(&mut self, index: usize, value: bool) {
        self.bits[index] = value
    }
    unsafe fn flip_bit_unchecked(&mut self, index: usize) {
        match self.bits.get_mut(index) {
            Some(b) => *b = !*b,
            None => self.stray.set(self.stray.get() + 1),
        }
    }
    fn flip_bit(&mut self, index: usize) {
        self.bits[index] = !self.bits[index]
    }
}

/// A user-defined backing without memory: bit `i` is a hash of `i`, writes are
/// kept in a map. Has real content at any offset, up to `usize::MAX` bits.
#[derive(Clone, Debug)]
pub struct Virt {
    pub n: usize,
    pub seed: u64,
    pub over: std::collections::HashMap<usize, bool>,
    pub stray: std::cell::Cell<u64>,
}
pub fn virt_bit(seed: u64, i: usize) -> bool {
    mix(seed ^ mix(i as u64)) & 1 == 1
}
impl Virt {
    pub fn new(n: usize, seed: u64) -> Self {
        Virt { n, seed, over: Default::default(), stray: Default::default() }
    }
    fn at(&self, i: usize) -> bool {
        self.over.get(&i).copied().unwrap_or_else(|| virt_bit(self.seed, i))
    }
    fn need(&self, i: usize) {
        assert!(i < self.n, "index {i} of {}", self.n)
    }
    fn note(&self, i: usize) {
        if i >= self.n {
            self.stray.set(self.stray.get() + 1)
        }
    }
}
impl BitGet for Virt {
    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
        self.note(index);
        self.at(index)
    }
    fn get_bit(&self, index: usize) -> bool {
        self.need(index);
        self.at(index)
    }
}
impl BitModify for Virt {
    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {
        self.note(index);
        self.over.insert(index, value);
    }
    fn set_bit(&mut self, index: usize, value: bool) {
        self.need(index);
        self.over.insert(index, value);
    }
    unsafe fn flip_bit_unchecked(&mut self, index: usize) {
        self.note(index);
        let b = self.at(index);
        self.over.insert(index, !b);
    }
    fn flip_bit(&mut self, index: usize) {
        self.need(index);
        let b = self.at(index);
        self.over.insert(index, !b);
    }
}

/// Bit model: dense for small lengths, sparse (zeroes with exceptions) or
/// virtual (a hash with exceptions) for large ones.
#[derive(Clone)]
pub struct Mdl {
    pub n: usize,
    dense: Option<Vec<bool>>,
    virt: Option<u64>,
    over: std::collections::HashMap<usize, bool>,
}
impl Mdl {
    pub fn dense(v: Vec<bool>) -> Self {
        Mdl { n: v.len(), dense: Some(v), virt: None, over: Default::default() }
    }
    pub fn sparse(n: usize) -> Self {
        Mdl { n, dense: None, virt: None, over: Default::default() }
    }
    pub fn virt(n: usize, seed: u64) -> Self {
        Mdl { n, dense: None, virt: Some(seed), over: Default::default() }
    }
    pub fn get(&self, i: usize) -> bool {
        match (&self.dense, self.virt) {
            (Some(v), _) => v[i],
            (None, Some(s)) => self.over.get(&i).copied().unwrap_or_else(|| virt_bit(s, i)),
            (None, None) => self.over.get(&i).copied().unwrap_or(false),
        }
    }
    pub fn set(&mut self, i: usize, b: bool) {
        match &mut self.dense {
            Some(v) => v[i] = b,
            None => {
                self.over.insert(i, b);
            }
        }
    }
    pub fn is_dense(&self) -> bool {
        self.dense.is_some()
    }
    /// Positions worth reading again: the ones, or everything ever written.
    pub fn marked(&self) -> Vec<usize> {
        match &self.dense {
            Some(v) => (0..v.len()).filter(|i| v[*i]).collect(),
            None => self.over.keys().copied().collect(),
        }
    }
}

/// A range as (form, a, b) with the meaning a..b; see [`range_bounds`].
#[derive(Clone, Copy, Debug)]
pub struct Rg {
    pub form: u8,
    pub a: usize,
    pub b: usize,
}
pub const FORMS: u64 = 11;
/// A valid range of `0..n`.
pub fn gen_range(s: &mut Src, n: usize) -> Rg {
    let form = s.below(FORMS) as u8;
    let mut a = if n == 0 || s.chance(1, 6) { 0 } else { gen_index(s, n) };
    let mut b = match s.weighted(&[4, 2, 1]) {
        0 => n - if n - a == 0 { 0 } else { s.idx(n - a + 1) },
        1 => n,
        _ => a,
    };
    // adapt to what the form can express
    match form {
        1 | 7 | 10 => {
            // included end: at least b = 1
            if b == 0 {
                b = 1.min(n);
            }
        }
        2 | 8 => b = n,
        3 | 9 => a = 0,
        4 => {
            a = 0;
            if b == 0 {
                b = 1.min(n);
            }
        }
        5 => {
            a = 0;
            b = n;
        }
        _ => {}
    }
    if matches!(form, 6 | 7) && a == 0 {
        a = 1.min(n);
        b = b.max(a);
    }
    let ok = match form {
        1 | 4 | 10 => b > 0,
        6 => a > 0,
        7 => a > 0 && b > 0,
        _ => true,
    };
    Rg { form: if ok { form } else { 0 }, a, b }
}
/// Takes a view with the given range form.
#[macro_export]
macro_rules! with_range {
    ($r:expr, $v:expr, $f:ident) => {{
        use std::ops::Bound::*;
        let (a, b) = ($r.a, $r.b);
        match $r.form {
            0 => $v.$f(a..b),
            1 => $v.$f(a..=b - 1),
            2 => $v.$f(a..),
            3 => $v.$f(..b),
            4 => $v.$f(..=b - 1),
            5 => $v.$f(..),
            6 => $v.$f((Excluded(a - 1), Excluded(b))),
            7 => $v.$f((Excluded(a - 1), Included(b - 1))),
            8 => $v.$f((Included(a), Unbounded)),
            9 => $v.$f((Unbounded, Excluded(b))),
            _ => $v.$f((Included(a), Included(b - 1))),
        }
    }};
}
