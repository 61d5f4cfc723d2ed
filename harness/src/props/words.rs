//! C09 machine words, word slices and wrappers.
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use std::rc::Rc;
use succinct_neo::bit_vec::{BitAccess, BitGet, BitModify};

#[derive(Debug, Clone, Copy)]
struct Op {
    kind: u8,
    i: usize,
}
struct C09 {
    /// 8, 16, 32, 64, 65 (usize), 0 (word slice), 1 (giant word slice)
    ty: u8,
    words: Vec<u64>,
    wrap: u8,
    ops: Vec<Op>,
}
impl std::fmt::Debug for C09 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (n, w) = (self.words.len(), &self.words[..self.words.len().min(16)]);
        write!(f, "C09 {{ ty: {}, words: {n} starting {w:x?}, wrap: {}, ops: {:?} }}", self.ty, self.wrap, self.ops)
    }
}
/// Words of a giant slice.
const GIANT: usize = (1 << 26) + 5000;
fn gen_word(s: &mut Src) -> u64 {
    match s.weighted(&[1, 2, 2, 3]) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << s.idx(64),
        _ => s.u64(),
    }
}
fn c09_gen(s: &mut Src, h: Head) -> C09 {
    if h.mode == 3 {
        // word slices of more than 2^32 bits, made when the case is run
        let n = GIANT * 64;
        let ops = (0..s.range(2, 12))
            .map(|_| {
                let i = if s.flag() { (1usize << 32) - 200 + s.range(0, 400) } else { gen_index(s, n) };
                Op { kind: s.below(6) as u8, i: if s.chance(1, 4) { i % (1 << 32) } else { i } }
            })
            .collect();
        return C09 { ty: 1, words: vec![], wrap: s.below(6) as u8, ops };
    }
    let tys = [8u8, 16, 32, 64, 65, 0];
    let (ty, forced) = if h.mode == 1 {
        // every type, index and kind
        let o = h.ord as usize;
        (tys[o % 6], Some((o / 6 % 6, o / 36)))
    } else {
        (s.pick(&tys), None)
    };
    if h.mode == 2 {
        // long word slices; the words come from a hash, so that a case stays short
        let len = (1usize << s.range(4, 14)) - 3 + s.range(0, 6);
        let seed = s.bytes(4);
        let words: Vec<u64> = (0..len as u64)
            .map(|k| {
                let x = mix(seed ^ mix(k));
                match x & 7 {
                    0 => 0,
                    1 => u64::MAX,
                    _ => mix(x),
                }
            })
            .collect();
        let ops = (0..s.range(1, 12)).map(|_| Op { kind: s.below(6) as u8, i: gen_index(s, len * 64) }).collect();
        return C09 { ty: 0, words, wrap: s.below(6) as u8, ops };
    }
    let words: Vec<u64> = (0..if ty == 0 { s.range(0, 12) } else { 1 }).map(|_| gen_word(s)).collect();
    let n = if ty == 0 { words.len() * 64 } else { (ty as usize).min(64) };
    let mut ops = vec![];
    if n > 0 {
        if let Some((k, i)) = forced {
            ops.push(Op { kind: k as u8, i: i % n });
        }
        for _ in 0..s.range(1, 12) {
            ops.push(Op { kind: s.below(6) as u8, i: gen_index(s, n) });
        }
    }
    C09 { ty, words, wrap: s.below(6) as u8, ops }
}
fn apply<T: BitGet + BitModify + ?Sized>(x: &mut T, o: Op) {
    match o.kind {
        0 => x.set_bit(o.i, true),
        1 => x.set_bit(o.i, false),
        2 => x.flip_bit(o.i),
        3 => unsafe { x.set_bit_unchecked(o.i, true) },
        4 => unsafe { x.set_bit_unchecked(o.i, false) },
        _ => unsafe { x.flip_bit_unchecked(o.i) },
    }
}
fn oracle(w: &mut [u64], o: Op) {
    let b = 1u64 << (o.i % 64);
    let x = &mut w[o.i / 64];
    match o.kind {
        0 | 3 => *x |= b,
        1 | 4 => *x &= !b,
        _ => *x ^= b,
    }
}
fn reads<T: BitGet + ?Sized>(x: &T, w: &[u64], n: usize, how: &str) -> Res {
    for i in 0..n {
        let want = w[i / 64] >> (i % 64) & 1 == 1;
        let g = x.get_bit(i);
        ensure!(g == want, "{how}: bit {i} reads {g}, expected {want}");
        let g = unsafe { x.get_bit_unchecked(i) };
        ensure!(g == want, "{how}: bit {i} reads {g} unchecked, expected {want}");
    }
    Ok(())
}
/// Writes to a zeroed slice of more than 2^32 bits; the touched words and the
/// words a truncated index would reach are compared after every write.
fn giant(c: &C09) -> Res {
    let mut w = vec![0usize; GIANT];
    let mut m: std::collections::BTreeMap<usize, u64> = Default::default();
    for o in &c.ops {
        let x = m.entry(o.i / 64).or_default();
        let mut one = [*x];
        oracle(&mut one, Op { i: o.i % 64, ..*o });
        *x = one[0];
        match c.wrap {
            0 => apply(&mut w[..], *o),
            1 => apply(&mut &mut w[..], *o),
            2 => {
                let mut b = std::mem::take(&mut w).into_boxed_slice();
                apply(&mut b, *o);
                w = b.into_vec();
            }
            3 => {
                let mut b = Box::new(&mut w[..]);
                apply(&mut b, *o);
            }
            4 => {
                let mut r = &mut w[..];
                let d: &mut dyn BitAccess = &mut r;
                apply(d, *o)
            }
            _ => apply(&mut &mut &mut w[..], *o),
        }
        for (k, x) in &m {
            for k in [*k, *k % (1 << 26), *k + (1 << 26)] {
                if k < GIANT {
                    let want = m.get(&k).copied().unwrap_or(0);
                    ensure!(w[k] as u64 == want, "word {k} of {GIANT} after {o:?} is {:x}, expected {want:x}", w[k]);
                }
            }
            for b in 0..64 {
                let (i, want) = (64 * k + b, x >> b & 1 == 1);
                ensure!(w[..].get_bit(i) == want && (&&w[..]).get_bit(i) == want, "bit {i} of {} words reads {}", w.len(), !want);
                ensure!(unsafe { w[..].get_bit_unchecked(i) } == want, "bit {i} of {} words reads {} unchecked", w.len(), !want);
            }
        }
    }
    let ones: u64 = m.values().map(|x| x.count_ones() as u64).sum();
    let got: u64 = w.iter().map(|x| x.count_ones() as u64).sum();
    same!(got, ones, "ones in the whole slice");
    Ok(())
}
fn c09_exec(c: &C09, cx: &mut Cx) -> Res {
    if c.ty == 1 {
        giant(c)?;
        cx.nontrivial = true;
        cx.class("word slice of more than 2^32 bits");
        cx.class_if(c.wrap != 0, "through a wrapper");
        cx.class_if(c.ops.iter().any(|o| o.kind >= 3), "unchecked writes");
        return Ok(());
    }
    let mut m = c.words.clone();
    macro_rules! word {
        ($t:ty) => {{
            let n = <$t>::BITS as usize;
            let mut w = m[0] as $t;
            m[0] = w as u64;
            for o in &c.ops {
                oracle(&mut m, *o);
                match c.wrap {
                    0 => apply(&mut w, *o),
                    1 => apply(&mut &mut w, *o),
                    2 => {
                        let mut b = Box::new(w);
                        apply(&mut b, *o);
                        w = *b;
                    }
                    3 => {
                        let mut b = Box::new(&mut w);
                        apply(&mut b, *o);
                    }
                    4 => {
                        let d: &mut dyn BitAccess = &mut w;
                        apply(d, *o)
                    }
                    _ => apply(&mut &mut &mut w, *o),
                }
                same!(w as u64, m[0], "word after {o:?}");
                same!((&&w).get_bit(o.i), m[0] >> o.i & 1 == 1, "bit {} by reference", o.i);
            }
            reads(&w, &m, n, "direct")?;
            reads(&&w, &m, n, "reference")?;
            reads(&&mut w, &m, n, "mutable reference")?;
            reads(&Box::new(w), &m, n, "box")?;
            reads(&Rc::new(w), &m, n, "rc")?;
            reads(&Rc::new(Box::new(w)), &m, n, "rc of box")?;
            reads(&Box::new(Rc::new(w)) as &dyn BitGet, &m, n, "box of rc")?;
        }};
    }
    match c.ty {
        8 => word!(u8),
        16 => word!(u16),
        32 => word!(u32),
        64 => word!(u64),
        65 => word!(usize),
        _ => {
            let n = m.len() * 64;
            let mut w: Vec<usize> = m.iter().map(|x| *x as usize).collect();
            for o in &c.ops {
                oracle(&mut m, *o);
                match c.wrap {
                    0 => apply(&mut w[..], *o),
                    1 => apply(&mut &mut w[..], *o),
                    2 => {
                        let mut b = std::mem::take(&mut w).into_boxed_slice();
                        apply(&mut b, *o);
                        w = b.into_vec();
                    }
                    3 => {
                        let mut b = Box::new(&mut w[..]);
                        apply(&mut b, *o);
                    }
                    4 => {
                        let mut r = &mut w[..];
                        let d: &mut dyn BitAccess = &mut r;
                        apply(d, *o)
                    }
                    _ => apply(&mut &mut &mut w[..], *o),
                }
                ensure!(w.iter().zip(&m).all(|(a, b)| *a as u64 == *b), "words after {o:?} differ: word {} is {:x}, expected {:x}", o.i / 64, w[o.i / 64], m[o.i / 64]);
            }
            reads(&w[..], &m, n, "direct")?;
            reads(&&w[..], &m, n, "reference")?;
            reads(&&mut w[..], &m, n, "mutable reference")?;
            reads(&w.clone().into_boxed_slice(), &m, n, "box")?;
            reads(&Rc::new(w.clone().into_boxed_slice()), &m, n, "rc of box")?;
            reads(&Rc::new(&w[..]), &m, n, "rc of reference")?;
        }
    }
    cx.nontrivial = !c.ops.is_empty() && c.words.iter().any(|w| *w != 0);
    cx.class_if(c.ty == 0, "word slice");
    cx.class_if(c.words.len() > 1024, "word slice of more than 2^16 bits");
    cx.class_if(c.ty != 0, "single word");
    cx.class_if(c.wrap != 0, "through a wrapper");
    cx.class_if(c.ops.iter().any(|o| o.kind >= 3), "unchecked writes");
    Ok(())
}
#[cfg(feature = "c09")]
pub static C09P: Prop = Prop {
    id: "C09",
    rule: "word type or word slice with generated value, writes of all kinds through a generated wrapper; value compared with plain integer arithmetic after each write and all bits read through 6 or 7 wrappers. Non-trivial: at least one write on a non-zero value.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 64, thorough: 256, profiles: "release" },
        Mode { code: 2, name: "long word slices", quick: 6000, thorough: 72000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of types, indices and writes", quick: 12000, thorough: 48000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 3000000, thorough: 36000000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c09_gen, c09_exec),
};
