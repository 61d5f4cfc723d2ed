//! C04 views, C05 splits, C06 rejection, C07 equality, C08 iteration.
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same, with_range};
use std::rc::Rc;
use std::ops::Bound;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

// ---------------------------------------------------------------- shared

#[derive(Clone, Copy, Debug)]
struct Act {
    kind: u8,
    i: usize,
}
const ACTS: u64 = 11;
fn gen_acts(s: &mut Src, n: usize, max: usize) -> Vec<Act> {
    if n == 0 {
        return vec![];
    }
    (0..s.range(0, max)).map(|_| Act { kind: s.below(ACTS) as u8, i: gen_index(s, n) }).collect()
}
fn act<B: BitGet + BitModify>(v: &mut BitSlice<B>, a: Act) {
    let i = a.i;
    match a.kind {
        0 => v.set_bit(i, true),
        1 => v.set_bit(i, false),
        2 => v.flip_bit(i),
        3 => v.set(i, true),
        4 => v.set(i, false),
        5 => v.flip(i),
        6 => unsafe { v.set_bit_unchecked(i, true) },
        7 => unsafe { v.set_unchecked(i, false) },
        8 => unsafe { v.flip_bit_unchecked(i) },
        9 => unsafe { v.flip_unchecked(i) },
        _ => {
            let r: &mut dyn BitModify = v;
            r.set_bit(i, true)
        }
    }
}
fn act_model(m: &mut Mdl, off: usize, a: Act) {
    let i = off + a.i;
    match a.kind {
        0 | 3 | 6 | 10 => m.set(i, true),
        1 | 4 | 7 => m.set(i, false),
        _ => {
            let b = m.get(i);
            m.set(i, !b)
        }
    }
}
fn read_view<B: BitGet>(v: &BitSlice<B>, i: usize, want: bool) -> Res {
    ensure!(v.get_bit(i) == want, "get_bit({i}) is not {want}");
    ensure!(v.get(i) == want, "get({i}) is not {want}");
    ensure!(unsafe { v.get_bit_unchecked(i) } == want, "get_bit_unchecked({i}) is not {want}");
    ensure!(unsafe { v.get_unchecked(i) } == want, "get_unchecked({i}) is not {want}");
    Ok(())
}
/// Compares a view with the model: all bits if it is small, otherwise the
/// given indices, borders and everything that should be a one.
fn check_view<B: BitGet>(v: &BitSlice<B>, off: usize, len: usize, m: &Mdl, near: &[usize]) -> Res {
    ensure!(v.len() == len, "length is {}, expected {len}", v.len());
    ensure!(v.is_empty() == (len == 0), "is_empty is {} at length {len}", v.is_empty());
    if len <= 3000 {
        for i in 0..len {
            let want = m.get(off + i);
            if len <= 200 {
                read_view(v, i, want)?;
            } else {
                ensure!(v.get_bit(i) == want, "get_bit({i}) is not {want}");
            }
        }
        return Ok(());
    }
    let mut idx: Vec<usize> = vec![0, len - 1];
    for &i in near {
        for b in 0..64 {
            idx.push(i ^ (1 << b));
        }
        idx.extend([i, i.wrapping_add(1), i.wrapping_sub(1)]);
    }
    for k in 0..24u64 {
        idx.push((mix(k ^ len as u64) % len as u64) as usize);
    }
    for o in m.marked() {
        idx.push(o.wrapping_sub(off));
        if m.is_dense() && idx.len() > 4000 {
            break;
        }
    }
    for i in idx {
        if i < len {
            read_view(v, i, m.get(off + i))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

#[derive(Debug)]
enum Base {
    Vec(Pat, usize),
    /// word slice of the given words, viewed as bits a..b of it
    Words(Vec<usize>, usize, usize),
    U8(u8, usize, usize),
    U16(u16, usize, usize),
    U32(u32, usize, usize),
    U64(u64, usize, usize),
    Spy(Pat, usize, usize),
    Giant(usize),
    /// virtual backing of the given size and seed, viewed as bits a..b of it
    Virt(usize, u64, usize, usize),
}
#[derive(Debug)]
struct Level {
    r: Rg,
    unchecked: bool,
    shared: bool,
    before: Vec<Act>,
    after: Vec<Act>,
}
#[derive(Debug)]
struct C04 {
    base: Base,
    levels: Vec<Level>,
}
fn gen_sub(s: &mut Src, n: usize) -> (usize, usize) {
    let a = if n == 0 { 0 } else { gen_index(s, n) };
    let b = if s.flag() { n } else { s.range(a, n) };
    (a, b)
}
fn gen_base(s: &mut Src, mode: u8) -> (Base, usize) {
    if mode == 3 {
        let seed = s.bytes(2);
        if s.chance(1, 3) {
            // at the very end of what an index can name
            let a = usize::MAX - gen_len(s, 9000);
            let b = usize::MAX - s.range(0, usize::MAX - a);
            return (Base::Virt(usize::MAX, seed, a, b), b - a);
        }
        let e = s.range(7, 62);
        let n = (1usize << e) - 64 + s.range(0, 128);
        let (a, b) = gen_sub(s, n);
        return (Base::Virt(n, seed, a, b), b - a);
    }
    if mode == 2 {
        let n = (1usize << s.range(20, 33)) + s.range(0, 5000) + s.pick(&[0usize, 1 << 32]);
        return (Base::Giant(n), n);
    }
    match s.weighted(&[6, 3, 1, 1, 1, 2, 2]) {
        0 => {
            let n = gen_len(s, 3000);
            (Base::Vec(gen_pat(s, n), s.idx(BUILDS)), n)
        }
        1 => {
            let w: Vec<usize> = (0..s.range(1, 6)).map(|_| s.u64() as usize).collect();
            let (a, b) = gen_sub(s, w.len() * 64);
            (Base::Words(w, a, b), b - a)
        }
        2 => {
            let (a, b) = gen_sub(s, 8);
            (Base::U8(s.u64() as u8, a, b), b - a)
        }
        3 => {
            let (a, b) = gen_sub(s, 16);
            (Base::U16(s.u64() as u16, a, b), b - a)
        }
        4 => {
            let (a, b) = gen_sub(s, 32);
            (Base::U32(s.u64() as u32, a, b), b - a)
        }
        5 => {
            let (a, b) = gen_sub(s, 64);
            (Base::U64(s.u64(), a, b), b - a)
        }
        _ => {
            let n = gen_len(s, 900);
            let p = gen_pat(s, n);
            let (a, b) = gen_sub(s, n);
            (Base::Spy(p, a, b), b - a)
        }
    }
}
fn c04_gen(s: &mut Src, h: Head) -> C04 {
    let (base, mut n) = gen_base(s, h.mode);
    let depth = 1 + s.weighted(&[2, 4, 3, 2]);
    let mut levels = Vec::new();
    let mut shared = false;
    for _ in 0..depth {
        let before = if shared { vec![] } else { gen_acts(s, n, 2) };
        let after = if shared { vec![] } else { gen_acts(s, n, 2) };
        let r = gen_range(s, n);
        shared = shared || s.chance(1, 4);
        levels.push(Level { r, unchecked: s.flag(), shared, before, after });
        n = r.b - r.a;
    }
    let before = if shared { vec![] } else { gen_acts(s, n, 4) };
    levels.push(Level { r: Rg { form: 0, a: 0, b: n }, unchecked: false, shared, before, after: vec![] });
    C04 { base, levels }
}

macro_rules! level_fns {
    ($mutf:ident, $sharedf:ident, $nextm:ident, $nexts:ident) => {
        fn $mutf<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, len: usize, m: &mut Mdl, ls: &[Level]) -> Res {
            check_view(v, off, len, m, &[])?;
            let Some((l, rest)) = ls.split_first() else { return Ok(()) };
            for a in &l.before {
                act(v, *a);
                act_model(m, off, *a);
                check_view(v, off, len, m, &[a.i]).map_err(|e| format!("after {a:?}: {e}"))?;
            }
            if rest.is_empty() {
                return Ok(());
            }
            let (r, sub) = (l.r, l.r.b - l.r.a);
            if l.shared {
                let w = if l.unchecked { unsafe { with_range!(r, v, slice_unchecked) } } else { with_range!(r, v, slice) };
                $nexts(&w, off + r.a, sub, m, rest).map_err(|e| format!("in view {r:?}: {e}"))?;
            } else {
                let mut w = if l.unchecked {
                    unsafe { with_range!(r, v, slice_unchecked_mut) }
                } else {
                    with_range!(r, v, slice_mut)
                };
                $nextm(&mut w, off + r.a, sub, m, rest).map_err(|e| format!("in view {r:?}: {e}"))?;
            }
            check_view(v, off, len, m, &[r.a, r.b])?;
            for a in &l.after {
                act(v, *a);
                act_model(m, off, *a);
                check_view(v, off, len, m, &[a.i])?;
            }
            Ok(())
        }
        fn $sharedf<B: BitGet>(v: &BitSlice<B>, off: usize, len: usize, m: &Mdl, ls: &[Level]) -> Res {
            check_view(v, off, len, m, &[])?;
            let Some((l, rest)) = ls.split_first() else { return Ok(()) };
            if rest.is_empty() {
                return Ok(());
            }
            let (r, sub) = (l.r, l.r.b - l.r.a);
            let w = if l.unchecked { unsafe { with_range!(r, v, slice_unchecked) } } else { with_range!(r, v, slice) };
            $nexts(&w, off + r.a, sub, m, rest).map_err(|e| format!("in view {r:?}: {e}"))
        }
    };
}
fn m5<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, len: usize, m: &mut Mdl, ls: &[Level]) -> Res {
    check_view(v, off, len, m, &[])?;
    for a in ls.first().map(|l| &l.before[..]).unwrap_or(&[]) {
        act(v, *a);
        act_model(m, off, *a);
        check_view(v, off, len, m, &[a.i])?;
    }
    Ok(())
}
fn s5<B: BitGet>(v: &BitSlice<B>, off: usize, len: usize, m: &Mdl, _: &[Level]) -> Res {
    check_view(v, off, len, m, &[])
}
level_fns!(m4, s4, m5, s5);
level_fns!(m3, s3, m4, s4);
level_fns!(m2, s2, m3, s3);
level_fns!(m1, s1, m2, s2);

fn c04_exec(c: &C04, cx: &mut Cx) -> Res {
    macro_rules! word {
        ($w:expr, $t:ty, $a:expr, $b:expr) => {{
            let mut w: $t = *$w;
            let bits = <$t>::BITS as usize;
            let mut m = Mdl::dense((0..bits).map(|i| w >> i & 1 == 1).collect());
            m1(&mut BitSlice::new(&mut w, *$a, *$b), *$a, b_a($b, $a), &mut m, &c.levels)?;
            for i in 0..bits {
                ensure!((w >> i & 1 == 1) == m.get(i), "bit {i} of the word differs afterwards");
            }
            // the word itself as an owned backing
            let mut own = BitSlice::new(*$w, *$a, *$b);
            let mut m2 = Mdl::dense((0..bits).map(|i| *$w >> i & 1 == 1).collect());
            m1(&mut own, *$a, b_a($b, $a), &mut m2, &c.levels)?;
            same!(*own.backing(), w, "owned and borrowed word after the same writes");
        }};
    }
    fn b_a(b: &usize, a: &usize) -> usize {
        b - a
    }
    match &c.base {
        Base::Vec(p, how) => {
            let v = p.model();
            let mut bv = build(&v, *how);
            let n = v.len();
            let mut m = Mdl::dense(v);
            m1(&mut bv, 0, n, &mut m, &c.levels)?;
            for i in 0..n {
                ensure!(bv.get_bit(i) == m.get(i), "bit {i} of the vector differs afterwards");
            }
            for (k, w) in bv.raw().iter().enumerate() {
                for b in 0..64 {
                    let i = 64 * k + b;
                    ensure!((w >> b & 1 == 1) == (i < n && m.get(i)), "raw bit {i} differs afterwards");
                }
            }
        }
        Base::Words(w, a, b) => {
            let bits = |w: &[usize]| (0..w.len() * 64).map(|i| w[i / 64] >> (i % 64) & 1 == 1).collect::<Vec<_>>();
            let mut m = Mdl::dense(bits(w));
            let mut x = w.clone();
            m1(&mut BitSlice::new(&mut x[..], *a, *b), *a, b - a, &mut m, &c.levels)?;
            let got = bits(&x);
            for i in 0..got.len() {
                ensure!(got[i] == m.get(i), "bit {i} of the words differs afterwards");
            }
            let mut own = BitSlice::new(w.clone().into_boxed_slice(), *a, *b);
            let mut m2 = Mdl::dense(bits(w));
            m1(&mut own, *a, b - a, &mut m2, &c.levels)?;
            ensure!(own.backing()[..] == x[..], "owned and borrowed words differ after the same writes");
        }
        Base::U8(w, a, b) => word!(w, u8, a, b),
        Base::U16(w, a, b) => word!(w, u16, a, b),
        Base::U32(w, a, b) => word!(w, u32, a, b),
        Base::U64(w, a, b) => {
            word!(w, u64, a, b);
            let w2 = &(*w as usize);
            word!(w2, usize, a, b)
        }
        Base::Spy(p, a, b) => {
            let v = p.model();
            let mut m = Mdl::dense(v.clone());
            let mut sp = BitSlice::new(Spy::new(v), *a, *b);
            m1(&mut sp, *a, b - a, &mut m, &c.levels)?;
            for i in 0..m.n {
                ensure!(sp.backing().bits[i] == m.get(i), "bit {i} of the backing differs afterwards");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Virt(n, seed, a, b) => {
            let mut m = Mdl::virt(*n, *seed);
            let mut sp = BitSlice::new(Virt::new(*n, *seed), *a, *b);
            m1(&mut sp, *a, b - a, &mut m, &c.levels)?;
            for i in m.marked() {
                ensure!(sp.backing().get_bit(i) == m.get(i), "bit {i} of the backing differs afterwards");
            }
            for (i, b) in &sp.backing().over {
                ensure!(m.get(*i) == *b, "bit {i} of the backing was written");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Giant(n) => {
            let mut bv = BitVec::new(*n);
            let mut m = Mdl::sparse(*n);
            m1(&mut bv, 0, *n, &mut m, &c.levels)?;
            for i in m.marked() {
                ensure!(bv.get_bit(i) == m.get(i), "bit {i} of the vector differs afterwards");
            }
        }
    }
    let depth = c.levels.len() - 1;
    let nonempty = c.levels.last().map(|l| l.r.b - l.r.a).unwrap_or(0);
    cx.nontrivial = nonempty > 0 && c.levels.iter().any(|l| l.r.a > 0);
    cx.class_if(depth >= 2, "nested views");
    cx.class_if(c.levels.iter().any(|l| l.shared), "shared views");
    cx.class_if(c.levels.iter().any(|l| l.unchecked), "unchecked construction");
    cx.class_if(c.levels.iter().any(|l| matches!(l.r.form, 6 | 7)), "excluded start");
    cx.class_if(!matches!(c.base, Base::Vec(..) | Base::Giant(_)), "backing other than a bit vector");
    cx.class_if(matches!(c.base, Base::Virt(n, ..) if n > 1 << 32), "more than 2^32 bits");
    cx.add("writes", c.levels.iter().map(|l| l.before.len() + l.after.len()).sum::<usize>() as u64);
    Ok(())
}
#[cfg(feature = "c04")]
pub static C04P: Prop = Prop {
    id: "C04",
    rule: "backing of one of 8 kinds (one of them virtual, with up to 2^64-1 bits), chain of up to 4 nested views taken with 11 range forms, checked or unchecked, shared or mutable, with reads and writes at each depth; the view is compared with the model after each write, the views around it and the backing afterwards. Non-trivial: the innermost view is not empty and some view has an offset.",
    modes: &[
        Mode { code: 2, name: "large offsets", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 3, name: "virtual backing", quick: 60000, thorough: 720000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 1500000, thorough: 18000000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c04_gen, c04_exec),
};

// ---------------------------------------------------------------- C05

#[derive(Debug)]
struct C05 {
    base: Base,
    n: usize,
    /// view of the base that is split
    r: Rg,
    at: usize,
    /// further splits of the two parts
    sub: [Option<usize>; 2],
    /// writes: (part, act)
    acts: Vec<(usize, Act)>,
}
fn c05_gen(s: &mut Src, h: Head) -> C05 {
    let (base, n) = gen_base(s, h.mode);
    let r = if s.flag() { Rg { form: 5, a: 0, b: n } } else { gen_range(s, n) };
    let len = r.b - r.a;
    let at = if len == 0 { 0 } else { gen_index(s, len) };
    let lens = [at, len - at];
    let mut sub = [None, None];
    let mut parts = vec![];
    for k in 0..2 {
        if lens[k] > 0 && s.flag() {
            let j = gen_index(s, lens[k]);
            sub[k] = Some(j);
            parts.push(j);
            parts.push(lens[k] - j);
        } else {
            parts.push(lens[k]);
        }
    }
    let count = s.range(0, 16);
    let mut acts = vec![];
    for _ in 0..count {
        let p = s.idx(parts.len());
        if parts[p] > 0 {
            // near the border with the neighbour, where words are shared
            let i = match s.weighted(&[2, 2, 3]) {
                0 => s.idx(parts[p].min(70)),
                1 => parts[p] - 1 - s.idx(parts[p].min(70)),
                _ => gen_index(s, parts[p]),
            };
            acts.push((p, Act { kind: s.below(ACTS) as u8, i }));
        }
    }
    C05 { base, n, r, at, sub, acts }
}
trait Part {
    fn act(&mut self, a: Act);
    fn check(&self, off: usize, len: usize, m: &Mdl, near: &[usize]) -> Res;
}
impl<B: BitGet + BitModify> Part for BitSlice<B> {
    fn act(&mut self, a: Act) {
        act(self, a)
    }
    fn check(&self, off: usize, len: usize, m: &Mdl, near: &[usize]) -> Res {
        check_view(self, off, len, m, near)
    }
}
fn split_mut<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, len: usize, m: &mut Mdl, c: &C05) -> Res {
    if len == 0 {
        return Ok(());
    }
    split_shared(v, off, len, m, c)?;
    {
        let (mut p0, mut p1) = v.split_at_mut(c.at);
        p0.check(off, c.at, m, &[]).map_err(|e| format!("left part: {e}"))?;
        p1.check(off + c.at, len - c.at, m, &[]).map_err(|e| format!("right part: {e}"))?;
        let (mut h0, mut h1) = (None, None);
        let mut parts: Vec<(&mut dyn Part, usize, usize)> = vec![];
        match c.sub[0] {
            Some(j) => {
                h0 = Some(p0.split_at_mut(j));
                let (a, b) = h0.as_mut().unwrap();
                parts.push((a, off, j));
                parts.push((b, off + j, c.at - j));
            }
            None => parts.push((&mut p0, off, c.at)),
        }
        match c.sub[1] {
            Some(j) => {
                h1 = Some(p1.split_at_mut(j));
                let (a, b) = h1.as_mut().unwrap();
                parts.push((a, off + c.at, j));
                parts.push((b, off + c.at + j, len - c.at - j));
            }
            None => parts.push((&mut p1, off + c.at, len - c.at)),
        }
        for (k, a) in &c.acts {
            let o = parts[*k].1;
            parts[*k].0.act(*a);
            act_model(m, o, *a);
            for (q, p) in parts.iter().enumerate() {
                p.0.check(p.1, p.2, m, &[a.i]).map_err(|e| format!("part {q} after {a:?} on part {k}: {e}"))?;
            }
        }
        drop(parts);
        let _ = (&h0, &h1);
    }
    check_view(v, off, len, m, &[c.at])?;
    split_shared(v, off, len, m, c)
}
fn split_shared<B: BitGet>(v: &BitSlice<B>, off: usize, len: usize, m: &Mdl, c: &C05) -> Res {
    let (l, r) = v.split_at(c.at);
    check_view(&l, off, c.at, m, &[]).map_err(|e| format!("left part: {e}"))?;
    check_view(&r, off + c.at, len - c.at, m, &[]).map_err(|e| format!("right part: {e}"))?;
    if let Some(j) = c.sub[0] {
        let (a, b) = l.split_at(j);
        check_view(&a, off, j, m, &[]).map_err(|e| format!("left part of left part: {e}"))?;
        check_view(&b, off + j, c.at - j, m, &[]).map_err(|e| format!("right part of left part: {e}"))?;
    }
    if let Some(j) = c.sub[1] {
        let (a, b) = r.split_at(j);
        check_view(&a, off + c.at, j, m, &[]).map_err(|e| format!("left part of right part: {e}"))?;
        check_view(&b, off + c.at + j, len - c.at - j, m, &[]).map_err(|e| format!("right part of right part: {e}"))?;
    }
    if len <= 3000 {
        let whole: Vec<bool> = l.iter().chain(r.iter()).collect();
        for i in 0..len {
            ensure!(whole.get(i) == Some(&m.get(off + i)), "bit {i} of the parts put together differs");
        }
    }
    Ok(())
}
fn split_base<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, m: &mut Mdl, c: &C05) -> Res {
    let len = c.r.b - c.r.a;
    if c.r.form == 5 {
        split_mut(v, off, c.n, m, c)?;
    } else {
        split_mut(&mut with_range!(c.r, v, slice_mut), off + c.r.a, len, m, c)?;
    }
    check_view(v, off, c.n, m, &[c.r.a, c.r.b])
}
fn c05_exec(c: &C05, cx: &mut Cx) -> Res {
    macro_rules! word {
        ($w:expr, $t:ty, $a:expr) => {{
            let mut w: $t = *$w;
            let bits = <$t>::BITS as usize;
            let mut m = Mdl::dense((0..bits).map(|i| w >> i & 1 == 1).collect());
            split_base(&mut BitSlice::new(&mut w, *$a, *$a + c.n), *$a, &mut m, c)?;
            for i in 0..bits {
                ensure!((w >> i & 1 == 1) == m.get(i), "bit {i} of the word differs afterwards");
            }
        }};
    }
    match &c.base {
        Base::Vec(p, how) => {
            let v = p.model();
            let mut bv = build(&v, *how);
            let mut m = Mdl::dense(v);
            split_base(&mut bv, 0, &mut m, c)?;
            for i in 0..m.n {
                ensure!(bv.get_bit(i) == m.get(i), "bit {i} of the vector differs afterwards");
            }
        }
        Base::Words(w, a, _) => {
            let bits = |w: &[usize]| (0..w.len() * 64).map(|i| w[i / 64] >> (i % 64) & 1 == 1).collect::<Vec<_>>();
            let mut m = Mdl::dense(bits(w));
            let mut x = w.clone();
            split_base(&mut BitSlice::new(&mut x[..], *a, *a + c.n), *a, &mut m, c)?;
            let got = bits(&x);
            for i in 0..got.len() {
                ensure!(got[i] == m.get(i), "bit {i} of the words differs afterwards");
            }
        }
        Base::U8(w, a, _) => word!(w, u8, a),
        Base::U16(w, a, _) => word!(w, u16, a),
        Base::U32(w, a, _) => word!(w, u32, a),
        Base::U64(w, a, _) => {
            word!(w, u64, a);
            let w2 = &(*w as usize);
            word!(w2, usize, a)
        }
        Base::Spy(p, a, _) => {
            let v = p.model();
            let mut m = Mdl::dense(v.clone());
            let mut sp = BitSlice::new(Spy::new(v), *a, *a + c.n);
            split_base(&mut sp, *a, &mut m, c)?;
            for i in 0..m.n {
                ensure!(sp.backing().bits[i] == m.get(i), "bit {i} of the backing differs afterwards");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Virt(n, seed, a, _) => {
            let mut m = Mdl::virt(*n, *seed);
            let mut sp = BitSlice::new(Virt::new(*n, *seed), *a, *a + c.n);
            split_base(&mut sp, *a, &mut m, c)?;
            for i in m.marked() {
                ensure!(sp.backing().get_bit(i) == m.get(i), "bit {i} of the backing differs afterwards");
            }
            for (i, b) in &sp.backing().over {
                ensure!(m.get(*i) == *b, "bit {i} of the backing was written");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Giant(n) => {
            let mut bv = BitVec::new(*n);
            let mut m = Mdl::sparse(*n);
            split_base(&mut bv, 0, &mut m, c)?;
            for i in m.marked() {
                ensure!(bv.get_bit(i) == m.get(i), "bit {i} of the vector differs afterwards");
            }
        }
    }
    let len = c.r.b - c.r.a;
    let p: std::collections::HashSet<usize> = c.acts.iter().map(|x| x.0).collect();
    cx.nontrivial = len > 0 && p.len() >= 2;
    cx.class_if((c.r.a + c.at) % 64 != 0, "split inside a word");
    cx.class_if(c.at == 0 && len > 0, "split at 0");
    cx.class_if(c.sub.iter().any(|x| x.is_some()), "nested split");
    cx.class_if(c.r.a > 0, "split of a view with an offset");
    cx.add("writes", c.acts.len() as u64);
    Ok(())
}
#[cfg(feature = "c05")]
pub static C05P: Prop = Prop {
    id: "C05",
    rule: "backing of one of 8 kinds (one of them virtual, with up to 2^64-1 bits), a view of it split at a generated position, parts split again, interleaved writes through all parts; all parts compared with the model after every write, the backing at the end. Non-trivial: writes go through at least two different parts.",
    modes: &[
        Mode { code: 2, name: "large offsets", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 3, name: "virtual backing", quick: 60000, thorough: 720000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 800000, thorough: 9600000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c05_gen, c05_exec),
};

// ---------------------------------------------------------------- C06

#[derive(Debug, Clone, Copy)]
enum Call {
    Get(u8, usize),
    Set(u8, usize, bool),
    Flip(u8, usize),
    /// (mutable, start bound, end bound)
    Slice(bool, Bound<usize>, Bound<usize>),
    Split(bool, usize),
}
#[derive(Debug)]
struct C06 {
    base: Base,
    n: usize,
    /// views nested inside the base
    rs: Vec<Rg>,
    calls: Vec<Call>,
}
/// Any index, mostly around the borders of a container of `len` bits that
/// starts at `start` of a storage of `total` bits.
fn any_index(s: &mut Src, len: usize, start: usize, total: usize) -> usize {
    let d = s.pick(&[0isize, 1, -1, 2, 5, 63, 64, 65, -2, -64]) as usize;
    match s.weighted(&[6, 6, 3, 3, 3, 2, 3, 2]) {
        0 => {
            if len > 0 {
                gen_index(s, len)
            } else {
                0
            }
        }
        1 => len.wrapping_add(d),
        // inside the storage, behind the view
        2 => s.range(len, len.saturating_add(200)),
        3 => total.wrapping_sub(start).wrapping_add(d),
        // sums with start wrap around to a valid position
        4 => 0usize.wrapping_sub(start).wrapping_add(s.range(0, total.max(1).saturating_add(2))),
        5 => usize::MAX - s.range(0, 70),
        // becomes valid when truncated or shifted
        6 => {
            let k = s.range(3, 63);
            (if len > 0 { s.idx(len) } else { 0 }).wrapping_add(1usize << k)
        }
        _ => s.u64() as usize,
    }
}
fn gen_bound(s: &mut Src, len: usize, start: usize, total: usize) -> Bound<usize> {
    match s.weighted(&[3, 3, 1]) {
        0 => Bound::Included(any_index(s, len, start, total)),
        1 => Bound::Excluded(any_index(s, len, start, total)),
        _ => Bound::Unbounded,
    }
}
fn c06_gen(s: &mut Src, h: Head) -> C06 {
    let (base, n) = gen_base(s, h.mode);
    let mut rs = vec![];
    let (mut len, mut start) = (n, 0);
    let total = match &base {
        Base::Vec(..) | Base::Giant(_) => n.div_ceil(64) * 64,
        Base::Words(w, a, _) => {
            start = *a;
            w.len() * 64
        }
        Base::U8(_, a, _) => {
            start = *a;
            8
        }
        Base::U16(_, a, _) => {
            start = *a;
            16
        }
        Base::U32(_, a, _) => {
            start = *a;
            32
        }
        Base::U64(_, a, _) => {
            start = *a;
            64
        }
        Base::Spy(p, a, _) => {
            start = *a;
            p.n
        }
        Base::Virt(n, _, a, _) => {
            start = *a;
            *n
        }
    };
    for _ in 0..s.weighted(&[3, 3, 2]) {
        let r = gen_range(s, len);
        rs.push(r);
        start += r.a;
        len = r.b - r.a;
    }
    let calls = (0..s.range(1, 8))
        .map(|_| match s.weighted(&[3, 3, 3, 4, 2]) {
            0 => Call::Get(s.below(6) as u8, any_index(s, len, start, total)),
            1 => Call::Set(s.below(6) as u8, any_index(s, len, start, total), !s.flag()),
            2 => Call::Flip(s.below(6) as u8, any_index(s, len, start, total)),
            3 => {
                let a = gen_bound(s, len, start, total);
                Call::Slice(s.flag(), a, gen_bound(s, len, start, total))
            }
            _ => Call::Split(s.flag(), any_index(s, len, start, total)),
        })
        .collect();
    C06 { base, n, rs, calls }
}
struct Tally {
    rejected: u64,
    accepted: u64,
}
fn calls_on<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, len: usize, m: &mut Mdl, cs: &[Call], t: &mut Tally) -> Res {
    for c in cs {
        let (valid, got): (bool, Result<Option<String>, String>) = match *c {
            Call::Get(p, i) => (
                i < len,
                attempt(|| {
                    let g = match p {
                        0 => v.get_bit(i),
                        1 => v.get(i),
                        2 => (&*v as &dyn BitGet).get_bit(i),
                        3 => BitGet::get_bit(&Rc::new(&*v), i),
                        4 => BitGet::get_bit(&Box::new(&*v), i),
                        _ => BitGet::get_bit(&&mut *v, i),
                    };
                    (i < len && g != m.get(off + i)).then(|| format!("returned {g}"))
                }),
            ),
            Call::Set(p, i, b) => (
                i < len,
                attempt(|| {
                    match p {
                        0 => v.set_bit(i, b),
                        1 => v.set(i, b),
                        2 => (&mut *v as &mut dyn BitModify).set_bit(i, b),
                        3 | 4 => BitModify::set_bit(&mut Box::new(&mut *v), i, b),
                        _ => BitModify::set_bit(&mut &mut *v, i, b),
                    }
                    if i < len {
                        m.set(off + i, b);
                    }
                    None
                }),
            ),
            Call::Flip(p, i) => (
                i < len,
                attempt(|| {
                    match p {
                        0 => v.flip_bit(i),
                        1 => v.flip(i),
                        2 => (&mut *v as &mut dyn BitModify).flip_bit(i),
                        3 | 4 => BitModify::flip_bit(&mut Box::new(&mut *v), i),
                        _ => BitModify::flip_bit(&mut &mut *v, i),
                    }
                    if i < len {
                        m.set(off + i, !m.get(off + i));
                    }
                    None
                }),
            ),
            Call::Slice(mutable, a, b) => {
                let x = match a {
                    Bound::Included(x) => Some(x),
                    Bound::Excluded(x) => x.checked_add(1),
                    Bound::Unbounded => Some(0),
                };
                let y = match b {
                    Bound::Included(x) => x.checked_add(1),
                    Bound::Excluded(x) => Some(x),
                    Bound::Unbounded => Some(len),
                };
                let valid = matches!((x, y), (Some(x), Some(y)) if x <= y && y <= len);
                (
                    valid,
                    attempt(|| {
                        let l = if mutable { v.slice_mut((a, b)).len() } else { v.slice((a, b)).len() };
                        (valid && l != y.unwrap() - x.unwrap()).then(|| format!("gave a view of {l} bits"))
                    }),
                )
            }
            Call::Split(mutable, i) => {
                if i == len {
                    // splitting at the end is neither promised nor ruled out
                    let _ = attempt(|| v.split_at(i).0.len());
                    continue;
                }
                (
                    i < len,
                    attempt(|| {
                        let l = if mutable {
                            let (l, r) = v.split_at_mut(i);
                            (l.len(), r.len())
                        } else {
                            let (l, r) = v.split_at(i);
                            (l.len(), r.len())
                        };
                        (i < len && l != (i, len - i)).then(|| format!("gave parts of {l:?} bits"))
                    }),
                )
            }
        };
        match (valid, got) {
            (true, Ok(None)) => t.accepted += 1,
            (true, Ok(Some(e))) => return Err(format!("{c:?} on {len} bits {e}")),
            (true, Err(p)) => return Err(format!("{c:?} is in range of {len} bits but panicked: {p}")),
            (false, Ok(_)) => return Err(format!("{c:?} is out of range of {len} bits (offset {off}) but was accepted")),
            (false, Err(_)) => t.rejected += 1,
        }
        check_view(v, off, len, m, &[]).map_err(|e| format!("after {c:?}: {e}"))?;
    }
    Ok(())
}
fn c06_views<B: BitGet + BitModify>(v: &mut BitSlice<B>, off: usize, m: &mut Mdl, c: &C06, t: &mut Tally) -> Res {
    match &c.rs[..] {
        [] => calls_on(v, off, c.n, m, &c.calls, t)?,
        [r] => calls_on(&mut with_range!(r, v, slice_mut), off + r.a, r.b - r.a, m, &c.calls, t)?,
        [r, q, ..] => {
            let mut w = with_range!(r, v, slice_mut);
            calls_on(&mut with_range!(q, w, slice_mut), off + r.a + q.a, q.b - q.a, m, &c.calls, t)?
        }
    }
    check_view(v, off, c.n, m, &[])
}
/// Calls on a plain container (no view around it).
fn direct<T: BitGet + BitModify + ?Sized>(x: &mut T, bits: usize, m: &mut Mdl, calls: &[Call], t: &mut Tally) -> Res {
    for c in calls {
        let (i, r) = match *c {
            Call::Get(p, i) => (
                i,
                attempt(|| match p {
                    3 => BitGet::get_bit(&Rc::new(&*x), i),
                    4 => BitGet::get_bit(&Box::new(&*x), i),
                    5 => BitGet::get_bit(&&mut *x, i),
                    _ => x.get_bit(i),
                })
                .map(|g| i >= bits || g == m.get(i)),
            ),
            Call::Set(p, i, b) => (
                i,
                attempt(|| match p {
                    3 | 4 => BitModify::set_bit(&mut Box::new(&mut *x), i, b),
                    5 => BitModify::set_bit(&mut &mut *x, i, b),
                    _ => x.set_bit(i, b),
                })
                .map(|_| {
                    if i < bits {
                        m.set(i, b)
                    }
                    true
                }),
            ),
            Call::Flip(p, i) => (
                i,
                attempt(|| match p {
                    3 | 4 => BitModify::flip_bit(&mut Box::new(&mut *x), i),
                    5 => BitModify::flip_bit(&mut &mut *x, i),
                    _ => x.flip_bit(i),
                })
                .map(|_| {
                    if i < bits {
                        m.set(i, !m.get(i))
                    }
                    true
                }),
            ),
            _ => continue,
        };
        match (i < bits, r) {
            (true, Ok(true)) => t.accepted += 1,
            (true, Ok(false)) => return Err(format!("{c:?} on a container of {bits} bits read the wrong value")),
            (true, Err(p)) => return Err(format!("{c:?} is in range of {bits} bits but panicked: {p}")),
            (false, Ok(_)) => return Err(format!("{c:?} is out of range of {bits} bits but was accepted")),
            (false, Err(_)) => t.rejected += 1,
        }
        for i in 0..bits.min(2000) {
            ensure!(x.get_bit(i) == m.get(i), "bit {i} differs after {c:?}");
        }
    }
    Ok(())
}
/// BitVec has its own checked writers next to those of the view inside it.
fn bitvec_calls(bv: &mut BitVec, n: usize, m: &mut Mdl, calls: &[Call], t: &mut Tally) -> Res {
    for c in calls {
        let (i, r) = match *c {
            Call::Set(p, i, b) => (
                i,
                attempt(|| match p {
                    0 => BitModify::set_bit(bv, i, b),
                    1 => BitModify::set_bit(&mut &mut *bv, i, b),
                    _ => BitSlice::new(&mut *bv, 0, n).set(i, b),
                })
                .map(|_| {
                    if i < n {
                        m.set(i, b)
                    }
                }),
            ),
            Call::Flip(p, i) => (
                i,
                attempt(|| match p {
                    0 => BitModify::flip_bit(bv, i),
                    1 => BitModify::flip_bit(&mut &mut *bv, i),
                    _ => BitSlice::new(&mut *bv, 0, n).flip(i),
                })
                .map(|_| {
                    if i < n {
                        m.set(i, !m.get(i))
                    }
                }),
            ),
            _ => continue,
        };
        match (i < n, r) {
            (true, Ok(_)) => t.accepted += 1,
            (true, Err(p)) => return Err(format!("{c:?} is in range of a vector of {n} bits but panicked: {p}")),
            (false, Ok(_)) => return Err(format!("{c:?} is out of range of a vector of {n} bits but was accepted")),
            (false, Err(_)) => t.rejected += 1,
        }
        check_view(bv, 0, n, m, &[]).map_err(|e| format!("after {c:?}: {e}"))?;
    }
    Ok(())
}
fn c06_exec(c: &C06, cx: &mut Cx) -> Res {
    let t = &mut Tally { rejected: 0, accepted: 0 };
    macro_rules! word {
        ($w:expr, $t:ty, $a:expr) => {{
            let mut w: $t = *$w;
            let bits = <$t>::BITS as usize;
            let mut m = Mdl::dense((0..bits).map(|i| w >> i & 1 == 1).collect());
            c06_views(&mut BitSlice::new(&mut w, *$a, *$a + c.n), *$a, &mut m, c, t)?;
            direct(&mut w, bits, &mut m, &c.calls, t)?;
            for i in 0..bits {
                ensure!((w >> i & 1 == 1) == m.get(i), "bit {i} of the word differs afterwards");
            }
        }};
    }
    match &c.base {
        Base::Vec(p, how) => {
            let v = p.model();
            let mut bv = build(&v, *how);
            let n = v.len();
            let mut m = Mdl::dense(v);
            c06_views(&mut bv, 0, &mut m, c, t)?;
            bitvec_calls(&mut bv, n, &mut m, &c.calls, t)?;
            for (k, w) in bv.raw().iter().enumerate() {
                for b in 0..64 {
                    let i = 64 * k + b;
                    ensure!((w >> b & 1 == 1) == (i < n && m.get(i)), "raw bit {i} differs afterwards");
                }
            }
        }
        Base::Words(w, a, _) => {
            let bits = |w: &[usize]| (0..w.len() * 64).map(|i| w[i / 64] >> (i % 64) & 1 == 1).collect::<Vec<_>>();
            let mut m = Mdl::dense(bits(w));
            let mut x = w.clone();
            c06_views(&mut BitSlice::new(&mut x[..], *a, *a + c.n), *a, &mut m, c, t)?;
            let total = x.len() * 64;
            direct(&mut x[..], total, &mut m, &c.calls, t)?;
            direct(&mut &mut x[..], total, &mut m, &c.calls, t)?;
            let mut bx = x.clone().into_boxed_slice();
            direct(&mut bx, total, &mut m, &c.calls, t)?;
            let got = bits(&bx);
            for i in 0..got.len() {
                ensure!(got[i] == m.get(i), "bit {i} of the words differs afterwards");
            }
        }
        Base::U8(w, a, _) => word!(w, u8, a),
        Base::U16(w, a, _) => word!(w, u16, a),
        Base::U32(w, a, _) => word!(w, u32, a),
        Base::U64(w, a, _) => {
            word!(w, u64, a);
            let w2 = &(*w as usize);
            word!(w2, usize, a)
        }
        Base::Spy(p, a, _) => {
            let v = p.model();
            let mut m = Mdl::dense(v.clone());
            let mut sp = BitSlice::new(Spy::new(v), *a, *a + c.n);
            c06_views(&mut sp, *a, &mut m, c, t)?;
            for i in 0..m.n {
                ensure!(sp.backing().bits[i] == m.get(i), "bit {i} of the backing differs afterwards");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Virt(n, seed, a, _) => {
            let mut m = Mdl::virt(*n, *seed);
            let mut sp = BitSlice::new(Virt::new(*n, *seed), *a, *a + c.n);
            c06_views(&mut sp, *a, &mut m, c, t)?;
            for i in m.marked() {
                ensure!(sp.backing().get_bit(i) == m.get(i), "bit {i} of the backing differs afterwards");
            }
            for (i, b) in &sp.backing().over {
                ensure!(m.get(*i) == *b, "bit {i} of the backing was written");
            }
            same!(sp.backing().stray.get(), 0u64, "out-of-range accesses");
        }
        Base::Giant(n) => {
            let mut bv = BitVec::new(*n);
            let mut m = Mdl::sparse(*n);
            c06_views(&mut bv, 0, &mut m, c, t)?;
            bitvec_calls(&mut bv, *n, &mut m, &c.calls, t)?;
        }
    }
    cx.nontrivial = t.rejected > 0;
    cx.add("rejected calls", t.rejected);
    cx.add("accepted calls", t.accepted);
    cx.class_if(!c.rs.is_empty(), "calls on a view");
    Ok(())
}
#[cfg(feature = "c06")]
pub static C06P: Prop = Prop {
    id: "C06",
    rule: "container (vector, nested view, word, word slice, user backing) and checked calls with indices and bounds around its borders, the borders of the storage behind it, wrap-around and truncation; accepted exactly if in range, data compared after every call. Run with and without debug assertions. Non-trivial: at least one call had to be rejected.",
    modes: &[
        Mode { code: 2, name: "large", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 3, name: "virtual backing", quick: 100000, thorough: 1200000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 1200000, thorough: 14400000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c06_gen, c06_exec),
};

// ---------------------------------------------------------------- C07

#[derive(Debug)]
struct Side {
    kind: u8,
    pre: usize,
    post: usize,
    fill: u8,
}
/// Equal contents in backings of any size: the views start at `a` and `b` and
/// have `n` and `m` bits; `odd` is a bit that differs.
#[derive(Debug)]
struct Far {
    seed: u64,
    a: usize,
    b: usize,
    n: usize,
    m: usize,
    odd: Option<usize>,
}
/// Bit `i` is the hash of `i - by`.
struct Shift {
    seed: u64,
    by: usize,
    odd: Option<usize>,
}
impl BitGet for Shift {
    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {
        self.get_bit(index)
    }
    fn get_bit(&self, index: usize) -> bool {
        let i = index.wrapping_sub(self.by);
        virt_bit(self.seed, i) ^ (self.odd == Some(i))
    }
}
#[derive(Debug)]
enum Rel {
    Same,
    BitAt(usize),
    TwoBits(usize, usize),
    Longer(bool),
    Shorter,
    Rotated(usize),
    Other(Pat),
}
#[derive(Debug)]
struct C07 {
    far: Option<Far>,
    pat: Pat,
    rel: Rel,
    a: Side,
    b: Side,
    /// ranges of two views of one and the same vector
    own: (Rg, Rg),
}
fn gen_side(s: &mut Src) -> Side {
    Side {
        kind: s.below(7) as u8,
        pre: s.pick(&[0usize, 1, 63, 64, 65, 7, 130, 17]),
        post: s.pick(&[0usize, 1, 64, 3, 70]),
        fill: s.below(3) as u8,
    }
}
fn gen_far(s: &mut Src) -> Far {
    let n = gen_len(s, 400);
    // one view is much longer, or both have the same length
    let m = match s.weighted(&[2, 3, 1]) {
        0 => n,
        1 => n + (1usize << s.range(16, 62)),
        _ => n + s.range(0, 70),
    };
    let mut start = || match s.below(4) {
        0 => s.range(0, 130),
        1 => usize::MAX - m - s.range(0, 130).min(usize::MAX - m),
        _ => ((1usize << s.range(20, 63)) - 70 + s.range(0, 140)).min(usize::MAX - m),
    };
    let (a, b) = (start(), start());
    let odd = if n > 0 && s.chance(1, 3) { Some(gen_index(s, n)) } else { None };
    Far { seed: s.bytes(4), a, b, n, m, odd }
}
fn far_exec(f: &Far, cx: &mut Cx) -> Res {
    let x = BitSlice::new(Shift { seed: f.seed, by: f.a, odd: None }, f.a, f.a + f.n);
    let y = BitSlice::new(Shift { seed: f.seed, by: f.b, odd: f.odd }, f.b, f.b + f.m);
    let want = f.n == f.m && f.odd.is_none();
    let what = format!("views of {} and {} bits at {} and {}", f.n, f.m, f.a, f.b);
    ensure!((x == y) == want, "{what}: a == b is {}, expected {want}", !want);
    ensure!((y == x) == want, "{what}: b == a is {}, expected {want}", !want);
    ensure!((x != y) != want, "{what}: a != b is {want}, expected {}", !want);
    ensure!((y != x) != want, "{what}: b != a is {want}, expected {}", !want);
    cx.nontrivial = f.n > 0;
    cx.class_if(want, "equal");
    cx.class_if(f.n != f.m, "different lengths");
    cx.class_if(f.m - f.n > 1 << 32, "lengths 2^32 or more apart");
    cx.class_if(f.a.max(f.b) > 1 << 32, "beyond 2^32 bits");
    Ok(())
}
fn c07_gen(s: &mut Src, h: Head) -> C07 {
    if h.mode == 3 {
        let side = || Side { kind: 0, pre: 0, post: 0, fill: 0 };
        let none = Rg { form: 0, a: 0, b: 0 };
        return C07 { far: Some(gen_far(s)), pat: Pat { n: 0, segs: vec![] }, rel: Rel::Same, a: side(), b: side(), own: (none, none) };
    }
    let n = match h.mode {
        1 => (h.ord / 4) as usize,
        2 => {
            let e = s.range(12, 20);
            (1 << e) - 70 + s.range(0, 140)
        }
        _ => gen_len(s, 2500),
    };
    let pat = gen_pat(s, n);
    let rel = match s.weighted(&[4, 6, 2, 2, 2, 1, 1]) {
        1 if n > 0 => Rel::BitAt(gen_index(s, n)),
        2 if n > 1 => {
            let i = s.idx(n - 1);
            Rel::TwoBits(i, s.range(i + 1, n - 1))
        }
        3 => Rel::Longer(s.flag()),
        4 if n > 0 => Rel::Shorter,
        5 if n > 1 => Rel::Rotated(s.range(1, n - 1)),
        6 => {
            let k = gen_len(s, 2500);
            Rel::Other(gen_pat(s, k))
        }
        _ => Rel::Same,
    };
    let (a, b) = (gen_side(s), gen_side(s));
    let x = gen_range(s, n);
    // the same start, the same end, the same length or anything
    let y = match s.below(4) {
        0 => Rg { form: 0, a: x.a, b: s.range(x.a, n) },
        1 => Rg { form: 0, a: s.range(0, x.b), b: x.b },
        2 => {
            let l = x.b - x.a;
            let d = match s.below(3) {
                0 => x.a.saturating_sub(64).min(n - l),
                1 => (x.a + 64).min(n - l),
                _ => s.range(0, n - l),
            };
            Rg { form: 0, a: d, b: d + l }
        }
        _ => gen_range(s, n),
    };
    C07 { far: None, pat, rel, a, b, own: (x, y) }
}
fn padded(m: &[bool], sd: &Side) -> Vec<bool> {
    let f = |i: usize| match sd.fill {
        0 => false,
        1 => true,
        _ => i % 2 == 0,
    };
    (0..sd.pre).map(f).chain(m.iter().copied()).chain((0..sd.post).map(f)).collect()
}
fn eq_checks<A: BitGet, B: BitGet>(a: &BitSlice<A>, b: &BitSlice<B>, want: bool) -> Res {
    ensure!((a == b) == want, "a == b is {}, expected {want}", a == b);
    ensure!((b == a) == want, "b == a is {}, expected {want}", b == a);
    ensure!((a != b) != want, "a != b is {}, expected {}", a != b, !want);
    ensure!((b != a) != want, "b != a is {}, expected {}", b != a, !want);
    ensure!(a == a && !(a != a) && b == b, "a view is not equal to itself");
    Ok(())
}
fn pack(v: &[bool]) -> Vec<usize> {
    let mut w = vec![0usize; v.len().div_ceil(64).max(1)];
    for (i, b) in v.iter().enumerate() {
        w[i / 64] |= (*b as usize) << (i % 64);
    }
    w
}
macro_rules! side {
    ($sd:expr, $m:expr, $name:ident, $body:expr) => {{
        let sd = $sd;
        let full = padded($m, sd);
        let (a, b) = (sd.pre, sd.pre + $m.len());
        match sd.kind {
            0 => {
                let bv = build(&full, 0);
                let v = bv.slice(a..b);
                let $name = &v;
                $body
            }
            1 => {
                let mut bv = build(&full, 1);
                let v = bv.slice_mut(a..b);
                let $name = &v;
                $body
            }
            2 => {
                let w = pack(&full);
                let v = BitSlice::new(&w[..], a, b);
                let $name = &v;
                $body
            }
            3 => {
                let bv = build($m, 2);
                let $name = &*bv;
                $body
            }
            4 => {
                let v = BitSlice::new(Spy::new(full.clone()), a, b);
                let $name = &v;
                $body
            }
            5 => {
                let bv = build(&full, 5);
                let (_, r) = bv.split_at(a.min(full.len().max(1) - 1));
                if full.is_empty() || a >= full.len() {
                    let v = bv.slice(a..b);
                    let r = v.slice(..);
                    let $name = &r;
                    $body
                } else {
                    let v = r.slice(..$m.len());
                    let $name = &v;
                    $body
                }
            }
            _ => {
                if $m.len() <= 64 {
                    let v = BitSlice::new(pack($m)[0], 0, $m.len());
                    let $name = &v;
                    $body
                } else {
                    let v = BitSlice::new(pack(&full).into_boxed_slice(), a, b);
                    let $name = &v;
                    $body
                }
            }
        }
    }};
}
fn c07_inner<B: BitGet>(b: &BitSlice<B>, m: &[bool], sd: &Side, want: bool) -> Res {
    if sd.kind == 5 && m.len() + sd.pre + sd.post == 0 {
        return Ok(());
    }
    side!(sd, m, a, eq_checks(a, b, want))
}
fn c07_exec(c: &C07, cx: &mut Cx) -> Res {
    if let Some(f) = &c.far {
        return far_exec(f, cx);
    }
    let m = c.pat.model();
    let mut o = m.clone();
    match &c.rel {
        Rel::Same => {}
        Rel::BitAt(i) => o[*i] = !o[*i],
        Rel::TwoBits(i, j) => {
            o[*i] = !o[*i];
            o[*j] = !o[*j];
        }
        Rel::Longer(b) => o.push(*b),
        Rel::Shorter => {
            o.pop();
        }
        Rel::Rotated(k) => o.rotate_left(*k),
        Rel::Other(p) => o = p.model(),
    }
    let want = m == o;
    if c.b.kind == 5 && o.len() + c.b.pre + c.b.post == 0 {
        return Ok(());
    }
    side!(&c.b, &o, b, c07_inner(b, &m, &c.a, want))?;
    let (x, y) = (build(&m, 0), build(&o, 3));
    eq_checks(&x, &y, want)?;
    eq_checks(&x.clone(), &x, true)?;
    // two views of one vector, with and without sharing its memory
    let (p, q) = c.own;
    let same_bits = m[p.a..p.b] == m[q.a..q.b];
    eq_checks(&with_range!(p, x, slice), &with_range!(q, x, slice), same_bits).map_err(|e| format!("views of one vector: {e}"))?;
    let mut z = x.clone();
    eq_checks(&with_range!(p, x, slice), &with_range!(q, z, slice_mut), same_bits).map_err(|e| format!("views of a vector and its clone: {e}"))?;
    eq_checks(&x.slice(p.a..).slice(..p.b - p.a), &with_range!(p, x, slice), true).map_err(|e| format!("nested view: {e}"))?;
    cx.class_if(same_bits && p.b > p.a && (p.a, p.b) != (q.a, q.b), "equal views of one vector at different places");
    cx.nontrivial = !m.is_empty() && !matches!(c.rel, Rel::Other(_));
    cx.class_if(want, "equal");
    cx.class_if(!want && m.len() == o.len(), "unequal, same length");
    cx.class_if(m.len() != o.len(), "different lengths");
    cx.class_if(c.a.kind != c.b.kind, "different backings");
    cx.class_if((c.a.pre % 64) != (c.b.pre % 64), "different alignment");
    Ok(())
}
#[cfg(feature = "c07")]
pub static C07P: Prop = Prop {
    id: "C07",
    rule: "two views of generated backing, offset and surroundings whose contents are equal, differ in one or two bits, by a bit appended or removed, or by rotation, and two views of one vector; == and != both ways compared with equality of the models. Non-trivial: not empty and related contents.",
    modes: &[
        Mode { code: 2, name: "large", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 3, name: "virtual backing", quick: 400000, thorough: 4800000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 10000, thorough: 40000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 800000, thorough: 9600000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c07_gen, c07_exec),
};

// ---------------------------------------------------------------- C08

#[derive(Debug, Clone, Copy)]
pub enum Step {
    Next(usize),
    Nth(usize),
    Take(usize),
    Skip(usize),
    Zip(usize),
    All,
    Position,
    Any,
    Find,
    TryFold(usize),
}
#[derive(Debug, Clone, Copy)]
pub enum Fin {
    Collect,
    Count,
    Last,
    Fold,
    StepBy(usize),
    SkipLen(usize),
    TakeLen(usize),
    Enumerate,
    Chain,
    Peek,
    ForLoop,
    Drain,
    ForEach,
    Max,
    Min,
    Eq,
    Cmp,
    Partition,
    Reduce,
    FilterCount,
    LastOfMap,
}
pub fn gen_steps(s: &mut Src, n: usize) -> (Vec<Step>, Fin) {
    let near = |s: &mut Src| match s.weighted(&[4, 2, 1]) {
        0 => s.range(0, 4),
        1 => s.range(0, n + 2),
        _ => s.pick(&[63usize, 64, 65, 128, 512]),
    };
    // now and then a count with which positions wrap around
    let any = |s: &mut Src| {
        if s.chance(1, 12) {
            let below = s.pick(&[3usize, n + 2]);
            usize::MAX - s.range(0, below)
        } else {
            near(s)
        }
    };
    let steps = (0..s.range(0, 6))
        .map(|_| match s.weighted(&[5, 4, 2, 2, 1, 1, 1, 1, 1, 1]) {
            0 => Step::Next(near(s)),
            1 => Step::Nth(any(s)),
            2 => Step::Take(any(s)),
            3 => Step::Skip(any(s)),
            4 => Step::Zip(any(s)),
            5 => Step::All,
            6 => Step::Position,
            7 => Step::Any,
            8 => Step::Find,
            _ => Step::TryFold(any(s)),
        })
        .collect();
    let fin = match s.below(21) {
        0 => Fin::Collect,
        1 => Fin::Count,
        2 => Fin::Last,
        3 => Fin::Fold,
        4 => Fin::StepBy(if s.chance(1, 12) { usize::MAX - s.range(0, n + 2) } else { s.range(1, 70) }),
        5 => Fin::SkipLen(any(s)),
        6 => Fin::TakeLen(any(s)),
        7 => Fin::Enumerate,
        8 => Fin::Chain,
        9 => Fin::Peek,
        10 => Fin::ForLoop,
        11 => Fin::Drain,
        12 => Fin::ForEach,
        13 => Fin::Max,
        14 => Fin::Min,
        15 => Fin::Eq,
        16 => Fin::Cmp,
        17 => Fin::Partition,
        18 => Fin::Reduce,
        19 => Fin::FilterCount,
        _ => Fin::LastOfMap,
    };
    (steps, fin)
}
/// Walks `it` as told and compares it with the plain iterator over `m`.
pub fn walk<T, I>(mut it: I, m: &[T], steps: &[Step], fin: Fin, special: impl Fn(&T) -> bool) -> Res
where
    T: Ord + std::fmt::Debug + Copy,
    I: ExactSizeIterator<Item = T>,
{
    let mut at = 0usize;
    let n = m.len();
    macro_rules! sizes {
        ($what:expr) => {
            same!(it.len(), n - at, "len at position {at} of {n} {}", $what);
            same!(it.size_hint(), (n - at, Some(n - at)), "size_hint at position {at} of {n} {}", $what);
        };
    }
    sizes!("at the start");
    for st in steps {
        match *st {
            Step::Next(k) => {
                for _ in 0..k {
                    same!(it.next(), m.get(at).copied(), "next at position {at} of {n}");
                    at = (at + 1).min(n);
                    sizes!("after next");
                }
            }
            Step::Nth(k) => {
                same!(it.nth(k), m.get(at.saturating_add(k)).copied(), "nth({k}) at position {at} of {n}");
                at = at.saturating_add(k).saturating_add(1).min(n);
            }
            Step::Take(k) => {
                let v: Vec<T> = it.by_ref().take(k).collect();
                let e = at.saturating_add(k).min(n);
                ensure!(v == m[at..e], "take({k}) at position {at} of {n} gave {}", clip(&format!("{v:?}"), 200));
                at = e;
            }
            Step::Skip(k) => {
                let want = m.get(at.saturating_add(k)).copied();
                let mut sk = it.by_ref().skip(k);
                same!(sk.next(), want, "skip({k}).next at position {at} of {n}");
                at = at.saturating_add(k).saturating_add(1).min(n);
            }
            Step::Zip(k) => {
                let rest = &m[at..];
                let v: Vec<(usize, T)> = (0..k).zip(it.by_ref()).collect();
                let e = k.min(rest.len());
                ensure!(v.len() == e, "zip gave {} of {e} pairs", v.len());
                for (i, x) in v {
                    same!(x, rest[i], "element {i} of zip");
                }
                // zip may or may not have taken one more; only 0..k limits it from the left
                at += e;
            }
            Step::All => {
                let p = m[at..].iter().position(|x| special(x));
                same!(it.all(|x| !special(&x)), p.is_none(), "all at position {at} of {n}");
                at = p.map(|p| at + p + 1).unwrap_or(n);
            }
            Step::Position => {
                let p = m[at..].iter().position(|x| special(x));
                same!(it.position(|x| special(&x)), p, "position at position {at} of {n}");
                at = p.map(|p| at + p + 1).unwrap_or(n);
            }
            Step::Any => {
                let p = m[at..].iter().position(|x| special(x));
                same!(it.any(|x| special(&x)), p.is_some(), "any at position {at} of {n}");
                at = p.map(|p| at + p + 1).unwrap_or(n);
            }
            Step::Find => {
                let p = m[at..].iter().position(|x| !special(x));
                same!(it.find(|x| !special(x)), p.map(|p| m[at + p]), "find at position {at} of {n}");
                at = p.map(|p| at + p + 1).unwrap_or(n);
            }
            Step::TryFold(k) => {
                // stops on the k-th element, which is consumed
                let mut seen = vec![];
                let r = it.try_fold(0usize, |c, x| {
                    seen.push(x);
                    if c == k {
                        Err(c)
                    } else {
                        Ok(c + 1)
                    }
                });
                let e = at.saturating_add(k).saturating_add(1).min(n);
                ensure!(seen == m[at..e], "try_fold at position {at} of {n} saw {} elements, expected {}", seen.len(), e - at);
                same!(r, if k < n - at { Err(k) } else { Ok(n - at) }, "result of try_fold");
                at = e;
            }
        }
        sizes!(format!("after {st:?}"));
    }
    let rest = &m[at..];
    match fin {
        Fin::Collect => {
            let v: Vec<T> = it.collect();
            ensure!(v == rest, "collect at position {at} of {n} differs");
        }
        Fin::Count => same!(it.count(), rest.len(), "count at position {at} of {n}"),
        Fin::Last => same!(it.last(), rest.last().copied(), "last at position {at} of {n}"),
        Fin::Fold => {
            let v = it.fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            });
            ensure!(v == rest, "fold at position {at} of {n} differs");
        }
        Fin::StepBy(k) => {
            let sb = it.step_by(k);
            same!(sb.len(), rest.len().div_ceil(k), "len of step_by({k})");
            let v: Vec<T> = sb.collect();
            let w: Vec<T> = rest.iter().copied().step_by(k).collect();
            ensure!(v == w, "step_by({k}) at position {at} of {n} differs");
        }
        Fin::SkipLen(k) => {
            let sk = it.skip(k);
            same!(sk.len(), rest.len().saturating_sub(k), "len of skip({k})");
            let v: Vec<T> = sk.collect();
            ensure!(v == rest[k.min(rest.len())..], "skip({k}) differs");
        }
        Fin::TakeLen(k) => {
            let tk = it.take(k);
            same!(tk.len(), rest.len().min(k), "len of take({k})");
            let v: Vec<T> = tk.collect();
            ensure!(v == rest[..k.min(rest.len())], "take({k}) differs");
        }
        Fin::Enumerate => {
            let e = it.enumerate();
            same!(e.len(), rest.len(), "len of enumerate");
            for (i, x) in e {
                ensure!(rest.get(i) == Some(&x), "element {i} of enumerate is {x:?}");
            }
        }
        Fin::Chain => {
            let tail = rest.to_vec();
            let v: Vec<T> = it.chain(tail.clone()).collect();
            ensure!(v.len() == 2 * rest.len() && v[..rest.len()] == *rest && v[rest.len()..] == *rest, "chain differs");
        }
        Fin::Peek => {
            let mut p = it.peekable();
            same!(p.peek().copied(), rest.first().copied(), "peek");
            same!(p.len(), rest.len(), "len of peekable");
            let v: Vec<T> = p.collect();
            ensure!(v == rest, "peekable differs");
        }
        Fin::ForLoop => {
            let mut k = 0;
            for x in it {
                ensure!(rest.get(k) == Some(&x), "element {k} of the loop is {x:?}");
                k += 1;
            }
            same!(k, rest.len(), "number of loop rounds");
        }
        Fin::ForEach => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            ensure!(v == rest, "for_each at position {at} of {n} differs");
        }
        Fin::Max => same!(it.max(), rest.iter().copied().max(), "max at position {at} of {n}"),
        Fin::Min => same!(it.min(), rest.iter().copied().min(), "min at position {at} of {n}"),
        Fin::Eq => ensure!(it.eq(rest.iter().copied()), "eq at position {at} of {n} is false"),
        Fin::Cmp => same!(it.cmp(rest.iter().copied()), std::cmp::Ordering::Equal, "cmp at position {at} of {n}"),
        Fin::Partition => {
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| special(x));
            let (c, d): (Vec<T>, Vec<T>) = rest.iter().copied().partition(|x| special(x));
            ensure!(a == c && b == d, "partition at position {at} of {n} differs");
        }
        Fin::Reduce => same!(it.reduce(|_, b| b), rest.last().copied(), "reduce at position {at} of {n}"),
        Fin::FilterCount => {
            let want = rest.iter().filter(|x| special(x)).count();
            same!(it.filter(|x| special(x)).count(), want, "count of filter at position {at} of {n}")
        }
        Fin::LastOfMap => same!(it.map(|x| (x, 1)).last(), rest.last().map(|x| (*x, 1)), "last of map at position {at} of {n}"),
        Fin::Drain => {
            for (k, want) in rest.iter().enumerate() {
                same!(it.len(), rest.len() - k, "len while draining");
                same!(it.next(), Some(*want), "element {k} while draining");
            }
            for _ in 0..3 {
                same!(it.next(), None, "next after the end");
                same!(it.len(), 0, "len after the end");
                same!(it.size_hint(), (0, Some(0)), "size_hint after the end");
                same!(it.nth(2), None, "nth after the end");
            }
        }
    }
    Ok(())
}
#[derive(Debug)]
struct C08 {
    pat: Pat,
    how: usize,
    r: Rg,
    source: u8,
    steps: Vec<Step>,
    fin: Fin,
    /// size and seed of a virtual backing and calls of (kind, count) on it
    far: Option<(usize, u64, Vec<(u8, usize)>)>,
}
/// A bounded number of calls on a possibly astronomically long iterator.
fn walk_far<I: ExactSizeIterator<Item = bool>>(mut it: I, m: &Mdl, a: usize, b: usize, calls: &[(u8, usize)]) -> Res {
    let mut at = a;
    let item = |i: usize| if i < b { Some(m.get(i)) } else { None };
    for (kind, k) in calls {
        let k = *k;
        let to = at.saturating_add(k).min(b);
        match kind {
            0 => {
                for i in 0..k {
                    same!(it.next(), item(at.saturating_add(i)), "next at {at}+{i} of {a}..{b}");
                }
                at = to;
            }
            1 => {
                same!(it.nth(k), if to < b { item(to) } else { None }, "nth({k}) at {at} of {a}..{b}");
                at = to.saturating_add(1).min(b);
            }
            2 => {
                let v: Vec<bool> = it.by_ref().take(k).collect();
                ensure!(v.len() == to - at && (0..v.len()).all(|i| v[i] == m.get(at + i)), "take({k}) at {at} of {a}..{b} differs");
                at = to;
            }
            3 => {
                // the first one; far below the hash's odds of a long run of zeroes
                let p = (at..b).take(k + 1).position(|i| m.get(i));
                let Some(p) = p else { continue };
                same!(it.position(|x| x), Some(p), "position at {at} of {a}..{b}");
                at += p + 1;
            }
            4 => {
                let Some((i, x)) = it.by_ref().enumerate().nth(k) else {
                    ensure!(b - at <= k, "enumerate.nth({k}) at {at} of {a}..{b} ended early");
                    at = b;
                    continue;
                };
                same!((i, Some(x)), (k, item(at + k)), "enumerate.nth({k}) at {at} of {a}..{b}");
                at += k + 1;
            }
            _ => {
                let v: Vec<(usize, bool)> = (0..k).zip(it.by_ref()).collect();
                ensure!(v.len() == to - at && v.iter().all(|(i, x)| *x == m.get(at + i)), "zip at {at} of {a}..{b} differs");
                at = to;
            }
        }
        same!(it.len(), b - at, "len at {at} of {a}..{b}");
        same!(it.size_hint(), (b - at, Some(b - at)), "size_hint at {at} of {a}..{b}");
    }
    Ok(())
}
fn c08_gen(s: &mut Src, h: Head) -> C08 {
    let n = match h.mode {
        1 => (h.ord / 2) as usize,
        2 => {
            let e = s.range(12, 19);
            (1 << e) - 70 + s.range(0, 140)
        }
        3 => {
            // a window of the virtual backing, far out
            let (base, len) = gen_base(s, 3);
            let Base::Virt(n, seed, a, b) = base else { unreachable!() };
            let walk = (0..s.range(1, 8)).map(|_| (s.below(6) as u8, s.pick(&[0usize, 1, 2, 63, 64, 65, 200, 511, 512, 4096]))).collect();
            let _ = len;
            return C08 { pat: Pat { n: 0, segs: vec![] }, how: 0, r: Rg { form: 0, a, b }, source: s.below(4) as u8, steps: vec![], fin: Fin::Count, far: Some((n, seed, walk)) };
        }
        _ => gen_len(s, 3000),
    };
    let pat = gen_pat(s, n);
    let r = gen_range(s, n);
    let source = s.below(13) as u8;
    let len = if matches!(source, 0 | 1 | 2 | 3) { n } else { r.b - r.a };
    let (steps, fin) = gen_steps(s, len);
    C08 { pat, how: s.idx(BUILDS), r, source, steps, fin, far: None }
}
fn c08_exec(c: &C08, cx: &mut Cx) -> Res {
    if let Some((n, seed, calls)) = &c.far {
        let (a, b) = (c.r.a, c.r.b);
        let m = Mdl::virt(*n, *seed);
        let v = BitSlice::new(Virt::new(*n, *seed), a, b);
        match c.source {
            0 => walk_far(v.iter(), &m, a, b, calls)?,
            1 => walk_far((&v).into_iter(), &m, a, b, calls)?,
            2 => walk_far(Iter::new(v.backing(), a, b), &m, a, b, calls)?,
            _ => walk_far(v.slice(..).into_iter(), &m, a, b, calls)?,
        }
        same!(v.backing().stray.get(), 0u64, "out-of-range accesses");
        walk_far(v.into_iter(), &m, a, b, calls)?;
        cx.nontrivial = b > a;
        cx.class("virtual backing");
        cx.class_if(b > 1 << 32, "beyond 2^32 bits");
        return Ok(());
    }
    let m = c.pat.model();
    let mut bv = build(&m, c.how);
    let (a, b) = (c.r.a, c.r.b);
    let sub = &m[a..b];
    let (st, f) = (&c.steps[..], c.fin);
    let sp = |x: &bool| *x;
    match c.source {
        0 => walk(bv.iter(), &m, st, f, sp)?,
        1 => walk((&bv).into_iter(), &m, st, f, sp)?,
        2 => walk((&*bv).into_iter(), &m, st, f, sp)?,
        3 => walk((*bv).clone().into_iter(), &m, st, f, sp)?,
        4 => walk(with_range!(c.r, bv, slice).iter(), sub, st, f, sp)?,
        5 => walk(with_range!(c.r, bv, slice).into_iter(), sub, st, f, sp)?,
        6 => walk((&with_range!(c.r, bv, slice)).into_iter(), sub, st, f, sp)?,
        7 => walk(with_range!(c.r, bv, slice_mut).into_iter(), sub, st, f, sp)?,
        8 => walk(with_range!(c.r, bv, slice_mut).iter(), sub, st, f, sp)?,
        9 => walk(Iter::new(&*bv, a, b), sub, st, f, sp)?,
        10 => {
            let v = bv.slice(..b);
            walk(v.slice(a..).into_iter(), sub, st, f, sp)?
        }
        11 => {
            let x = BitSlice::new(Spy::new(m.clone()), a, b);
            walk(x.iter(), sub, st, f, sp)?;
            same!(x.backing().stray.get(), 0u64, "out-of-range accesses");
            walk(x.into_iter(), sub, st, f, sp)?
        }
        _ => {
            let w = pack(&m);
            walk(BitSlice::new(&w[..], a, b).into_iter(), sub, st, f, sp)?;
            if m.len() <= 64 {
                walk(BitSlice::new(w[0], a, b).into_iter(), sub, st, f, sp)?;
            }
        }
    }
    cx.nontrivial = b > a && !c.steps.is_empty();
    cx.class_if(c.source >= 4 && a > 0, "view with an offset");
    cx.class_if(c.steps.iter().any(|s| matches!(s, Step::Nth(_) | Step::Skip(_))), "skipping steps");
    cx.class_if(b - a > 64, "more than a word");
    Ok(())
}
#[cfg(feature = "c08")]
pub static C08P: Prop = Prop {
    id: "C08",
    rule: "vector or view (13 ways to get an iterator), a program of iterator steps and a finishing adapter; every item, remaining length and size hint compared with the model slice. Virtual backings of up to 2^64-1 bits with a bounded number of calls. Non-trivial: not empty and at least one step.",
    modes: &[
        Mode { code: 2, name: "large", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 3, name: "virtual backing", quick: 100000, thorough: 1200000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 12000, thorough: 48000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 1200000, thorough: 14400000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c08_gen, c08_exec),
};
