//! C01 array behaviour, C02 raw words, C03 clones, C21 debug output.
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use std::collections::HashSet;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Set(u8, usize, bool),
    Flip(u8, usize),
}
pub const PATHS: u64 = 10;

pub fn gen_ops(s: &mut Src, n: usize, max: usize) -> Vec<Op> {
    if n == 0 {
        return vec![];
    }
    let k = s.range(0, max);
    let mut last: Option<usize> = None;
    (0..k)
        .map(|_| {
            let i = match last {
                // stay close to the previous index, so that words are shared
                Some(l) if s.chance(1, 3) => (l + s.range(0, 4)).saturating_sub(2).min(n - 1),
                _ => gen_index(s, n),
            };
            last = Some(i);
            let path = s.below(PATHS) as u8;
            if s.chance(1, 3) {
                Op::Flip(path, i)
            } else {
                Op::Set(path, i, !s.flag())
            }
        })
        .collect()
}

fn g_set<T: BitModify + ?Sized>(t: &mut T, i: usize, v: bool) {
    t.set_bit(i, v)
}
fn g_flip<T: BitModify + ?Sized>(t: &mut T, i: usize) {
    t.flip_bit(i)
}
unsafe fn g_setu<T: BitModify + ?Sized>(t: &mut T, i: usize, v: bool) {
    t.set_bit_unchecked(i, v)
}
unsafe fn g_flipu<T: BitModify + ?Sized>(t: &mut T, i: usize) {
    t.flip_bit_unchecked(i)
}
fn g_get<T: BitGet + ?Sized>(t: &T, i: usize) -> bool {
    t.get_bit(i)
}
unsafe fn g_getu<T: BitGet + ?Sized>(t: &T, i: usize) -> bool {
    t.get_bit_unchecked(i)
}

pub fn apply(bv: &mut BitVec, op: Op) {
    let n = bv.len();
    match op {
        Op::Set(p, i, v) => match p {
            0 => bv.set_bit(i, v),
            1 => bv.set(i, v),
            2 => unsafe { g_setu(bv, i, v) },
            3 => unsafe { bv.set_unchecked(i, v) },
            4 => AsMut::<BitSlice<_>>::as_mut(bv).set_bit(i, v),
            5 => g_set(&mut &mut *bv, i, v),
            6 => {
                let mut b = Box::new(std::mem::replace(bv, BitVec::new(0)));
                g_set(&mut b, i, v);
                *bv = *b;
            }
            7 => BitSlice::new(&mut *bv, i, n).set_bit(0, v),
            8 => unsafe { g_setu::<BitSlice<_>>(&mut **bv, i, v) },
            _ => unsafe { BitSlice::new(&mut *bv, i, n).set_unchecked(0, v) },
        },
        Op::Flip(p, i) => match p {
            0 => bv.flip_bit(i),
            1 => bv.flip(i),
            2 => unsafe { g_flipu(bv, i) },
            3 => unsafe { bv.flip_unchecked(i) },
            4 => AsMut::<BitSlice<_>>::as_mut(bv).flip_bit(i),
            5 => g_flip(&mut &mut *bv, i),
            6 => {
                let mut b = Box::new(std::mem::replace(bv, BitVec::new(0)));
                g_flip(&mut b, i);
                *bv = *b;
            }
            7 => BitSlice::new(&mut *bv, i, n).flip_bit(0),
            8 => unsafe { g_flipu::<BitSlice<_>>(&mut **bv, i) },
            _ => unsafe { BitSlice::new(&mut *bv, i, n).flip_unchecked(0) },
        },
    }
}

/// Reads bit `i` by every path; `Err` names a path that disagrees.
pub fn read_all(bv: &BitVec, i: usize, want: bool) -> Res {
    let got = [
        ("get_bit", bv.get_bit(i)),
        ("get", bv.get(i)),
        ("get_bit_unchecked", unsafe { bv.get_bit_unchecked(i) }),
        ("get_unchecked", unsafe { bv.get_unchecked(i) }),
        ("as_ref", AsRef::<BitSlice<_>>::as_ref(bv).get_bit(i)),
        ("generic", g_get::<BitSlice<_>>(bv, i)),
        ("by reference", g_get(&&**bv, i)),
        ("generic unchecked", unsafe { g_getu(&&**bv, i) }),
    ];
    for (name, v) in got {
        ensure!(v == want, "bit {i} of {} read by {name}: got {v}, expected {want}", bv.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

#[derive(Debug)]
struct C01 {
    n: usize,
    /// content at the start and the way it is brought about
    start: Option<(Pat, usize)>,
    ops: Vec<Op>,
}
fn c01_gen(s: &mut Src, h: Head) -> C01 {
    match h.mode {
        // every length, one pass over all bits (paths rotate)
        1 => {
            let n = h.ord as usize;
            let ops = (0..n)
                .flat_map(|i| {
                    let p = ((i + n) % PATHS as usize) as u8;
                    [Op::Set(p, i, true), Op::Flip((p + 3) % PATHS as u8, (i * 7 + 3) % n)]
                })
                .collect();
            C01 { n, start: None, ops }
        }
        // large vectors
        2 => {
            let e = s.range(16, 33);
            let n = (1usize << e) + s.pick(&[0usize, 1, 63, 64, 65]) + s.range(0, 1000);
            C01 { n, start: None, ops: gen_ops(s, n, 24) }
        }
        _ => {
            let n = gen_len(s, 5000);
            let max = if s.chance(1, 4) { 200 } else { 40 };
            let start = if s.flag() { Some((gen_pat(s, n), s.idx(BUILDS))) } else { None };
            C01 { n, start, ops: gen_ops(s, n, max) }
        }
    }
}
fn c01_exec(c: &C01, cx: &mut Cx) -> Res {
    let n = c.n;
    let mut bv = BitVec::new(n);
    let mut ones: HashSet<usize> = HashSet::new();
    let full = |bv: &BitVec, ones: &HashSet<usize>, all_paths: bool| -> Res {
        for i in 0..n {
            if all_paths {
                read_all(bv, i, ones.contains(&i))?;
            } else {
                let g = bv.get_bit(i);
                ensure!(g == ones.contains(&i), "bit {i} of {n} is {g}");
            }
        }
        Ok(())
    };
    same!(bv.len(), n, "length of a new vector");
    same!(bv.is_empty(), n == 0, "is_empty of a new vector");
    if n <= 20000 {
        full(&bv, &ones, true)?;
    }
    if let Some((p, how)) = &c.start {
        bv = build(&p.model(), *how);
        p.for_each_one(|i| {
            ones.insert(i);
        });
        full(&bv, &ones, false)?;
    }
    let mut words = HashSet::new();
    for op in &c.ops {
        apply(&mut bv, *op);
        let i = match *op {
            Op::Set(_, i, true) => {
                ones.insert(i);
                i
            }
            Op::Set(_, i, false) => {
                ones.remove(&i);
                i
            }
            Op::Flip(_, i) => {
                if !ones.remove(&i) {
                    ones.insert(i);
                }
                i
            }
        };
        words.insert(i / 64);
        same!(bv.len(), n, "length after {op:?}");
        read_all(&bv, i, ones.contains(&i)).map_err(|e| format!("after {op:?}: {e}"))?;
        if n <= 300 {
            full(&bv, &ones, false).map_err(|e| format!("after {op:?}: {e}"))?;
        } else {
            // indices that collide with i under truncation or a wrong shift
            for b in 0..40 {
                let j = i ^ (1usize << b);
                if j < n {
                    let g = bv.get_bit(j);
                    ensure!(g == ones.contains(&j), "bit {j} of {n} is {g} after {op:?}");
                }
            }
            for j in [i / 64, i / 8, i % 64, i.saturating_sub(1), i + 1, n - 1, 0, n - 1 - i] {
                if j < n {
                    let g = bv.get_bit(j);
                    ensure!(g == ones.contains(&j), "bit {j} of {n} is {g} after {op:?}");
                }
            }
        }
    }
    if n <= 1 << 18 {
        full(&bv, &ones, n <= 5000)?;
    } else {
        for j in ones.iter() {
            read_all(&bv, *j, true)?;
        }
    }
    same!(bv.is_empty(), n == 0, "is_empty at the end");
    cx.nontrivial = words.len() >= 2 && c.ops.len() >= 4;
    cx.class_if(n == 0, "empty");
    cx.class_if(n % 64 == 0 && n > 0, "length multiple of 64");
    cx.class_if(n % 64 != 0, "partial last word");
    cx.class_if(n > 1 << 32, "more than 2^32 bits");
    cx.class_if(c.start.is_some(), "writes onto existing content");
    cx.class_if(c.ops.iter().any(|o| matches!(o, Op::Flip(..))), "with flips");
    cx.add("writes", c.ops.len() as u64);
    Ok(())
}
#[cfg(feature = "c01")]
pub static C01P: Prop = Prop {
    id: "C01",
    rule: "length, content at the start and a history of set/flip calls (10 access paths each); compared with a set of one-positions after every call, all bits for small lengths, colliding and neighbouring indices for large ones. Non-trivial: at least 4 writes touching at least 2 words.",
    modes: &[
        Mode { code: 2, name: "large", quick: 6000, thorough: 72000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 1400, thorough: 5600, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 600000, thorough: 7200000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c01_gen, c01_exec),
};

// ---------------------------------------------------------------- C02

#[derive(Debug)]
struct C02 {
    pat: Pat,
    how: usize,
    ops: Vec<Op>,
    /// writes through a view: (start, end, ops relative to the view as (index, kind))
    views: Vec<(usize, usize, Vec<(usize, u8)>)>,
}
fn c02_gen(s: &mut Src, h: Head) -> C02 {
    let n = match h.mode {
        1 => h.ord as usize,
        2 => {
            let e = s.range(16, 34);
            let n = (1usize << e) + s.range(0, 3000);
            return C02 { pat: Pat { n, segs: vec![] }, how: 0, ops: gen_ops(s, n, 6), views: vec![] };
        }
        _ => gen_len(s, 6000),
    };
    let pat = if h.mode == 1 && h.ord % 2 == 0 { Pat { n, segs: vec![(n, Kind::Ones)] } } else { gen_pat(s, n) };
    let how = s.idx(BUILDS);
    let ops = gen_ops(s, n, 12);
    let views = (0..s.range(0, 3))
        .map(|_| {
            let a = if n == 0 { 0 } else { gen_index(s, n) };
            let b = s.range(a, n);
            let k = if b > a { s.range(0, 8) } else { 0 };
            (a, b, (0..k).map(|_| (gen_index(s, b - a), s.below(4) as u8)).collect())
        })
        .collect();
    C02 { pat, how, ops, views }
}
fn raw_check(bv: &BitVec, one: impl Fn(usize) -> bool, n: usize, sparse: Option<&HashSet<usize>>) -> Res {
    let raw = bv.raw();
    same!(raw.len(), n / 64 + (n % 64 != 0) as usize, "number of words for {n} bits");
    let r2: &[usize] = bv.as_ref();
    // comparing the addresses first saves reading a large vector
    let same_words = |x: &[usize]| std::ptr::eq(raw, x) || raw == x;
    ensure!(same_words(r2), "AsRef<[usize]> differs from raw");
    let r3: &[usize] = bv.backing();
    ensure!(same_words(r3), "backing differs from raw");
    match sparse {
        Some(ones) => {
            for &i in ones {
                ensure!(raw[i / 64] >> (i % 64) & 1 == 1, "raw bit {i} is 0, expected 1");
            }
        }
        None => {
            for (k, w) in raw.iter().enumerate() {
                for b in 0..64 {
                    let i = 64 * k + b;
                    let got = w >> b & 1 == 1;
                    let want = i < n && one(i);
                    ensure!(got == want, "raw bit {i} of a {n}-bit vector is {got}, expected {want}");
                }
            }
        }
    }
    Ok(())
}
fn c02_exec(c: &C02, cx: &mut Cx) -> Res {
    let n = c.pat.n;
    if n > 60000 {
        let mut bv = BitVec::new(n);
        let mut ones = HashSet::new();
        raw_check(&bv, |_| false, n, Some(&ones))?;
        let raw = bv.raw();
        if let Some(l) = raw.last() {
            same!(*l, 0usize, "last word of a new vector");
        }
        for op in &c.ops {
            apply(&mut bv, *op);
            match *op {
                Op::Set(_, i, true) => {
                    ones.insert(i);
                }
                Op::Set(_, i, false) => {
                    ones.remove(&i);
                }
                Op::Flip(_, i) => {
                    if !ones.remove(&i) {
                        ones.insert(i);
                    }
                }
            }
        }
        raw_check(&bv, |_| false, n, Some(&ones))?;
        for op in &c.ops {
            let (Op::Set(_, i, _) | Op::Flip(_, i)) = *op;
            let k = i / 64;
            let want = (0..64).fold(0usize, |w, b| w | (ones.contains(&(64 * k + b)) as usize) << b);
            same!(bv.raw()[k], want, "raw word {k}");
        }
        cx.nontrivial = c.ops.len() >= 2;
        cx.class("large");
        return Ok(());
    }
    let mut m = c.pat.model();
    let mut bv = build(&m, c.how);
    raw_check(&bv, |i| m[i], n, None)?;
    for op in &c.ops {
        apply(&mut bv, *op);
        match *op {
            Op::Set(_, i, v) => m[i] = v,
            Op::Flip(_, i) => m[i] = !m[i],
        }
        if n <= 600 {
            raw_check(&bv, |i| m[i], n, None).map_err(|e| format!("after {op:?}: {e}"))?;
        }
    }
    for (a, b, ws) in &c.views {
        let mut v = bv.slice_mut(*a..*b);
        for (i, k) in ws {
            match k {
                0 => v.set_bit(*i, true),
                1 => v.set_bit(*i, false),
                2 => v.flip_bit(*i),
                _ => unsafe { v.set_unchecked(*i, true) },
            }
            m[a + i] = match k {
                0 | 3 => true,
                1 => false,
                _ => !m[a + i],
            };
        }
        drop(v);
        raw_check(&bv, |i| m[i], n, None).map_err(|e| format!("after writes through view {a}..{b}: {e}"))?;
    }
    let d = bv.clone();
    raw_check(&bv, |i| m[i], n, None)?;
    raw_check(&d, |i| m[i], n, None).map_err(|e| format!("clone: {e}"))?;
    let ones = m.iter().filter(|x| **x).count();
    cx.nontrivial = n > 64 && ones > 0 && ones < n;
    cx.class_if(n % 64 == 0, "no padding bits");
    cx.class_if(n % 64 != 0, "with padding bits");
    cx.class_if(!c.views.is_empty(), "writes through views");
    Ok(())
}
#[cfg(feature = "c02")]
pub static C02P: Prop = Prop {
    id: "C02",
    rule: "content pattern, way of building it, writes by all paths and through views; every raw bit, the word count and the padding compared with the model after each stage. Non-trivial: more than one word and mixed content (large mode: at least two writes).",
    modes: &[
        Mode { code: 2, name: "large", quick: 4000, thorough: 48000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 5000, thorough: 20000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 400000, thorough: 4800000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c02_gen, c02_exec),
};

// ---------------------------------------------------------------- C03

#[derive(Debug)]
enum Fam {
    /// write to member k
    Write(usize, Op),
    /// new member cloned from k
    Clone(usize),
    /// member a becomes a clone of member b
    CloneFrom(usize, usize),
    /// owning view cloned from member k, written to at i, then dropped
    View(usize, usize),
    /// drop member k
    Drop(usize),
    /// clone of a clone: shared view of member k cloned and read after a range
    Shared(usize, usize, usize),
}
#[derive(Debug)]
struct C03 {
    pat: Pat,
    other: Pat,
    how: usize,
    steps: Vec<Fam>,
}
fn c03_gen(s: &mut Src, h: Head) -> C03 {
    let n = match h.mode {
        1 => h.ord as usize,
        3 => {
            // beyond 2^32 bits: sparse content, two clones
            let n = (1usize << 32) + s.range(0, 100_000);
            let steps = (0..8)
                .map(|k| match k {
                    3 => Fam::Clone(0),
                    4 => Fam::CloneFrom(1, 0),
                    _ => Fam::Write(s.idx(3), gen_ops(s, n, 3).pop().unwrap_or(Op::Flip(0, n - 1))),
                })
                .collect();
            return C03 { pat: Pat { n, segs: vec![] }, other: Pat { n: 100, segs: vec![] }, how: 9, steps };
        }
        2 => {
            let e = s.range(13, 22);
            (1 << e) - 70 + s.range(0, 140)
        }
        _ => gen_len(s, 3000),
    };
    let pat = gen_pat(s, n);
    let m = if s.flag() { n } else { gen_len(s, n.max(800)) };
    let other = gen_pat(s, m);
    let how = if h.mode == 2 { 0 } else { s.idx(BUILDS) };
    let k = s.range(2, if h.mode == 2 { 10 } else { 24 });
    let steps = (0..k)
        .map(|_| match s.weighted(&[6, 4, 2, 2, 1, 2]) {
            // indices are reduced to the member's length when applied
            0 => {
                let op = gen_ops(s, n.max(1), 1).pop().unwrap_or(Op::Flip(0, 0));
                Fam::Write(s.idx(6), op)
            }
            1 => Fam::Clone(s.idx(6)),
            2 => Fam::CloneFrom(s.idx(6), s.idx(6)),
            3 => Fam::View(s.idx(6), gen_index(s, n.max(1))),
            4 => Fam::Drop(s.idx(6)),
            _ => {
                let a = s.range(0, n);
                Fam::Shared(s.idx(6), a, s.range(a, n))
            }
        })
        .collect();
    C03 { pat, other, how, steps }
}
/// Members beyond 2^32 bits, with sparse models.
fn c03_giant(c: &C03, cx: &mut Cx) -> Res {
    let mut fam = vec![(BitVec::new(c.pat.n), Mdl::sparse(c.pat.n)), (BitVec::new(c.other.n), Mdl::sparse(c.other.n))];
    for st in &c.steps {
        match st {
            Fam::Write(k, op) => {
                let k = k % fam.len();
                let (b, m) = &mut fam[k];
                let op = match *op {
                    Op::Set(p, i, v) => Op::Set(p, i % m.n, v),
                    Op::Flip(p, i) => Op::Flip(p, i % m.n),
                };
                apply(b, op);
                match op {
                    Op::Set(_, i, v) => m.set(i, v),
                    Op::Flip(_, i) => m.set(i, !m.get(i)),
                }
            }
            Fam::Clone(k) => {
                let x = (fam[*k].0.clone(), fam[*k].1.clone());
                fam.push(x);
            }
            Fam::CloneFrom(a, b) => {
                let m = fam[*b].1.clone();
                let (l, r) = fam.split_at_mut(1);
                if (*a, *b) == (1, 0) {
                    r[0].0.clone_from(&l[0].0);
                    r[0].1 = m;
                }
            }
            _ => {}
        }
        let at: HashSet<usize> = fam.iter().flat_map(|x| x.1.marked()).collect();
        for (k, (b, m)) in fam.iter().enumerate() {
            same!(b.len(), m.n, "after {st:?}: length of member {k}");
            for i in at.iter().flat_map(|i| [*i, i & 0xffff_ffff, i ^ 1, i ^ 64, m.n - 1]) {
                ensure!(i >= m.n || b.get_bit(i) == m.get(i), "after {st:?}: bit {i} of member {k} differs");
            }
        }
    }
    cx.nontrivial = true;
    cx.class("more than 2^32 bits");
    Ok(())
}
fn c03_exec(c: &C03, cx: &mut Cx) -> Res {
    if c.how == 9 {
        return c03_giant(c, cx);
    }
    let m0 = c.pat.model();
    let m1 = c.other.model();
    let mut fam: Vec<(BitVec, Vec<bool>)> = vec![(build(&m0, c.how), m0), (build(&m1, 0), m1)];
    let check = |fam: &[(BitVec, Vec<bool>)], what: &dyn Fn() -> String| -> Res {
        for (k, (b, m)) in fam.iter().enumerate() {
            ensure!(b.len() == m.len(), "{}: member {k} has length {}, expected {}", what(), b.len(), m.len());
            // long members: every 61st bit and both ends here, everything at the end
            let stride = if m.len() > 4000 { 61 } else { 1 };
            for i in (0..m.len()).step_by(stride).chain(m.len().saturating_sub(64)..m.len()) {
                let g = b.get_bit(i);
                ensure!(g == m[i], "{}: bit {i} of member {k} is {g}", what());
            }
        }
        Ok(())
    };
    let (mut clones, mut writes_after) = (0, 0);
    for st in &c.steps {
        let len = fam.len();
        match st {
            Fam::Write(k, op) => {
                let (b, m) = &mut fam[k % len];
                if m.is_empty() {
                    continue;
                }
                let op = match *op {
                    Op::Set(p, i, v) => Op::Set(p, i % m.len(), v),
                    Op::Flip(p, i) => Op::Flip(p, i % m.len()),
                };
                apply(b, op);
                let (Op::Set(_, i, _) | Op::Flip(_, i)) = op;
                match op {
                    Op::Set(_, i, v) => m[i] = v,
                    Op::Flip(_, i) => m[i] = !m[i],
                }
                for (k, (b, m)) in fam.iter().enumerate() {
                    ensure!(i >= m.len() || b.get_bit(i) == m[i], "after {op:?}: bit {i} of member {k} differs");
                }
                writes_after += (clones > 0) as u32;
            }
            Fam::Clone(k) => {
                if len < 6 {
                    let (b, m) = &fam[k % len];
                    let x = (b.clone(), m.clone());
                    ensure!(*x.0 == **b, "clone compares unequal");
                    fam.push(x);
                    clones += 1;
                }
            }
            Fam::CloneFrom(a, b) => {
                let (a, b) = (a % len, b % len);
                if a != b {
                    let (sb, sm) = (fam[b].0.clone(), fam[b].1.clone());
                    fam[a].0.clone_from(&sb);
                    fam[a].1 = sm;
                    drop(sb);
                    clones += 1;
                }
            }
            Fam::View(k, i) => {
                let (b, m) = &fam[k % len];
                let mut v = (**b).clone();
                ensure!(v.len() == m.len(), "cloned owning view has length {}", v.len());
                for j in 0..m.len() {
                    ensure!(v.get_bit(j) == m[j], "bit {j} of a cloned owning view differs");
                }
                if !m.is_empty() {
                    let i = i % m.len();
                    v.flip_bit(i);
                    ensure!(v.get_bit(i) != m[i], "flip on a cloned owning view had no effect");
                }
                clones += 1;
                writes_after += 1;
            }
            Fam::Drop(k) => {
                if len > 1 {
                    fam.remove(k % len);
                }
            }
            Fam::Shared(k, x, y) => {
                let (b, m) = &fam[k % len];
                let (x, y) = ((*x).min(m.len()), (*y).min(m.len()));
                let v = b.slice(x..y);
                let w = v.clone();
                drop(v);
                ensure!(w.len() == y - x, "clone of view {x}..{y} has length {}", w.len());
                for j in 0..w.len() {
                    ensure!(w.get_bit(j) == m[x + j], "bit {j} of a clone of view {x}..{y} differs");
                }
            }
        }
        check(&fam, &|| format!("after {st:?}"))?;
    }
    for (k, (b, m)) in fam.iter().enumerate() {
        for i in 0..m.len() {
            ensure!(b.get_bit(i) == m[i], "at the end bit {i} of member {k} differs");
        }
    }
    cx.class_if(c.pat.n > 1 << 16, "more than 2^16 bits");
    cx.nontrivial = clones >= 1 && writes_after >= 1 && c.pat.n > 0;
    cx.class_if(clones >= 2, "two or more clones");
    cx.class_if(c.steps.iter().any(|s| matches!(s, Fam::CloneFrom(..))), "clone_from");
    cx.class_if(c.steps.iter().any(|s| matches!(s, Fam::Drop(..))), "drops");
    cx.add("writes after a clone", writes_after as u64);
    Ok(())
}
/// Owning views of three backings, each with the bits of its whole backing.
#[derive(Debug, Clone)]
enum Own {
    Words(BitSlice<Box<[usize]>>),
    Nest(BitSlice<BitSlice<Box<[usize]>>>),
    Word(BitSlice<u64>),
}
#[derive(Debug, Clone)]
struct OwnMdl {
    bits: Vec<bool>,
    /// start and end of the inner view (Nest only)
    inner: (usize, usize),
    a: usize,
    b: usize,
}
impl Own {
    fn new(kind: usize, words: &[u64], inner: (usize, usize), a: usize, b: usize) -> (Self, OwnMdl) {
        let words = if kind == 2 { &words[..1] } else { words };
        let n = words.len() * 64;
        let bits: Vec<bool> = (0..n).map(|i| words[i / 64] >> (i % 64) & 1 == 1).collect();
        let bx: Box<[usize]> = words.iter().map(|w| *w as usize).collect();
        let x = inner.0.min(n);
        let inner = if kind == 1 { (x, inner.1.clamp(x, n)) } else { (0, n) };
        let a = a.min(inner.1 - inner.0);
        let b = b.clamp(a, inner.1 - inner.0);
        let v = match kind {
            0 => Own::Words(BitSlice::new(bx, a, b)),
            1 => Own::Nest(BitSlice::new(BitSlice::new(bx, inner.0, inner.1), a, b)),
            _ => Own::Word(BitSlice::new(words[0], a, b)),
        };
        (v, OwnMdl { bits, inner, a, b })
    }
    fn len(&self) -> usize {
        match self {
            Own::Words(v) => v.len(),
            Own::Nest(v) => v.len(),
            Own::Word(v) => v.len(),
        }
    }
    fn get(&self, i: usize) -> bool {
        match self {
            Own::Words(v) => v.get_bit(i),
            Own::Nest(v) => v.get_bit(i),
            Own::Word(v) => v.get_bit(i),
        }
    }
    fn flip(&mut self, i: usize) {
        match self {
            Own::Words(v) => v.flip_bit(i),
            Own::Nest(v) => v.flip_bit(i),
            Own::Word(v) => v.flip_bit(i),
        }
    }
    fn set(&mut self, i: usize, b: bool) {
        match self {
            Own::Words(v) => v.set_bit(i, b),
            Own::Nest(v) => v.set_bit(i, b),
            Own::Word(v) => v.set_bit(i, b),
        }
    }
    fn bits(&self) -> Vec<bool> {
        match self {
            Own::Words(v) => v.iter().collect(),
            Own::Nest(v) => v.iter().collect(),
            Own::Word(v) => v.iter().collect(),
        }
    }
    /// the words of the whole backing and the number of bits the view is taken of
    fn whole(&self) -> (Vec<u64>, usize) {
        match self {
            Own::Words(v) => (v.backing().iter().map(|w| *w as u64).collect(), v.backing().len() * 64),
            Own::Nest(v) => (v.backing().backing().iter().map(|w| *w as u64).collect(), v.backing().len()),
            Own::Word(v) => (vec![*v.backing()], 64),
        }
    }
}
fn own_check(v: &Own, m: &OwnMdl) -> Res {
    same!(v.len(), m.b - m.a, "length");
    let at = m.inner.0 + m.a;
    for i in 0..v.len() {
        ensure!(v.get(i) == m.bits[at + i], "bit {i} differs");
    }
    ensure!(v.bits() == m.bits[at..at + v.len()], "iteration differs");
    let (w, n) = v.whole();
    same!(w.len() * 64, m.bits.len(), "bits in the backing");
    same!(n, m.inner.1 - m.inner.0, "bits of the backing");
    for (i, b) in m.bits.iter().enumerate() {
        ensure!((w[i / 64] >> (i % 64) & 1 == 1) == *b, "bit {i} of the backing differs");
    }
    Ok(())
}
#[derive(Debug)]
enum OwnStep {
    Clone(usize),
    CloneFrom(usize, usize),
    Set(usize, usize, bool),
    Flip(usize, usize),
    Drop(usize),
}
#[derive(Debug)]
struct C03V {
    kind: usize,
    start: Vec<(Vec<u64>, (usize, usize), usize, usize)>,
    steps: Vec<OwnStep>,
}
fn c03v_gen(s: &mut Src) -> C03V {
    let kind = s.idx(3);
    let start = (0..s.range(1, 3))
        .map(|_| {
            let words: Vec<u64> = (0..s.range(1, 4)).map(|_| s.u64()).collect();
            let n = words.len() * 64;
            let x = gen_index(s, n);
            let a = gen_index(s, n);
            (words, (x, s.range(x, n)), a, s.range(a, n))
        })
        .collect();
    let steps = (0..s.range(2, 16))
        .map(|_| match s.weighted(&[4, 4, 3, 3, 1]) {
            0 => OwnStep::Clone(s.idx(6)),
            1 => OwnStep::CloneFrom(s.idx(6), s.idx(6)),
            2 => OwnStep::Set(s.idx(6), s.range(0, 255), s.flag()),
            3 => OwnStep::Flip(s.idx(6), s.range(0, 255)),
            _ => OwnStep::Drop(s.idx(6)),
        })
        .collect();
    C03V { kind, start, steps }
}
fn c03v_exec(c: &C03V, cx: &mut Cx) -> Res {
    let mut fam: Vec<(Own, OwnMdl)> = c.start.iter().map(|(w, inner, a, b)| Own::new(c.kind, w, *inner, *a, *b)).collect();
    let (mut clones, mut writes_after, mut moved) = (0, 0, false);
    for st in &c.steps {
        let len = fam.len();
        match *st {
            OwnStep::Clone(k) => {
                if len < 6 {
                    let x = fam[k % len].clone();
                    fam.push(x);
                    clones += 1;
                }
            }
            OwnStep::CloneFrom(a, b) => {
                let (a, b) = (a % len, b % len);
                if a != b {
                    let src = fam[b].clone();
                    moved |= src.1.a != fam[a].1.a;
                    match (&mut fam[a].0, &src.0) {
                        (Own::Words(x), Own::Words(y)) => x.clone_from(y),
                        (Own::Nest(x), Own::Nest(y)) => x.clone_from(y),
                        (Own::Word(x), Own::Word(y)) => x.clone_from(y),
                        _ => return Err("members of different kinds".into()),
                    }
                    fam[a].1 = src.1;
                    clones += 1;
                }
            }
            OwnStep::Set(k, i, _) | OwnStep::Flip(k, i) => {
                let (v, m) = &mut fam[k % len];
                if m.b == m.a {
                    continue;
                }
                let i = i % (m.b - m.a);
                let at = m.inner.0 + m.a + i;
                if let OwnStep::Set(_, _, b) = *st {
                    v.set(i, b);
                    m.bits[at] = b;
                } else {
                    v.flip(i);
                    m.bits[at] = !m.bits[at];
                }
                writes_after += (clones > 0) as u32;
            }
            OwnStep::Drop(k) => {
                if len > 1 {
                    fam.remove(k % len);
                }
            }
        }
        for (k, (v, m)) in fam.iter().enumerate() {
            own_check(v, m).map_err(|e| format!("after {st:?}: member {k}: {e}"))?;
        }
    }
    cx.nontrivial = clones >= 1 && writes_after >= 1;
    cx.class_if(moved, "clone_from between views with different offsets");
    cx.class(["views of boxed words", "nested owning views", "views of one word"][c.kind]);
    cx.add("writes after a clone", writes_after as u64);
    Ok(())
}
#[derive(Debug)]
enum C03Case {
    Vecs(C03),
    Views(C03V),
}
#[cfg(feature = "c03")]
pub static C03P: Prop = Prop {
    id: "C03",
    rule: "family of up to 6 vectors cloned from one another (clone, clone_from, owning views) with writes and drops in between; all members compared with their models after every step (long ones by sample, and fully at the end). Second kind: family of owning views with offsets over boxed words, nested views or one word, compared with their whole backing. Non-trivial: at least one clone followed by a write.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 4, thorough: 16, profiles: "release" },
        Mode { code: 4, name: "owning views", quick: 200000, thorough: 2400000, profiles: "release checked" },
        Mode { code: 2, name: "large", quick: 1200, thorough: 14400, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 4500, thorough: 18000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 300000, thorough: 3600000, profiles: "release checked" },
    ],
    drive: |s, cx, p| {
        drive(
            s,
            cx,
            p,
            |s, h| if h.mode == 4 { C03Case::Views(c03v_gen(s)) } else { C03Case::Vecs(c03_gen(s, h)) },
            |c, cx| match c {
                C03Case::Vecs(c) => c03_exec(c, cx),
                C03Case::Views(c) => c03v_exec(c, cx),
            },
        )
    },
};

// ---------------------------------------------------------------- C21

#[derive(Debug)]
struct C21 {
    pat: Pat,
    how: usize,
    ops: Vec<Op>,
}
fn c21_gen(s: &mut Src, h: Head) -> C21 {
    let n = match h.mode {
        1 => h.ord as usize,
        2 => {
            let e = s.range(13, 21);
            (1 << e) - 70 + s.range(0, 140)
        }
        _ => gen_len(s, 9000),
    };
    let pat = gen_pat(s, n);
    C21 { pat, how: s.idx(BUILDS), ops: gen_ops(s, n, 6) }
}
fn c21_exec(c: &C21, cx: &mut Cx) -> Res {
    let mut m = c.pat.model();
    let mut bv = build(&m, c.how);
    for op in &c.ops {
        apply(&mut bv, *op);
        match *op {
            Op::Set(_, i, v) => m[i] = v,
            Op::Flip(_, i) => m[i] = !m[i],
        }
    }
    let mut want = String::from("{");
    for (i, b) in m.iter().enumerate() {
        if i > 0 {
            want.push_str(", ");
        }
        want.push(if *b { '1' } else { '0' });
    }
    want.push('}');
    let got = format!("{bv:?}");
    ensure!(got == want, "debug output is {}, expected {}", clip(&got, 300), clip(&want, 300));
    for i in 0..m.len() {
        ensure!(bv.get_bit(i) == m[i], "formatting changed bit {i}");
    }
    let ones = m.iter().filter(|b| **b).count();
    cx.nontrivial = ones > 0 && ones < m.len();
    cx.class_if(m.is_empty(), "empty");
    cx.class_if(m.len() > 64, "more than a word");
    Ok(())
}
#[cfg(feature = "c21")]
pub static C21P: Prop = Prop {
    id: "C21",
    rule: "bit vector of generated content and history, formatted and compared with text written from the model. Non-trivial: contains both zeroes and ones.",
    modes: &[
        Mode { code: 2, name: "large", quick: 1200, thorough: 14400, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 5000, thorough: 20000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 100000, thorough: 1200000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c21_gen, c21_exec),
};
