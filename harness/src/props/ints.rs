//! C11 array behaviour, C12 rejection, C13 packing, C14 iteration of integer vectors.
use super::views::{gen_steps, walk, Fin, Step};
use crate::engine::*;
use crate::{ensure, same};
use succinct_neo::int_vec::{IntAccess, IntVec};

fn max_of(w: usize) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn gen_value(s: &mut Src, w: usize) -> u64 {
    let m = max_of(w);
    let v = match s.weighted(&[3, 3, 1, 1, 2, 6, 1]) {
        0 => 0,
        1 => m,
        2 => 1,
        3 => m - 1,
        4 => 1u64 << s.idx(w),
        5 => s.u64(),
        _ => !(1u64 << s.idx(w)),
    };
    v & m
}
pub fn gen_width(s: &mut Src) -> usize {
    match s.weighted(&[3, 2, 2]) {
        0 => s.range(1, 64),
        1 => s.pick(&[1usize, 2, 4, 8, 16, 32, 64]),
        _ => s.pick(&[63usize, 33, 31, 3, 5, 7, 13, 61, 62, 65 - 2]),
    }
}
fn gen_cap(s: &mut Src) -> Option<usize> {
    match s.weighted(&[3, 1, 2, 1]) {
        0 => None,
        1 => Some(0),
        2 => Some(s.range(1, 40)),
        _ => Some(s.range(1, 3000)),
    }
}
pub fn make(w: usize, cap: Option<usize>) -> IntVec {
    match cap {
        None => IntVec::new(w),
        Some(c) => IntVec::with_capacity(w, c),
    }
}

#[derive(Debug, Clone, Copy)]
enum Op {
    Push(u64),
    /// index is taken modulo the length
    Set(usize, u64),
    SetU(usize, u64),
    SetDyn(usize, u64),
}
fn gen_ops(s: &mut Src, w: usize, max: usize) -> Vec<Op> {
    let k = s.range(0, max);
    let mut len = 0usize;
    (0..k)
        .map(|_| {
            let v = gen_value(s, w);
            if len == 0 || !s.chance(2, 5) {
                len += 1;
                return Op::Push(v);
            }
            let i = match s.weighted(&[1, 2, 4]) {
                0 => 0,
                1 => len - 1 - s.idx(len.min(3)),
                _ => s.idx(len),
            };
            match s.below(3) {
                0 => Op::Set(i, v),
                1 => Op::SetU(i, v),
                _ => Op::SetDyn(i, v),
            }
        })
        .collect()
}
fn apply(v: &mut IntVec, m: &mut Vec<usize>, o: Op) -> Option<usize> {
    match o {
        Op::Push(x) => {
            v.push(x as usize);
            m.push(x as usize);
            Some(m.len() - 1)
        }
        Op::Set(i, x) | Op::SetU(i, x) | Op::SetDyn(i, x) => {
            if m.is_empty() {
                return None;
            }
            let (i, x) = (i % m.len(), x as usize);
            match o {
                Op::Set(..) => v.set(i, x),
                Op::SetU(..) => unsafe { v.set_unchecked(i, x) },
                _ => (v as &mut dyn IntAccess).set(i, x),
            }
            m[i] = x;
            Some(i)
        }
    }
}
/// Pushes `n` elements that depend on the seed and the position.
fn bulk(v: &mut IntVec, m: &mut Vec<usize>, w: usize, (n, seed): (usize, u64)) {
    for i in 0..n {
        let x = mix(seed ^ mix(i as u64));
        // one in four is an extreme value
        let y = match x & 7 {
            0 => 0,
            1 => max_of(w),
            _ => mix(x) & max_of(w),
        } as usize;
        v.push(y);
        m.push(y);
    }
}
fn gen_bulk(s: &mut Src) -> (usize, u64) {
    let e = s.range(6, 17);
    ((1 << e) - 3 + s.range(0, 6), s.bytes(4))
}
/// The elements around position `i` and at both ends.
fn around(i: usize, n: usize) -> impl Iterator<Item = usize> {
    let lo = i.saturating_sub(66).min(n);
    (lo..(i + 67).min(n)).chain(0..n.min(3)).chain(n.saturating_sub(3)..n)
}
fn read(v: &IntVec, i: usize, want: usize) -> Res {
    same!(v.get(i), want, "get({i})");
    same!(unsafe { v.get_unchecked(i) }, want, "get_unchecked({i})");
    same!((v as &dyn IntAccess).get(i), want, "get({i}) through the trait");
    Ok(())
}
pub fn full(v: &IntVec, m: &[usize]) -> Res {
    same!(v.is_empty(), m.is_empty(), "is_empty with {} elements", m.len());
    same!(v.iter().len(), m.len(), "number of elements");
    for (i, x) in m.iter().enumerate() {
        read(v, i, *x)?;
    }
    let mut k = 0;
    for x in v {
        ensure!(m.get(k) == Some(&x), "element {k} by iteration is {x}");
        k += 1;
    }
    same!(k, m.len(), "number of elements by iteration");
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Debug)]
struct C11 {
    w: usize,
    cap: Option<usize>,
    ops: Vec<Op>,
    /// for the large mode: number of pushes and seed of the values
    bulk: Option<(usize, u64)>,
}
fn c11_gen(s: &mut Src, h: Head) -> C11 {
    match h.mode {
        1 => {
            // every width, with patterns of extreme neighbours
            let w = (h.ord % 64) as usize + 1;
            let mut ops: Vec<Op> = vec![];
            let n = 3 * 64 + s.range(0, 9);
            let first = if h.ord / 64 % 2 == 0 { 0 } else { max_of(w) };
            for _ in 0..n {
                ops.push(Op::Push(if h.ord / 128 % 2 == 0 { first } else { gen_value(s, w) }));
            }
            for k in 0..n {
                ops.push(Op::Set((k * 37 + 11) % n, if k % 2 == 0 { max_of(w) - first } else { gen_value(s, w) }));
            }
            C11 { w, cap: gen_cap(s), ops, bulk: None }
        }
        2 => {
            let w = s.range(1, 64);
            let n = s.range(1000, 300000);
            C11 { w, cap: gen_cap(s), ops: gen_ops(s, w, 60), bulk: Some((n, s.bytes(4))) }
        }
        3 => {
            // beyond 2^32 bits, the last one also beyond 2^32 elements
            let w = [61, 64, 33, 1][h.ord as usize % 4];
            let n = (1usize << 32) / w + 5000;
            C11 { w, cap: Some(n + 4096), ops: vec![], bulk: Some((n, s.bytes(4))) }
        }
        _ => {
            let w = gen_width(s);
            let max = if s.chance(1, 5) { 300 } else { 50 };
            C11 { w, cap: gen_cap(s), ops: gen_ops(s, w, max), bulk: None }
        }
    }
}
fn c11_exec(c: &C11, cx: &mut Cx) -> Res {
    let mut v = make(c.w, c.cap);
    if let Some((n, seed)) = c.bulk {
        let sh = 64 - c.w as u32;
        let val = |i: usize| (mix(seed.wrapping_add(i as u64)) >> sh) as usize;
        for i in 0..n {
            v.push(val(i));
        }
        same!(v.iter().len(), n, "number of elements");
        let mut over: std::collections::HashMap<usize, usize> = Default::default();
        for k in 0..2000u64 {
            let i = (mix(seed ^ mix(k)) % n as u64) as usize;
            let x = (mix(seed ^ mix(k + (1 << 40))) >> sh) as usize;
            v.set(i, x);
            over.insert(i, x);
        }
        let mut places: Vec<usize> = over.keys().copied().collect();
        places.sort_unstable_by(|a, b| b.cmp(a));
        for (i, x) in v.iter().enumerate() {
            let mut want = val(i);
            if places.last() == Some(&i) {
                places.pop();
                want = over[&i];
            }
            if x != want {
                return Err(format!("element {i} of {n} is {x}, expected {want} (width {})", c.w));
            }
        }
        for k in 0..2000u64 {
            let i = (mix(k) % n as u64) as usize;
            let want = over.get(&i).copied().unwrap_or_else(|| val(i));
            read(&v, i, want)?;
        }
        cx.nontrivial = true;
        cx.class("bulk");
        cx.class_if(n * c.w > 1 << 32, "more than 2^32 bits");
        cx.class_if(n > 1 << 32, "more than 2^32 elements");
        if n > 400000 {
            return Ok(());
        }
        let mut m: Vec<usize> = (0..n).map(|i| over.get(&i).copied().unwrap_or_else(|| val(i))).collect();
        for o in &c.ops {
            apply(&mut v, &mut m, *o);
        }
        return full(&v, &m);
    }
    let mut m: Vec<usize> = vec![];
    full(&v, &m)?;
    let mut straddle = false;
    for o in &c.ops {
        let Some(i) = apply(&mut v, &mut m, *o) else { continue };
        straddle |= (i * c.w) % 64 + c.w > 64;
        let (lo, hi) = if m.len() <= 80 { (0, m.len()) } else { (i.saturating_sub(66), (i + 67).min(m.len())) };
        for j in lo..hi {
            ensure!(v.get(j) == m[j], "width {}: after {o:?} element {j} is {}, expected {}", c.w, v.get(j), m[j]);
        }
        same!(v.iter().len(), m.len(), "number of elements after {o:?}");
    }
    full(&v, &m)?;
    let out: Vec<usize> = v.into_iter().collect();
    ensure!(out == m, "elements by value differ");
    cx.nontrivial = m.len() >= 3 && m.iter().any(|x| *x != m[0]);
    cx.class_if(straddle, "element across a word border");
    cx.class_if(c.w == 64, "width 64");
    cx.class_if(64 % c.w == 0, "width divides 64");
    cx.class_if(c.ops.iter().any(|o| !matches!(o, Op::Push(_))), "with overwrites");
    cx.class_if(c.cap.is_some(), "explicit capacity");
    Ok(())
}
#[cfg(feature = "c11")]
pub static C11P: Prop = Prop {
    id: "C11",
    rule: "width, capacity and a history of pushes and overwrites with extreme and random values; neighbouring (small: all) elements compared with a plain vector after every call and everything by all read paths at the end. Non-trivial: at least 3 elements, not all equal (bulk: always).",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 4, thorough: 8, profiles: "release" },
        Mode { code: 2, name: "bulk", quick: 4000, thorough: 48000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of widths", quick: 8192, thorough: 32768, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 1500000, thorough: 18000000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c11_gen, c11_exec),
};

// ---------------------------------------------------------------- C12

#[derive(Debug, Clone, Copy)]
enum Bad {
    Good(Op),
    Push(u64),
    Set(usize, u64),
    /// offset beyond the length
    GetAt(usize),
    SetAt(usize, u64),
    BigWidth(usize, Option<usize>),
}
#[derive(Debug)]
struct C12 {
    w: usize,
    cap: Option<usize>,
    before: Option<(usize, u64)>,
    steps: Vec<Bad>,
}
fn over(s: &mut Src, w: usize) -> u64 {
    if w == 64 {
        return u64::MAX;
    }
    let m = max_of(w);
    match s.weighted(&[3, 2, 2, 2, 1]) {
        0 => m + 1,
        1 => u64::MAX,
        2 => 1u64 << s.range(w, 63),
        3 => (1u64 << s.range(w, 63)) | gen_value(s, w),
        _ => s.u64() | (m + 1),
    }
}
fn beyond(s: &mut Src, w: usize) -> usize {
    match s.weighted(&[4, 2, 2, 2, 1]) {
        0 => 0,
        1 => s.range(1, 130),
        2 => usize::MAX - s.range(0, 500),
        // index*width wraps around to a small position
        3 => ((1u128 << 64) / w as u128) as usize + s.range(0, 4),
        _ => 1usize << s.range(7, 63),
    }
}
fn c12_gen(s: &mut Src, h: Head) -> C12 {
    let w = if h.mode == 1 { (h.ord % 64) as usize + 1 } else { gen_width(s) };
    let max = if s.flag() { 20 } else { 80 };
    let k = s.range(1, max);
    let steps = (0..k)
        .map(|_| match s.weighted(&[8, 3, 3, 2, 2, 1]) {
            0 => Bad::Good(if s.chance(1, 3) { Op::Set(s.idx(64), gen_value(s, w)) } else { Op::Push(gen_value(s, w)) }),
            1 => Bad::Push(over(s, w)),
            2 => Bad::Set(s.idx(64), over(s, w)),
            3 => Bad::GetAt(beyond(s, w)),
            4 => Bad::SetAt(beyond(s, w), if s.flag() { gen_value(s, w) } else { over(s, w) }),
            _ => {
                let w = match s.weighted(&[2, 2, 2, 1]) {
                    0 => 0,
                    1 => 65,
                    2 => s.range(65, 300),
                    _ => usize::MAX - s.range(0, 70),
                };
                let cap = match s.below(3) {
                    0 => None,
                    1 => Some(0),
                    _ => Some(s.range(0, 20)),
                };
                Bad::BigWidth(w, cap)
            }
        })
        .collect();
    let before = if h.mode == 2 { Some(gen_bulk(s)) } else { None };
    C12 { w, cap: gen_cap(s), before, steps }
}
fn c12_exec(c: &C12, cx: &mut Cx) -> Res {
    let mut v = make(c.w, c.cap);
    let mut m: Vec<usize> = vec![];
    let (mut rejected, mut after) = (0u64, 0u64);
    if let Some(b) = c.before {
        bulk(&mut v, &mut m, c.w, b);
        full(&v, &m)?;
    }
    for st in &c.steps {
        let len = m.len();
        let r: Option<Result<(), String>> = match *st {
            Bad::Good(o) => {
                if let Err(p) = attempt(|| apply(&mut v, &mut m, o)) {
                    return Err(format!("width {}, {len} elements: {o:?} is allowed but panicked: {p}", c.w));
                }
                after += (rejected > 0) as u64;
                None
            }
            // every 64-bit value fits into width 64
            Bad::Push(_) | Bad::Set(..) if c.w == 64 => None,
            Bad::Push(x) => Some(attempt(|| v.push(x as usize))),
            Bad::Set(_, x) if len == 0 => Some(attempt(|| v.set(0, x as usize))),
            Bad::Set(i, x) => Some(attempt(|| v.set(i % len, x as usize))),
            Bad::GetAt(d) => Some(attempt(|| {
                v.get(len.saturating_add(d));
            })),
            Bad::SetAt(d, x) => Some(attempt(|| v.set(len.saturating_add(d), x as usize))),
            Bad::BigWidth(w, cap) => Some(attempt(|| {
                make(w, cap);
            })),
        };
        if let Some(r) = r {
            ensure!(r.is_err(), "width {}, {len} elements: {st:?} was accepted", c.w);
            rejected += 1;
        }
        if m.len() <= 400 {
            full(&v, &m).map_err(|e| format!("width {}, after {st:?}: {e}", c.w))?;
        } else {
            same!(v.iter().len(), m.len(), "number of elements after {st:?}");
            let i = match st {
                Bad::Good(Op::Set(i, _)) | Bad::Set(i, _) => i % m.len(),
                _ => m.len() - 1,
            };
            for j in around(i, m.len()) {
                ensure!(v.get(j) == m[j], "width {}: after {st:?} element {j} of {} differs", c.w, m.len());
            }
        }
    }
    full(&v, &m)?;
    cx.nontrivial = rejected > 0 && after > 0;
    cx.add("rejected calls", rejected);
    cx.add("accepted calls after a rejection", after);
    cx.class_if(c.w == 64, "width 64");
    Ok(())
}
#[cfg(feature = "c12")]
pub static C12P: Prop = Prop {
    id: "C12",
    rule: "width and a history mixing allowed calls with oversized values, indices beyond the end (also ones whose bit position wraps) and invalid widths; each must panic exactly if not allowed and all elements are compared after every call. Run with and without debug assertions. Non-trivial: a rejected call followed by an accepted one.",
    modes: &[
        Mode { code: 2, name: "bulk", quick: 4000, thorough: 48000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of widths", quick: 12800, thorough: 51200, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 500000, thorough: 6000000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c12_gen, c12_exec),
};

// ---------------------------------------------------------------- C13

#[derive(Debug)]
struct C13 {
    w: usize,
    cap: Option<usize>,
    before: Option<(usize, u64)>,
    ops: Vec<Op>,
}
fn c13_gen(s: &mut Src, h: Head) -> C13 {
    if h.mode == 3 {
        let w = [33, 61][h.ord as usize % 2];
        let n = (1usize << 32) / w + 5000;
        return C13 { w, cap: gen_cap(s), before: Some((n, s.bytes(4))), ops: vec![] };
    }
    let w = if h.mode == 1 { (h.ord % 64) as usize + 1 } else { gen_width(s) };
    let max = if h.mode == 1 { 200 } else { 90 };
    let ops = gen_ops(s, w, max);
    let before = if h.mode == 2 { Some(gen_bulk(s)) } else { None };
    C13 { w, cap: gen_cap(s), before, ops }
}
fn packed(v: &IntVec, m: &[usize], w: usize) -> Res {
    let raw = v.raw_data();
    let bits = m.len() * w;
    let need = bits.div_ceil(64);
    ensure!(raw.len() >= need && raw.len() <= need + 1, "{} words for {bits} bits", raw.len());
    for (i, x) in m.iter().enumerate() {
        let got = cut(raw, i, w);
        ensure!(got == *x, "width {w}: words hold {got} for element {i}, expected {x}");
    }
    Ok(())
}
/// The element read from the words with 128-bit arithmetic.
fn cut(raw: &[usize], i: usize, w: usize) -> usize {
    let at = i * w;
    let lo = raw[at / 64] as u128;
    let hi = raw.get(at / 64 + 1).copied().unwrap_or(0) as u128;
    (((hi << 64 | lo) >> (at % 64)) as u64 & max_of(w)) as usize
}
/// More than 2^32 bits: pushes and some overwrites, then all elements.
fn packed_giant(c: &C13, n: usize, seed: u64) -> Res {
    let (mut v, w) = (make(c.w, c.cap), c.w);
    let val = |i: usize| (mix(seed.wrapping_add(i as u64)) & max_of(w)) as usize;
    for i in 0..n {
        v.push(val(i));
    }
    let again = |i: usize| i % 1_000_003 == 7 || i + 3 > n;
    for i in (0..n).filter(|i| again(*i)) {
        v.set(i, val(i) ^ max_of(w) as usize);
    }
    let raw = v.raw_data();
    let need = (n * w).div_ceil(64);
    ensure!(raw.len() >= need && raw.len() <= need + 1, "{} words for {} bits", raw.len(), n * w);
    for i in 0..n {
        let want = if again(i) { val(i) ^ max_of(w) as usize } else { val(i) };
        let got = cut(raw, i, w);
        ensure!(got == want, "width {w}: words hold {got} for element {i} of {n}, expected {want}");
    }
    Ok(())
}
fn c13_exec(c: &C13, cx: &mut Cx) -> Res {
    if let Some((n, seed)) = c.before.filter(|b| b.0 * c.w > 1 << 32) {
        packed_giant(c, n, seed)?;
        cx.nontrivial = true;
        cx.class("more than 2^32 bits");
        return Ok(());
    }
    let mut v = make(c.w, c.cap);
    let mut m: Vec<usize> = vec![];
    packed(&v, &m, c.w)?;
    if let Some(b) = c.before {
        bulk(&mut v, &mut m, c.w, b);
        packed(&v, &m, c.w)?;
    }
    for o in &c.ops {
        apply(&mut v, &mut m, *o);
        if m.len() <= 400 {
            packed(&v, &m, c.w).map_err(|e| format!("after {o:?}: {e}"))?;
        }
    }
    packed(&v, &m, c.w)?;
    cx.class_if(m.len() > 1 << 16, "more than 2^16 elements");
    cx.nontrivial = m.len() * c.w > 64 && m.iter().any(|x| *x != 0);
    cx.class_if(64 % c.w != 0, "elements across word borders");
    cx.class_if(c.ops.iter().any(|o| !matches!(o, Op::Push(_))), "with overwrites");
    Ok(())
}
#[cfg(feature = "c13")]
pub static C13P: Prop = Prop {
    id: "C13",
    rule: "width, capacity and a history of pushes and overwrites; after every call each element is cut out of the raw words with 128-bit arithmetic and the word count is compared with the packed size. Non-trivial: more than a word of data, not all zero.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 2, thorough: 2, profiles: "release" },
        Mode { code: 2, name: "bulk", quick: 4000, thorough: 48000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of widths", quick: 12800, thorough: 51200, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 800000, thorough: 9600000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c13_gen, c13_exec),
};

// ---------------------------------------------------------------- C14

#[derive(Debug)]
struct C14 {
    w: usize,
    cap: Option<usize>,
    before: Option<(usize, u64)>,
    ops: Vec<Op>,
    source: u8,
    steps: Vec<Step>,
    fin: Fin,
}
fn c14_gen(s: &mut Src, h: Head) -> C14 {
    if h.mode == 3 {
        // more than 2^32 elements, borrowed and by value
        let before = Some(((1usize << 32) + 70, s.bytes(4)));
        let source = [0, 2][h.ord as usize % 2];
        return C14 { w: 1, cap: None, before, ops: vec![], source, steps: vec![], fin: Fin::Collect };
    }
    let w = if h.mode == 1 { (h.ord % 64) as usize + 1 } else { gen_width(s) };
    let max = if s.chance(1, 4) { 400 } else { 60 };
    let ops = gen_ops(s, w, max);
    let before = if h.mode == 2 { Some(gen_bulk(s)) } else { None };
    let n = ops.iter().filter(|o| matches!(o, Op::Push(_))).count() + before.map_or(0, |b| b.0);
    let (steps, fin) = gen_steps(s, n);
    C14 { w, cap: gen_cap(s), before, ops, source: s.below(3) as u8, steps, fin }
}
fn endless(mut it: impl ExactSizeIterator<Item = usize>, n: usize, val: impl Fn(usize) -> usize) -> Res {
    for i in 0..n {
        if i % (1 << 20) == 0 || i + 100 > n {
            same!(it.len(), n - i, "remaining length after {i} elements");
        }
        let (got, want) = (it.next(), val(i));
        ensure!(got == Some(want), "element {i} of {n} is {got:?}, expected {want}");
    }
    same!(it.len(), 0usize, "remaining length at the end");
    same!(it.next(), None, "item behind the end");
    Ok(())
}
fn c14_exec(c: &C14, cx: &mut Cx) -> Res {
    if let Some((n, seed)) = c.before.filter(|b| b.0 > 1 << 32) {
        // one hash for 64 elements
        let val = |i: usize| (mix(seed ^ (i / 64) as u64) >> (i % 64) & 1) as usize;
        let mut v = make(c.w, c.cap);
        for i in 0..n {
            v.push(val(i));
        }
        if c.source == 2 {
            endless(v.into_iter(), n, val)?;
        } else {
            endless(v.iter(), n, val)?;
        }
        cx.nontrivial = true;
        cx.class("more than 2^32 elements");
        return Ok(());
    }
    let mut v = make(c.w, c.cap);
    let mut m: Vec<usize> = vec![];
    if let Some(b) = c.before {
        bulk(&mut v, &mut m, c.w, b);
    }
    for o in &c.ops {
        apply(&mut v, &mut m, *o);
    }
    let sp = |x: &usize| *x as u64 == max_of(c.w);
    match c.source {
        0 => walk(v.iter(), &m, &c.steps, c.fin, sp)?,
        1 => walk((&v).into_iter(), &m, &c.steps, c.fin, sp)?,
        _ => walk(v.into_iter(), &m, &c.steps, c.fin, sp)?,
    }
    cx.nontrivial = m.len() >= 2 && !c.steps.is_empty();
    cx.class_if(m.is_empty(), "empty");
    cx.class_if(m.len() > 1 << 16, "more than 2^16 elements");
    cx.class_if(c.source == 2, "by value");
    cx.class_if(c.steps.iter().any(|s| matches!(s, Step::Nth(_) | Step::Skip(_))), "skipping steps");
    Ok(())
}
#[cfg(feature = "c14")]
pub static C14P: Prop = Prop {
    id: "C14",
    rule: "integer vector of generated width and history, a program of iterator steps and a finishing adapter; every item, remaining length and size hint compared with a plain vector. Non-trivial: at least two elements and one step.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 elements", quick: 2, thorough: 2, profiles: "release" },
        Mode { code: 2, name: "bulk", quick: 4000, thorough: 48000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of widths", quick: 12800, thorough: 51200, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 1000000, thorough: 12000000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c14_gen, c14_exec),
};
