//! C15 rank, C16 select, C17 out-of-domain queries, C18 consistency, C19 strategies.
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use succinct_neo::bit_vec::{BitGet, BitVec};
use succinct_neo::rank_select::flat_popcount::*;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

/// Contents with long runs, borders and counts around multiples of the block
/// and sampling units.
fn gen_rs(s: &mut Src, max: usize) -> Pat {
    if s.chance(1, 3) {
        let n = gen_len(s, max);
        return gen_pat(s, n);
    }
    let mut segs: Vec<(usize, Kind)> = vec![];
    let mut n = 0usize;
    for _ in 0..s.range(1, 7) {
        let unit = s.pick(&[64usize, 512, 4096, 8192, 8192, 1]);
        let k = match s.weighted(&[4, 2]) {
            0 => s.range(1, 4),
            _ => s.range(1, 20),
        };
        let d = s.pick(&[0isize, 1, -1, 0, 63, -64, 2]);
        let len = ((unit * k) as isize + d).max(0) as usize;
        let len = len.min(max - n);
        let kind = match s.weighted(&[5, 5, 3]) {
            0 => Kind::Ones,
            1 => Kind::Zeros,
            _ => gen_kind(s, len),
        };
        segs.push((len, kind));
        n += len;
    }
    Pat { n, segs }
}

/// Calls a generic function with every search strategy compiled in.
macro_rules! strategies {
    ($cx:expr, $f:ident ( $($a:expr),* )) => {{
        $f::<LinearSearch>($($a),*).map_err(|e| format!("linear search: {e}"))?;
        $f::<BinarySearch>($($a),*).map_err(|e| format!("binary search: {e}"))?;
        #[cfg(all(target_arch = "x86_64", target_feature = "ssse3", target_feature = "sse4.1"))]
        {
            $f::<SimdSearch>($($a),*).map_err(|e| format!("SIMD search: {e}"))?;
            $cx.class("SIMD search");
        }
    }};
}

fn prefix(m: &[bool]) -> Vec<u32> {
    let mut p = Vec::with_capacity(m.len() + 1);
    let mut c = 0u32;
    p.push(0);
    for b in m {
        c += *b as u32;
        p.push(c);
    }
    p
}
fn shape(cx: &mut Cx, n: usize, ones: usize) {
    cx.class_if(n == 0, "empty");
    cx.class_if(n > 0 && n % 4096 == 0, "length multiple of 4096");
    cx.class_if(n > 0 && n % 512 == 0 && n % 4096 != 0, "length multiple of 512");
    cx.class_if(n % 64 != 0, "partial last word");
    cx.class_if(n > 4096, "several blocks");
    cx.class_if(ones > 8192, "several samples");
    cx.class_if(ones > 0 && ones % 8192 == 0, "ones multiple of 8192");
    cx.class_if(ones == n && n > 0, "all ones");
    cx.class_if(ones == 0 && n > 0, "all zeroes");
}

// ---------------------------------------------------------------- C15

#[derive(Debug)]
struct C15 {
    pat: Pat,
    how: usize,
}
fn c15_gen(s: &mut Src, h: Head) -> C15 {
    match h.mode {
        1 => {
            // every length around small borders, three contents
            let n = (h.ord / 3) as usize;
            let kind = match h.ord % 3 {
                0 => Kind::Ones,
                1 => Kind::Rand(128, s.bytes(4)),
                _ => gen_kind(s, n),
            };
            C15 { pat: Pat { n, segs: vec![(n, kind)] }, how: s.idx(BUILDS) }
        }
        2 => C15 { pat: gen_rs(s, 1 << 20), how: 0 },
        3 => giant(h.ord),
        _ => C15 { pat: gen_rs(s, 40000), how: s.idx(BUILDS) },
    }
}
/// More than 2^32 bits, either dense in front or sparse.
fn giant(ord: u64) -> C15 {
    let n = (1usize << 32) + 100_000;
    let segs = if ord % 2 == 0 {
        vec![(n - 50_000, Kind::Ones), (50_000, Kind::Every(3, 1))]
    } else {
        vec![((1 << 32) - 20_000, Kind::Zeros), (40_000, Kind::Every(5, 2)), (80_000, Kind::Ones)]
    };
    C15 { pat: Pat { n, segs }, how: 9 }
}
fn rank_all<S>(bv: &BitVec, p: &[u32]) -> Res {
    let n = bv.len();
    let ix = FlatPopcount::<S>::new(bv);
    same!(ix.len(), n, "length of the index");
    same!(ix.is_empty(), n == 0, "is_empty of the index");
    for i in 0..=n {
        let want = p[i] as usize;
        let r = ix.rank::<true>(i);
        ensure!(r == want, "rank of ones at {i} of {n} is {r}, expected {want}");
        let r = ix.rank::<false>(i);
        ensure!(r == i - want, "rank of zeroes at {i} of {n} is {r}, expected {}", i - want);
    }
    let step = (n / 2000).max(1);
    for i in (0..=n).step_by(step).chain([n]) {
        same!(ix.rank_dyn(i, true), p[i] as usize, "rank_dyn of ones at {i} of {n}");
        same!(ix.rank_dyn(i, false), i - p[i] as usize, "rank_dyn of zeroes at {i} of {n}");
    }
    Ok(())
}
fn c15_exec(c: &C15, cx: &mut Cx) -> Res {
    if c.how == 9 {
        return rank_giant(c, cx);
    }
    let m = c.pat.model();
    let p = prefix(&m);
    let bv = if c.how == 0 { build_pat(&c.pat) } else { build(&m, c.how) };
    let before = bv.raw().to_vec();
    if m.len() > 100_000 {
        rank_all::<()>(&bv, &p)?;
    } else {
        rank_all::<()>(&bv, &p)?;
        rank_all::<LinearSearch>(&bv, &p)?;
        rank_all::<BinarySearch>(&bv, &p)?;
        #[cfg(all(target_arch = "x86_64", target_feature = "ssse3", target_feature = "sse4.1"))]
        rank_all::<SimdSearch>(&bv, &p)?;
    }
    ensure!(bv.raw() == &before[..] && bv.len() == m.len(), "the vector changed");
    let ones = p[m.len()] as usize;
    cx.nontrivial = ones > 0 && m.len() > 64;
    shape(cx, m.len(), ones);
    cx.add("indices queried", m.len() as u64 + 1);
    Ok(())
}
fn build_giant(p: &Pat) -> BitVec {
    build_pat(p)
}
/// Exact rank in the giant contents, computed from the segments.
fn giant_rank(p: &Pat, i: usize) -> usize {
    let (mut at, mut r) = (0, 0);
    for (len, k) in &p.segs {
        let d = i.saturating_sub(at).min(*len);
        r += match k {
            Kind::Ones => d,
            Kind::Every(q, ph) => (d + q - 1 - ph) / q,
            _ => 0,
        };
        at += len;
    }
    r
}
fn giant_select(p: &Pat, mut k: usize) -> Option<usize> {
    let mut at = 0;
    for (len, kind) in &p.segs {
        let ones = match kind {
            Kind::Ones => *len,
            Kind::Every(q, ph) => (len + q - 1 - ph) / q,
            _ => 0,
        };
        if k < ones {
            return Some(match kind {
                Kind::Every(q, ph) => at + k * q + ph,
                _ => at + k,
            });
        }
        k -= ones;
        at += len;
    }
    None
}
fn giant_probes(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n, n - 1];
    for b in [1usize << 31, 1 << 32, (1 << 32) - 20_000, (1 << 32) + 20_000, n - 50_000, n / 2] {
        for d in 0..150 {
            v.push((b + d).min(n));
            v.push(b - d);
        }
        for k in 0..12 {
            v.push(((b / 4096 + k) * 4096).min(n));
            v.push(((b / 512 + k) * 512).min(n));
        }
    }
    for k in 0..3000u64 {
        v.push((mix(k) % n as u64) as usize);
    }
    v
}
fn rank_giant(c: &C15, cx: &mut Cx) -> Res {
    let n = c.pat.n;
    let bv = build_giant(&c.pat);
    let ix = FlatPopcount::<()>::new(&bv);
    let probes = giant_probes(n);
    for &i in &probes {
        let want = giant_rank(&c.pat, i);
        same!(ix.rank::<true>(i), want, "rank of ones at {i} of {n}");
        same!(ix.rank::<false>(i), i - want, "rank of zeroes at {i} of {n}");
        same!(ix.rank_dyn(i, true), want, "rank_dyn of ones at {i} of {n}");
    }
    cx.nontrivial = true;
    cx.class("more than 2^32 bits");
    cx.add("indices queried", probes.len() as u64);
    Ok(())
}
#[cfg(feature = "c15")]
pub static C15P: Prop = Prop {
    id: "C15",
    rule: "content and way of building; rank of ones and zeroes at every index from 0 to the length (giant: around 2^31, 2^32 and segment borders) compared with prefix sums, for every index type. Non-trivial: more than a word and at least one one.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 2, thorough: 2, profiles: "release" },
        Mode { code: 2, name: "large", quick: 3000, thorough: 36000, profiles: "release checked" },
        Mode { code: 1, name: "sweep of lengths", quick: 27000, thorough: 108000, profiles: "release checked" },
        Mode { code: 0, name: "random", quick: 60000, thorough: 720000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c15_gen, c15_exec),
};

// ---------------------------------------------------------------- C16

fn positions(m: &[bool]) -> Vec<usize> {
    (0..m.len()).filter(|i| m[*i]).collect()
}
fn select_all<S: SelectStrategy>(bv: &BitVec, pos: &[usize]) -> Res {
    let ix = FlatPopcount::<S>::new(bv);
    for (k, want) in pos.iter().enumerate() {
        let r = ix.select(k);
        ensure!(r == Some(*want), "select({k}) in {} bits with {} ones is {r:?}, expected {want}", bv.len(), pos.len());
    }
    Ok(())
}
fn c16_exec(c: &C15, cx: &mut Cx) -> Res {
    if c.how == 9 {
        let n = c.pat.n;
        let bv = build_giant(&c.pat);
        let total = giant_rank(&c.pat, n);
        let mut probes: Vec<usize> = giant_probes(total.min(n)).into_iter().filter(|k| *k < total).collect();
        // the walk from the sample is long in such vectors
        probes.sort();
        probes.dedup();
        let keep: Vec<usize> = probes.into_iter().enumerate().filter(|(i, _)| i % 6 == 0).map(|x| x.1).chain([total - 1]).collect();
        fn go<S: SelectStrategy>(bv: &BitVec, p: &Pat, ks: &[usize]) -> Res {
            let ix = FlatPopcount::<S>::new(bv);
            for &k in ks {
                same!(ix.select(k), giant_select(p, k), "select({k}) in {} bits", p.n);
            }
            Ok(())
        }
        go::<BinarySearch>(&bv, &c.pat, &keep)?;
        cx.nontrivial = true;
        cx.class("more than 2^32 bits");
        cx.add("ranks queried", keep.len() as u64);
        return Ok(());
    }
    let m = c.pat.model();
    let pos = positions(&m);
    let bv = if c.how == 0 { build_pat(&c.pat) } else { build(&m, c.how) };
    let before = bv.raw().to_vec();
    strategies!(cx, select_all(&bv, &pos));
    ensure!(bv.raw() == &before[..], "the vector changed");
    cx.nontrivial = !pos.is_empty() && m.len() > 64;
    shape(cx, m.len(), pos.len());
    cx.add("ranks queried", pos.len() as u64);
    Ok(())
}
fn c16_gen(s: &mut Src, h: Head) -> C15 {
    match h.mode {
        2 => C15 { pat: gen_rs(s, 1 << 19), how: 0 },
        _ => c15_gen(s, h),
    }
}
#[cfg(feature = "c16")]
pub static C16P: Prop = Prop {
    id: "C16",
    rule: "content and way of building; select of every one (giant: around 2^31, 2^32 and segment borders) compared with the list of positions, for every strategy (SIMD where compiled in). Non-trivial: more than a word and at least one one.",
    modes: &[
        Mode { code: 3, name: "beyond 2^32 bits", quick: 2, thorough: 2, profiles: "release" },
        Mode { code: 2, name: "large", quick: 2400, thorough: 28800, profiles: "release checked simd" },
        Mode { code: 1, name: "sweep of lengths", quick: 27000, thorough: 108000, profiles: "release checked simd" },
        Mode { code: 0, name: "random", quick: 50000, thorough: 600000, profiles: "release checked simd" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c16_gen, c16_exec),
};

// ---------------------------------------------------------------- C17

#[derive(Debug)]
struct C17 {
    pat: Pat,
    how: usize,
    /// offsets added to the number of ones, and plain numbers
    ks: Vec<(bool, usize)>,
    is: Vec<(bool, usize)>,
}
fn c17_gen(s: &mut Src, h: Head) -> C17 {
    let pat = if h.mode == 1 {
        let n = (h.ord / 3) as usize;
        let k = match h.ord % 3 {
            0 => Kind::Zeros,
            1 => Kind::Ones,
            _ => gen_kind(s, n),
        };
        Pat { n, segs: vec![(n, k)] }
    } else if s.chance(1, 5) {
        let n = gen_len(s, 40000);
        Pat { n, segs: vec![] }
    } else {
        gen_rs(s, 40000)
    };
    let off = |s: &mut Src| match s.weighted(&[3, 3, 2, 2, 2, 2, 3]) {
        0 => (true, s.range(0, 3)),
        1 => (true, s.pick(&[63usize, 64, 512, 4095, 4096, 8191, 8192, 8193, 16384])),
        2 => (true, s.range(0, 100000)),
        3 => (false, usize::MAX - s.range(0, 9000)),
        4 => (true, 1usize << s.range(10, 63)),
        5 => (false, s.u64() as usize | 1 << 40),
        // inside the domain once the upper half is dropped
        _ => (false, (1usize << s.pick(&[32, 33, 40, 48, 63])) + s.range(0, 300)),
    };
    let ks = (0..s.range(1, 12)).map(|_| off(s)).collect();
    let is = (0..s.range(1, 12)).map(|_| off(s)).collect();
    C17 { pat, how: s.idx(BUILDS), ks, is }
}
fn resolve(base: usize, x: &(bool, usize)) -> usize {
    if x.0 {
        base.saturating_add(x.1)
    } else {
        x.1.max(base)
    }
}
fn outside<S: SelectStrategy>(bv: &BitVec, p: &[u32], pos: &[usize], c: &C17) -> Res {
    let n = bv.len();
    let ix = FlatPopcount::<S>::new(bv);
    let spot = |when: &dyn Fn() -> String| -> Res {
        for j in [0, n / 2, n] {
            let r = ix.rank::<true>(j);
            ensure!(r == p[j] as usize, "{}: rank({j}) is {r}, expected {}", when(), p[j]);
        }
        if let Some(last) = pos.last() {
            let r = ix.select(pos.len() - 1);
            ensure!(r == Some(*last), "{}: select of the last one is {r:?}, expected {last}", when());
            let r = ix.select(0);
            ensure!(r == Some(pos[0]), "{}: select(0) is {r:?}, expected {}", when(), pos[0]);
        }
        Ok(())
    };
    spot(&|| "first".into())?;
    for x in &c.ks {
        let k = resolve(pos.len(), x);
        match attempt(|| ix.select(k)) {
            Ok(None) => {}
            Ok(r) => return Err(format!("select({k}) with {} ones in {n} bits is {r:?}", pos.len())),
            Err(e) => return Err(format!("select({k}) with {} ones in {n} bits panicked: {e}", pos.len())),
        }
    }
    for x in &c.is {
        let i = resolve(n, x);
        if i == n {
            continue;
        }
        for f in 0..4 {
            let r = attempt(|| match f {
                0 => ix.rank::<true>(i),
                1 => ix.rank::<false>(i),
                2 => ix.rank_dyn(i, true),
                _ => ix.rank_dyn(i, false),
            });
            if let Ok(r) = r {
                return Err(format!("rank (form {f}) of {i} in {n} bits was answered with {r}"));
            }
        }
        spot(&|| format!("after the rejected rank({i})"))?;
    }
    same!(ix.rank::<true>(n), pos.len(), "rank of ones at the length");
    same!(ix.rank::<false>(n), n - pos.len(), "rank of zeroes at the length");
    spot(&|| "at the end".into())
}
fn c17_exec(c: &C17, cx: &mut Cx) -> Res {
    let m = c.pat.model();
    let (p, pos) = (prefix(&m), positions(&m));
    let bv = build(&m, c.how);
    strategies!(cx, outside(&bv, &p, &pos, c));
    cx.nontrivial = !m.is_empty();
    shape(cx, m.len(), pos.len());
    cx.add("queries outside the domain", (c.ks.len() + c.is.len()) as u64);
    Ok(())
}
#[cfg(feature = "c17")]
pub static C17P: Prop = Prop {
    id: "C17",
    rule: "content, ranks at or beyond the number of ones and indices beyond the length (close, block-sized, wrapping); select must return nothing, rank must panic, and valid queries in between must stay right. Run with and without debug assertions. Non-trivial: the vector is not empty.",
    modes: &[
        Mode { code: 1, name: "sweep of lengths", quick: 27000, thorough: 108000, profiles: "release checked simd" },
        Mode { code: 0, name: "random", quick: 80000, thorough: 960000, profiles: "release checked simd" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c17_gen, c17_exec),
};

// ---------------------------------------------------------------- C18

#[derive(Debug)]
struct C18 {
    pat: Pat,
    flips: Vec<usize>,
    grow: usize,
}
fn c18_gen(s: &mut Src, _: Head) -> C18 {
    let pat = gen_rs(s, 60000);
    let flips = if pat.n == 0 { vec![] } else { (0..s.range(1, 3)).map(|_| gen_index(s, pat.n)).collect() };
    C18 { pat, flips, grow: s.pick(&[1usize, 63, 64, 512, 4096, 5000]) }
}
fn inverse<S: SelectStrategy>(bv: &BitVec) -> Res {
    let n = bv.len();
    let ix = FlatPopcount::<S>::new(bv);
    let total = ix.rank::<true>(n);
    let mut prev = None;
    for k in 0..total {
        let Some(i) = ix.select(k) else { return Err(format!("select({k}) of {total} is nothing")) };
        ensure!(i < n && bv.get_bit(i), "select({k}) = {i} is not a one");
        ensure!(prev.is_none_or(|p| p < i), "select({k}) = {i} is not behind {prev:?}");
        ensure!(ix.rank::<true>(i) == k, "rank(select({k}) = {i}) is {}", ix.rank::<true>(i));
        ensure!(ix.rank::<true>(i + 1) == k + 1, "rank behind select({k}) = {i} is {}", ix.rank::<true>(i + 1));
        prev = Some(i);
    }
    ensure!(ix.select(total).is_none(), "select({total}) of {total} ones is not nothing");
    // select(rank(i)) is the first one at or after i
    let mut next = None;
    for i in (0..=n).rev() {
        if i < n && bv.get_bit(i) {
            next = Some(i);
        }
        if i % 7 == 0 || i % 512 < 2 || i % 512 > 509 || n - i < 3 {
            let r = ix.select(ix.rank::<true>(i));
            ensure!(r == next, "select(rank({i})) is {r:?}, expected {next:?}");
        }
    }
    Ok(())
}
fn c18_exec(c: &C18, cx: &mut Cx) -> Res {
    let mut bv = build_pat(&c.pat);
    let n = bv.len();
    strategies!(cx, inverse(&bv));
    let ranks: Vec<u32> = {
        let ix = FlatPopcount::<()>::new(&bv);
        let mut v = Vec::with_capacity(n + 1);
        let mut last = 0;
        for i in 0..=n {
            let (a, b) = (ix.rank::<true>(i), ix.rank::<false>(i));
            ensure!(a + b == i, "ranks at {i} are {a} and {b}");
            if i > 0 {
                let bit = bv.get_bit(i - 1) as usize;
                ensure!(a == last + bit, "rank grows from {last} to {a} over bit {} = {bit}", i - 1);
            } else {
                same!(a, 0, "rank at 0");
            }
            last = a;
            v.push(a as u32);
        }
        v
    };
    // complement
    {
        let mut inv = bv.clone();
        for i in 0..n {
            inv.flip(i);
        }
        let ix = FlatPopcount::<()>::new(&inv);
        for i in 0..=n {
            ensure!(ix.rank::<false>(i) as u32 == ranks[i], "zeroes of the complement at {i}: {}", ix.rank::<false>(i));
        }
        strategies!(cx, inverse(&inv));
    }
    // more room behind does not change the answers
    {
        let mut long = BitVec::new(n + c.grow);
        c.pat.for_each_one(|i| long.set(i, true));
        let ix = FlatPopcount::<BinarySearch>::new(&long);
        let iy = FlatPopcount::<BinarySearch>::new(&bv);
        for i in (0..=n).step_by(3).chain([n]) {
            ensure!(ix.rank::<true>(i) as u32 == ranks[i], "rank at {i} changes when zeroes are appended");
        }
        same!(ix.rank::<true>(n + c.grow) as u32, ranks[n], "total after appending zeroes");
        for k in 0..=ranks[n] as usize {
            ensure!(ix.select(k) == iy.select(k), "select({k}) changes when zeroes are appended");
        }
    }
    // single flips
    for &f in &c.flips {
        let was = bv.get_bit(f);
        bv.flip(f);
        let ix = FlatPopcount::<LinearSearch>::new(&bv);
        for i in 0..=n {
            let want = if i <= f {
                ranks[i]
            } else if was {
                ranks[i] - 1
            } else {
                ranks[i] + 1
            };
            let r = ix.rank::<true>(i);
            ensure!(r as u32 == want, "after flipping bit {f}: rank at {i} is {r}, expected {want}");
        }
        if !was {
            let r = ix.select(ranks[f] as usize);
            ensure!(r == Some(f), "after setting bit {f}: select({}) is {r:?}", ranks[f]);
        }
        drop(ix);
        bv.flip(f);
    }
    let ones = ranks[n] as usize;
    cx.nontrivial = ones > 0 && ones < n && n > 64;
    shape(cx, n, ones);
    Ok(())
}
#[cfg(feature = "c18")]
pub static C18P: Prop = Prop {
    id: "C18",
    rule: "content; relations between answers (inverse, steps by the bit passed, sum, complement, single flips, appended zeroes) at all indices and ranks, without a second implementation. Non-trivial: more than a word, both zeroes and ones.",
    modes: &[Mode { code: 0, name: "random", quick: 8000, thorough: 240000, profiles: "release checked simd" }],
    drive: |s, cx, p| drive(s, cx, p, c18_gen, c18_exec),
};

// ---------------------------------------------------------------- C19

#[derive(Debug)]
struct C19 {
    counters: [u16; 7],
    upper: u64,
}
fn c19_gen(s: &mut Src, h: Head) -> C19 {
    let mut c = [0u16; 7];
    if h.mode == 1 {
        // up to two steps at every pair of places
        let o = h.ord as usize;
        let (i, j) = (o % 8, o / 8 % 8);
        let (a, b) = s.pick(&[(1u16, 1u16), (512, 512), (511, 1), (4095, 0), (2047, 2048), (255, 257)]);
        let mut x = 0u16;
        for k in 0..7 {
            if k == i {
                x = (x + a).min(4095)
            }
            if k == j {
                x = (x + b).min(4095)
            }
            c[k] = x;
        }
    } else {
        match s.weighted(&[4, 4, 2, 2]) {
            // counts per sub-block
            0 => {
                let mut x = 0u16;
                for v in &mut c {
                    x += match s.weighted(&[2, 2, 3]) {
                        0 => 0,
                        1 => 512,
                        _ => s.range(0, 512) as u16,
                    };
                    *v = x.min(4095);
                }
            }
            1 => {
                for v in &mut c {
                    *v = s.range(0, 4095) as u16;
                }
                c.sort();
            }
            // a short last block, filled up with the largest value
            2 => {
                let k = s.range(0, 6);
                for v in c.iter_mut().take(k) {
                    *v = s.range(0, 512 * 7) as u16;
                }
                c[..k].sort();
                for v in c.iter_mut().skip(k) {
                    *v = 4095;
                }
            }
            // values around bytes and powers
            _ => {
                for v in &mut c {
                    *v = ((1u32 << s.range(0, 12)) as i32 + s.pick(&[0i32, -1, 1])).clamp(0, 4095) as u16;
                }
                c.sort();
            }
        }
    }
    let upper = match s.below(3) {
        0 => 0,
        1 => (1 << 44) - 1,
        _ => s.u64() & ((1 << 44) - 1),
    };
    C19 { counters: c, upper }
}
fn find_all<S: SelectStrategy>(entry: u128, c: &[u16; 7], other: u128) -> Res {
    for rank in 0..4096usize {
        let i = c.iter().position(|v| rank < *v as usize).unwrap_or(7);
        let prev = if i == 0 { 0 } else { c[i - 1] as usize };
        let r = S::find_l2(entry, rank);
        ensure!(r == (i, prev), "find_l2(.., {rank}) is {r:?}, expected {:?}", (i, prev));
        if rank % 16 == 0 {
            let r = S::find_l2(other, rank);
            ensure!(r == (i, prev), "find_l2(.., {rank}) is {r:?} with other upper bits, expected {:?}", (i, prev));
        }
    }
    Ok(())
}
fn c19_exec(c: &C19, cx: &mut Cx) -> Res {
    let mut l2 = 0u128;
    for (i, v) in c.counters.iter().enumerate() {
        l2 |= (*v as u128) << (72 - 12 * i);
    }
    let entry = (c.upper as u128) << 84 | l2;
    let other = (!c.upper as u128 & ((1 << 44) - 1)) << 84 | l2;
    strategies!(cx, find_all(entry, &c.counters, other));
    let d: std::collections::HashSet<u16> = c.counters.iter().copied().collect();
    cx.nontrivial = d.len() >= 2;
    cx.class_if(d.len() < 7, "repeated counters");
    cx.class_if(c.counters.contains(&4095), "filled-up counters");
    cx.class_if(c.upper != 0, "other bits set");
    cx.add("ranks queried", 4096);
    Ok(())
}
#[cfg(feature = "c19")]
pub static C19P: Prop = Prop {
    id: "C19",
    rule: "seven non-decreasing 12-bit counters and arbitrary upper bits; all 4096 ranks for every strategy compared with a scan of the counters, also with the upper bits inverted. Non-trivial: at least two different counters.",
    modes: &[
        Mode { code: 1, name: "steps at every pair of places", quick: 2048, thorough: 24576, profiles: "release checked simd" },
        Mode { code: 0, name: "random", quick: 300000, thorough: 3600000, profiles: "release checked simd" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c19_gen, c19_exec),
};
