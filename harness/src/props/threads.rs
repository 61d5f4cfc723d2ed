//! C24 concurrent use.
use super::ints::{gen_value, gen_width};
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use std::sync::Barrier;
use std::thread;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::*;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

#[derive(Debug)]
enum C24 {
    Readers { pat: Pat, threads: usize, seed: u64, w: usize, vals: Vec<u64> },
    Writers { pat: Pat, view: (usize, usize), cut: Vec<usize>, seed: u64, rounds: usize },
    /// the listed finding: two parts that share a word
    Shared { n: usize, at: usize, rounds: usize },
}
fn c24_gen(s: &mut Src, h: Head) -> C24 {
    match h.mode {
        2 => C24::Shared { n: 128, at: s.pick(&[32usize, 1, 63, 70, 100]), rounds: 20000 },
        1 => {
            let n = gen_len(s, 30000).max(2);
            let pat = gen_pat(s, n);
            let a = if s.flag() { 0 } else { gen_index(s, n) };
            let b = s.range(a, n);
            let len = b - a;
            let mut cut = vec![];
            if len > 0 {
                for _ in 0..s.range(1, 3) {
                    // mostly at word borders of the storage, sometimes anywhere
                    let p = if s.chance(1, 4) {
                        gen_index(s, len)
                    } else {
                        ((a + gen_index(s, len)) / 64 * 64).saturating_sub(a).min(len - 1)
                    };
                    cut.push(p);
                }
                cut.sort();
                cut.dedup();
            }
            C24::Writers { pat, view: (a, b), cut, seed: s.bytes(4), rounds: s.range(1, 4) }
        }
        _ => {
            let pat = {
                let n = gen_len(s, 60000);
                gen_pat(s, n)
            };
            let w = gen_width(s);
            let k = s.range(0, 60);
            C24::Readers { pat, threads: s.range(2, 4), seed: s.bytes(4), w, vals: (0..k).map(|_| gen_value(s, w)).collect() }
        }
    }
}
/// Tells at run time if a type may be shared between or sent to threads, so that
/// the harness still compiles if one may not.
struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback {
    fn shared(&self) -> bool {
        false
    }
    fn sent(&self) -> bool {
        false
    }
}
impl<T> Fallback for Probe<T> {}
impl<T: Sync> Probe<T> {
    #[allow(dead_code)]
    fn shared(&self) -> bool {
        true
    }
}
impl<T: Send> Probe<T> {
    #[allow(dead_code)]
    fn sent(&self) -> bool {
        true
    }
}
macro_rules! threadable {
    ($($t:ty),+) => {$(
        let p = Probe::<$t>(std::marker::PhantomData);
        ensure!(p.shared() && p.sent(), "{} cannot be used from several threads", stringify!($t));
    )+};
}
/// Crosses threads; used only behind `all_threadable`.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
fn all_threadable() -> Res {
    threadable!(
        BitVec,
        BitSlice<&'static Box<[usize]>>,
        BitSlice<&'static mut Box<[usize]>>,
        BitSlice<Box<[usize]>>,
        <BitVec as std::ops::Deref>::Target,
        Iter<&'static Box<[usize]>>,
        <&'static BitVec as IntoIterator>::IntoIter,
        IntVec,
        <&'static IntVec as IntoIterator>::IntoIter,
        <IntVec as IntoIterator>::IntoIter,
        FlatPopcount<'static, LinearSearch>,
        FlatPopcount<'static, BinarySearch>,
        FlatPopcount<'static, ()>
    );
    Ok(())
}
/// Having no room for another thread is no verdict: stop with an error.
fn start<'s, 'e, T: Send + 's>(sc: &'s thread::Scope<'s, 'e>, f: impl FnOnce() -> T + Send + 's) -> thread::ScopedJoinHandle<'s, T> {
    thread::Builder::new().spawn_scoped(sc, f).unwrap_or_else(|e| {
        eprintln!("cannot start a thread: {e}");
        std::process::exit(2)
    })
}
fn spawn_all<'s>(jobs: Vec<Box<dyn FnOnce() -> Res + Send + 's>>) -> Res {
    let bar = Barrier::new(jobs.len());
    thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                let bar = &bar;
                start(sc, move || {
                    bar.wait();
                    match attempt(j) {
                        Ok(r) => r,
                        Err(p) => Err(format!("unexpected panic: {p}")),
                    }
                })
            })
            .collect();
        let mut out = Ok(());
        for h in hs {
            match h.join() {
                Ok(Ok(())) => {}
                Ok(Err(e)) => out = Err(e),
                Err(_) => out = Err("thread died".into()),
            }
        }
        out
    })
}
fn readers(pat: &Pat, threads: usize, seed: u64, w: usize, vals: &[u64]) -> Res {
    let m = pat.model();
    let n = m.len();
    let bv = build_pat(pat);
    let mut pre = vec![0usize];
    for b in &m {
        pre.push(pre.last().unwrap() + *b as usize);
    }
    let pos: Vec<usize> = (0..n).filter(|i| m[*i]).collect();
    let mut iv = IntVec::new(w);
    for v in vals {
        iv.push(*v as usize);
    }
    let lin = FlatPopcount::<LinearSearch>::new(&bv);
    let bin = FlatPopcount::<BinarySearch>::new(&bv);
    let all = Cross((&iv, &bv, &lin, &bin));
    let (m, pre, pos, all) = (&m, &pre, &pos, &all);
    let jobs = (0..threads)
        .map(|t| {
            Box::new(move || -> Res {
                let (iv, bv, lin, bin) = *all.get();
                let mut r = Rng::new(seed ^ mix(t as u64));
                for _ in 0..1500 {
                    let i = (r.next() % (n as u64 + 1)) as usize;
                    same!(lin.rank::<true>(i), pre[i], "rank({i}) with concurrent readers");
                    same!(bin.rank::<false>(i), i - pre[i], "rank of zeroes at {i} with concurrent readers");
                    if i < n {
                        same!(bv.get_bit(i), m[i], "bit {i} with concurrent readers");
                    }
                    let k = (r.next() % (pos.len() as u64 + 2)) as usize;
                    same!(lin.select(k), pos.get(k).copied(), "select({k}) with concurrent readers");
                    same!(bin.select(k), pos.get(k).copied(), "select({k}) with concurrent readers");
                    if !vals.is_empty() {
                        let j = (r.next() % vals.len() as u64) as usize;
                        same!(iv.get(j) as u64, vals[j], "element {j} with concurrent readers");
                    }
                }
                let a = (r.next() % (n as u64 + 1)) as usize;
                ensure!(bv.slice(a..).iter().eq(m[a..].iter().copied()), "iteration from {a} with concurrent readers");
                ensure!(*bv.clone() == **bv, "clone with concurrent readers");
                ensure!(iv.iter().eq(vals.iter().map(|v| *v as usize)), "integer iteration with concurrent readers");
                Ok(())
            }) as Box<dyn FnOnce() -> Res + Send + '_>
        })
        .collect();
    spawn_all(jobs)
}
/// Writes of one part: (index, kind), the same list for the threads and the model.
fn script(seed: u64, part: usize, len: usize, rounds: usize) -> Vec<(usize, u8)> {
    let mut r = Rng::new(seed ^ mix(part as u64 + 77));
    let k = (len * rounds).min(6000);
    (0..k)
        .map(|_| {
            let x = r.next();
            // every other write is close to an end of the part
            let i = match x >> 60 & 3 {
                0 => (x % len.min(64) as u64) as usize,
                1 => len - 1 - (x % len.min(64) as u64) as usize,
                _ => (x % len as u64) as usize,
            };
            (i, (x >> 50 & 3) as u8)
        })
        .collect()
}
fn write<B: BitModify>(v: &mut BitSlice<B>, ops: &[(usize, u8)]) {
    for (i, k) in ops {
        match k {
            0 => v.set_bit(*i, true),
            1 => v.set_bit(*i, false),
            2 => v.flip_bit(*i),
            _ => unsafe { v.flip_unchecked(*i) },
        }
    }
}
fn writers(c: &C24, cx: &mut Cx) -> Res {
    let C24::Writers { pat, view: (a, b), cut, seed, rounds } = c else { return Ok(()) };
    let mut m = pat.model();
    let mut bv = build_pat(pat);
    let len = b - a;
    if len == 0 {
        return Ok(());
    }
    let mut ends = cut.clone();
    ends.push(len);
    let mut at = 0;
    let mut touched = vec![false; m.len()];
    let mut scripts = vec![];
    for (k, e) in ends.iter().enumerate() {
        let ops = if e > &at { script(*seed, k, e - at, *rounds) } else { vec![] };
        for (i, kind) in &ops {
            let j = a + at + i;
            touched[j] = true;
            m[j] = match kind {
                0 => true,
                1 => false,
                _ => !m[j],
            };
        }
        scripts.push(ops);
        at = *e;
    }
    {
        let mut v = bv.slice_mut(*a..*b);
        match &cut[..] {
            [p] => {
                let (l, r) = v.split_at_mut(*p);
                let (mut l, mut r) = (Cross(l), Cross(r));
                let (s0, s1) = (&scripts[0], &scripts[1]);
                spawn_all(vec![
                    Box::new(|| {
                        write(l.get_mut(), s0);
                        Ok(())
                    }),
                    Box::new(|| {
                        write(r.get_mut(), s1);
                        Ok(())
                    }),
                ])?;
            }
            [p, q, rest @ ..] => {
                let (l, mut r) = v.split_at_mut(*p);
                let (x, y) = r.split_at_mut(q - p);
                let (mut l, mut x, mut y) = (Cross(l), Cross(x), Cross(y));
                let y_ops: Vec<(usize, u8)> = {
                    // parts behind the second cut are written one after the other
                    let mut o = scripts[2].clone();
                    let mut base = *q;
                    for (k, e) in rest.iter().enumerate() {
                        base = *e;
                        o.extend(scripts[3 + k].iter().map(|(i, kd)| (base - q + i, *kd)));
                    }
                    let _ = base;
                    o
                };
                let (s0, s1) = (&scripts[0], &scripts[1]);
                spawn_all(vec![
                    Box::new(|| {
                        write(l.get_mut(), s0);
                        Ok(())
                    }),
                    Box::new(|| {
                        write(x.get_mut(), s1);
                        Ok(())
                    }),
                    Box::new(|| {
                        write(y.get_mut(), &y_ops);
                        Ok(())
                    }),
                ])?;
            }
            [] => return Ok(()),
        }
    }
    // Listed finding: a word that two parts share can lose updates.
    let shared: Vec<usize> = cut.iter().map(|p| a + p).filter(|p| p % 64 != 0).map(|p| p / 64).collect();
    let listed = std::env::var("VERIF_KNOWN").is_ok_and(|v| v.split(',').any(|k| k == "split-shared-word"));
    let mut excused = 0u64;
    for i in 0..m.len() {
        if bv.get_bit(i) != m[i] {
            if listed && touched[i] && shared.contains(&(i / 64)) {
                excused += 1;
                continue;
            }
            return Err(format!("bit {i} is {} after concurrent writes, {} when done one after the other", !m[i], m[i]));
        }
    }
    cx.nontrivial = scripts.iter().filter(|s| !s.is_empty()).count() >= 2;
    cx.class_if(shared.is_empty(), "parts share no word");
    cx.class_if(!shared.is_empty(), "parts share a word");
    cx.add("bits excused by the listed finding", excused);
    cx.add("concurrent writes", scripts.iter().map(|s| s.len() as u64).sum());
    Ok(())
}
fn c24_exec(c: &C24, cx: &mut Cx) -> Res {
    all_threadable()?;
    match c {
        C24::Readers { pat, threads, seed, w, vals } => {
            readers(pat, *threads, *seed, *w, vals)?;
            cx.nontrivial = pat.n > 64;
            cx.class("readers");
        }
        C24::Writers { .. } => {
            cx.class("writers");
            writers(c, cx)?;
        }
        C24::Shared { n, at, rounds } => {
            let mut bv = BitVec::new(*n);
            let (x, y) = {
                let (l, r) = bv.split_at_mut(*at);
                let bar = Barrier::new(2);
                let k = l.len();
                let j = 64 - at % 64;
                let j = if at % 64 == 0 { 1 } else { j.min(r.len()) };
                let (mut l, mut r) = (Cross(l), Cross(r));
                thread::scope(|sc| {
                    let b = &bar;
                    let a = start(sc, move || {
                        let l = l.get_mut();
                        let mut lost = 0u64;
                        b.wait();
                        for t in 0..*rounds {
                            let v = t % 2 == 0;
                            l.set_bit(k - 1, v);
                            lost += (l.get_bit(k - 1) != v) as u64;
                        }
                        lost
                    });
                    let z = start(sc, move || {
                        let r = r.get_mut();
                        let mut lost = 0u64;
                        b.wait();
                        for t in 0..*rounds {
                            let v = t % 2 == 0;
                            r.set_bit(j - 1, v);
                            lost += (r.get_bit(j - 1) != v) as u64;
                        }
                        lost
                    });
                    (a.join().unwrap_or(0), z.join().unwrap_or(0))
                })
            };
            cx.class("reproduction of the listed finding");
            cx.add("lost updates in the reproduction", x + y);
        }
    }
    Ok(())
}
#[cfg(feature = "c24")]
pub static C24P: Prop = Prop {
    id: "C24",
    rule: "threads reading one shared vector, index and integer vector against precomputed answers; threads writing scripted updates through the parts of a mutable split, result compared with the sequential one. Bits written in a word shared by two parts are excused by the listed finding. Non-trivial: at least two threads with work on more than a word.",
    modes: &[
        Mode { code: 2, name: "listed finding", quick: 16, thorough: 64, profiles: "release" },
        Mode { code: 1, name: "writers", quick: 60000, thorough: 720000, profiles: "release checked" },
        Mode { code: 0, name: "readers", quick: 20000, thorough: 240000, profiles: "release checked" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c24_gen, c24_exec),
};
