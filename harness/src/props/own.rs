//! C25 ownership: backings and heap memory are released exactly once.
use super::ints::{gen_value, gen_width, make};
use crate::alloc::held;
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use std::cell::RefCell;
use std::collections::BTreeSet;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::{FlatPopcount, RankSupport};

#[derive(Default)]
struct Registry {
    next: u32,
    live: BTreeSet<u32>,
    /// backings dropped or used when they were gone already
    twice: Vec<u32>,
    late: Vec<u32>,
}
thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}
fn enter() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.next += 1;
        let id = r.next;
        r.live.insert(id);
        id
    })
}
/// Backing that knows whether it is alive. Owns no memory, so that dropping it
/// twice does no harm. Reading the bit `bomb` panics.
#[derive(Debug)]
struct Counted {
    id: u32,
    n: usize,
    seed: u64,
    bomb: usize,
    flips: u64,
}
impl Counted {
    fn new(n: usize, seed: u64, bomb: usize) -> Self {
        Counted { id: enter(), n, seed, bomb, flips: 0 }
    }
    fn alive(&self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.contains(&self.id) {
                r.late.push(self.id)
            }
        })
    }
}
fn bit(seed: u64, flips: u64, i: usize) -> bool {
    virt_bit(seed, i) ^ (i < 64 && flips >> i & 1 == 1)
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        self.alive();
        Counted { id: enter(), ..*self }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.remove(&self.id) {
                r.twice.push(self.id)
            }
        })
    }
}
impl BitGet for Counted {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        self.get_bit(i)
    }
    fn get_bit(&self, i: usize) -> bool {
        self.alive();
        assert!(i < self.n, "index {i} of {}", self.n);
        assert!(i != self.bomb, "bomb");
        bit(self.seed, self.flips, i)
    }
}
impl BitModify for Counted {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        self.set_bit(i, v)
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        if self.get_bit(i) != v {
            self.flip_bit(i)
        }
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        self.flip_bit(i)
    }
    fn flip_bit(&mut self, i: usize) {
        self.alive();
        assert!(i < self.n && i != self.bomb, "index {i}");
        if i < 64 {
            self.flips ^= 1 << i;
        }
    }
}

enum Obj {
    View(BitSlice<Counted>),
    Nest(BitSlice<BitSlice<Counted>>),
    Boxed(BitSlice<Box<Counted>>),
    It(Iter<Counted>),
    NestIt(Iter<BitSlice<Counted>>),
    BoxedIt(Iter<Box<Counted>>),
}
/// What is known of an object: its window a..b of the backing.
#[derive(Clone, Debug)]
struct Known {
    seed: u64,
    flips: u64,
    bomb: usize,
    a: usize,
    b: usize,
}
#[derive(Debug, Clone, Copy)]
enum Step {
    New { n: usize, a: usize, b: usize, seed: u64, bomb: usize, kind: u8 },
    Clone(usize),
    CloneFrom(usize, usize),
    IntoIter(usize),
    Iterate(usize, usize),
    Nth(usize, usize),
    Collect(usize),
    Borrow(usize, u8, usize),
    Flip(usize, usize),
    Nest(usize),
    Assign(usize, usize),
    Drop(usize),
    Swap(usize, usize),
}
#[derive(Debug)]
enum Heap {
    Bits(usize),
    Ints(usize, usize, u64),
    CloneBits(usize),
    IntoIter(usize, usize),
    OwnedView(usize),
    Index(usize),
    Assign(usize, usize),
    Drop(usize),
}
#[derive(Debug)]
enum C25 {
    Counted(Vec<Step>),
    Heap(Vec<Heap>),
}
fn c25_gen(s: &mut Src, h: Head) -> C25 {
    if h.mode == 1 {
        let steps = (0..s.range(1, 16))
            .map(|_| match s.weighted(&[3, 3, 2, 3, 2, 2, 1, 2]) {
                0 => Heap::Bits(gen_len(s, 9000)),
                1 => {
                    let w = gen_width(s);
                    Heap::Ints(w, s.range(0, 300), gen_value(s, w))
                }
                2 => Heap::CloneBits(s.idx(8)),
                3 => Heap::IntoIter(s.idx(8), s.range(0, 400)),
                4 => Heap::OwnedView(s.idx(8)),
                5 => Heap::Index(s.idx(8)),
                6 => Heap::Assign(s.idx(8), s.idx(8)),
                _ => Heap::Drop(s.idx(8)),
            })
            .collect();
        return C25::Heap(steps);
    }
    let steps = (0..s.range(1, 24))
        .map(|_| {
            let (k, j) = (s.idx(8), s.idx(8));
            match s.weighted(&[6, 3, 1, 4, 4, 2, 2, 3, 2, 2, 1, 2, 1]) {
                0 => {
                    let n = gen_len(s, 600);
                    let a = s.range(0, n);
                    let b = s.range(a, n);
                    let bomb = if s.chance(1, 4) { s.range(0, n) } else { usize::MAX };
                    Step::New { n, a, b, seed: s.bytes(2), bomb, kind: s.below(3) as u8 }
                }
                1 => Step::Clone(k),
                2 => Step::CloneFrom(k, j),
                3 => Step::IntoIter(k),
                4 => Step::Iterate(k, s.range(0, 80)),
                5 => Step::Nth(k, s.range(0, 80)),
                6 => Step::Collect(k),
                7 => Step::Borrow(k, s.below(6) as u8, s.range(0, 600)),
                8 => Step::Flip(k, s.range(0, 80)),
                9 => Step::Nest(k),
                10 => Step::Assign(k, j),
                11 => Step::Drop(k),
                _ => Step::Swap(k, j),
            }
        })
        .collect();
    C25::Counted(steps)
}
fn is_iter(o: &Obj) -> bool {
    matches!(o, Obj::It(_) | Obj::NestIt(_) | Obj::BoxedIt(_))
}
macro_rules! on_iter {
    ($o:expr, $it:ident, $e:expr) => {
        match $o {
            Obj::It($it) => $e,
            Obj::NestIt($it) => $e,
            Obj::BoxedIt($it) => $e,
            _ => unreachable!(),
        }
    };
}
macro_rules! on_view {
    ($o:expr, $v:ident, $e:expr) => {
        match $o {
            Obj::View($v) => $e,
            Obj::Nest($v) => $e,
            Obj::Boxed($v) => $e,
            _ => unreachable!(),
        }
    };
}
/// Number of backings alive, compared with the number of objects.
fn balance(pool: &[(Obj, Known)], what: &dyn Fn() -> String) -> Res {
    REG.with(|r| {
        let r = r.borrow();
        ensure!(r.twice.is_empty(), "{}: a backing was dropped twice", what());
        ensure!(r.late.is_empty(), "{}: a backing was used after it was dropped", what());
        same!(r.live.len(), pool.len(), "{}: backings alive", what());
        Ok(())
    })
}
fn counted(steps: &[Step], cx: &mut Cx) -> Res {
    REG.with(|r| *r.borrow_mut() = Registry::default());
    let mut pool: Vec<(Obj, Known)> = vec![];
    let (mut iters, mut partial, mut bombs) = (0u64, 0u64, 0u64);
    for st in steps {
        let len = pool.len();
        match *st {
            Step::New { n, a, b, seed, bomb, kind } => {
                if len < 8 {
                    let c = Counted::new(n, seed, bomb);
                    let o = match kind {
                        0 => Obj::View(BitSlice::new(c, a, b)),
                        1 => Obj::Boxed(BitSlice::new(Box::new(c), a, b)),
                        _ => Obj::It(Iter::new(c, a, b)),
                    };
                    pool.push((o, Known { seed, flips: 0, bomb, a, b }));
                }
            }
            Step::Clone(k) if len > 0 && len < 8 => {
                let (o, kn) = &pool[k % len];
                let c = match o {
                    Obj::View(v) => Obj::View(v.clone()),
                    Obj::Nest(v) => Obj::Nest(v.clone()),
                    Obj::Boxed(v) => Obj::Boxed(v.clone()),
                    _ => continue,
                };
                let kn = kn.clone();
                pool.push((c, kn));
            }
            Step::CloneFrom(k, j) if len > 1 => {
                let (k, j) = (k % len, j % len);
                if k == j {
                    continue;
                }
                let mut x = pool.swap_remove(k);
                let j = if j == len - 1 { k } else { j };
                let (o, kn) = &pool[j];
                let done = match (&mut x.0, o) {
                    (Obj::View(a), Obj::View(b)) => {
                        a.clone_from(b);
                        true
                    }
                    (Obj::Boxed(a), Obj::Boxed(b)) => {
                        a.clone_from(b);
                        true
                    }
                    _ => false,
                };
                if done {
                    x.1 = kn.clone();
                }
                pool.push(x);
            }
            Step::IntoIter(k) if len > 0 => {
                let (o, kn) = pool.swap_remove(k % len);
                let o = match o {
                    Obj::View(v) => Obj::It(v.into_iter()),
                    Obj::Nest(v) => Obj::NestIt(v.into_iter()),
                    Obj::Boxed(v) => Obj::BoxedIt(v.into_iter()),
                    other => other,
                };
                iters += 1;
                pool.push((o, kn));
            }
            Step::Iterate(k, c) if len > 0 => {
                let (o, kn) = &mut pool[k % len];
                if !is_iter(o) {
                    continue;
                }
                partial += 1;
                for _ in 0..c {
                    let at = kn.a;
                    match attempt(|| on_iter!(o, it, it.next())) {
                        Ok(None) => {
                            ensure!(at >= kn.b, "iterator of {kn:?} ended early");
                            break;
                        }
                        Ok(Some(x)) => {
                            ensure!(at < kn.b && x == bit(kn.seed, kn.flips, at), "iterator of {kn:?} gave {x}");
                            kn.a += 1;
                        }
                        // where the iterator stands after a panic is not promised
                        Err(_) => {
                            ensure!(at == kn.bomb, "reading {at} of {kn:?} panicked");
                            bombs += 1;
                            let left = on_iter!(o, it, it.len());
                            kn.a = kn.b - left.min(kn.b - at);
                            break;
                        }
                    }
                }
            }
            Step::Nth(k, c) if len > 0 => {
                let (o, kn) = &mut pool[k % len];
                if !is_iter(o) {
                    continue;
                }
                let to = kn.a + c;
                match attempt(|| on_iter!(o, it, it.nth(c))) {
                    Ok(x) => {
                        let want = (to < kn.b).then(|| bit(kn.seed, kn.flips, to));
                        same!(x, want, "nth({c}) of {kn:?}");
                        kn.a = (to + 1).min(kn.b);
                    }
                    Err(_) => {
                        ensure!(kn.bomb >= kn.a && kn.bomb <= to, "nth({c}) of {kn:?} panicked");
                        bombs += 1;
                        let left = on_iter!(o, it, it.len());
                        kn.a = kn.b - left.min(kn.b - kn.a);
                    }
                }
            }
            Step::Collect(k) if len > 0 => {
                let (o, kn) = pool.swap_remove(k % len);
                let r = attempt(move || match o {
                    Obj::View(v) => v.into_iter().collect::<Vec<bool>>(),
                    Obj::Nest(v) => v.into_iter().collect(),
                    Obj::Boxed(v) => v.into_iter().collect(),
                    Obj::It(v) => v.collect(),
                    Obj::NestIt(v) => v.collect(),
                    Obj::BoxedIt(v) => v.collect(),
                });
                let bombed = kn.bomb >= kn.a && kn.bomb < kn.b;
                match r {
                    Ok(v) => ensure!(
                        !bombed && v.len() == kn.b - kn.a && (0..v.len()).all(|i| v[i] == bit(kn.seed, kn.flips, kn.a + i)),
                        "collecting {kn:?} differs"
                    ),
                    Err(p) => {
                        ensure!(bombed, "collecting {kn:?} panicked: {p}");
                        bombs += 1;
                    }
                }
            }
            Step::Borrow(k, how, x) if len > 0 => {
                let (o, kn) = &mut pool[k % len];
                if is_iter(o) {
                    continue;
                }
                let n = kn.b - kn.a;
                let r = attempt(|| {
                    on_view!(o, v, {
                        match how {
                            0 => v.slice(x..).len(),
                            1 => v.slice_mut(..x).into_iter().count(),
                            2 => v.split_at(x).1.len(),
                            3 => v.split_at_mut(x).0.len(),
                            4 => v.iter().take(x).count(),
                            _ => (&*v).into_iter().skip(x).count(),
                        }
                    })
                });
                let bombed = kn.bomb < kn.b && kn.bomb >= kn.a;
                match r {
                    Ok(c) => {
                        let want = match how {
                            0 | 2 | 5 => n.saturating_sub(x),
                            _ => x.min(n),
                        };
                        same!(c, want, "borrowing ({how}, {x}) from {kn:?}");
                    }
                    Err(p) => ensure!(x > n || bombed || (x == n && matches!(how, 2 | 3)), "borrowing ({how}, {x}) from {kn:?} panicked: {p}"),
                }
            }
            Step::Flip(k, i) if len > 0 => {
                let (o, kn) = &mut pool[k % len];
                if is_iter(o) || i >= kn.b - kn.a || kn.a + i == kn.bomb {
                    continue;
                }
                on_view!(o, v, v.flip_bit(i));
                if kn.a + i < 64 {
                    kn.flips ^= 1 << (kn.a + i);
                }
                let g = on_view!(o, v, v.get_bit(i));
                ensure!(g == bit(kn.seed, kn.flips, kn.a + i), "bit {i} of {kn:?} after a flip");
            }
            Step::Nest(k) if len > 0 => {
                let (o, kn) = pool.swap_remove(k % len);
                let n = kn.b - kn.a;
                let o = match o {
                    Obj::View(v) => Obj::Nest(BitSlice::new(v, 0, n)),
                    other => other,
                };
                pool.push((o, kn));
            }
            Step::Assign(k, j) if len > 1 => {
                let (k, j) = (k % len, j % len);
                if k != j {
                    // the object assigned over is dropped by the assignment
                    let x = pool.swap_remove(k);
                    let j = if j == len - 1 { k } else { j };
                    pool[j] = x;
                }
            }
            Step::Drop(k) if len > 0 => {
                pool.swap_remove(k % len);
            }
            Step::Swap(k, j) if len > 0 => pool.swap(k % len, j % len),
            _ => {}
        }
        balance(&pool, &|| format!("after {st:?}"))?;
    }
    drop(pool);
    balance(&[], &|| "at the end".into())?;
    cx.nontrivial = iters > 0 || partial > 0;
    cx.class_if(iters > 0, "views turned into iterators");
    cx.class_if(partial > 0, "iterators used in part");
    cx.add("reads that panic", bombs);
    Ok(())
}
/// The owning view inside of a bit vector.
type Inner = <BitVec as std::ops::Deref>::Target;
enum Thing {
    Bits(BitVec),
    Ints(IntVec),
    IntsIter(<IntVec as IntoIterator>::IntoIter),
    View(Inner),
    BitsIter(<Inner as IntoIterator>::IntoIter),
}
fn heap(steps: &[Heap], cx: &mut Cx) -> Res {
    let kinds = steps.iter().filter(|s| matches!(s, Heap::IntoIter(..) | Heap::OwnedView(_) | Heap::Index(_))).count();
    cx.nontrivial = steps.len() >= 2 && kinds >= 1;
    cx.class("heap structures");
    let start = held();
    {
        let mut pool: Vec<Thing> = Vec::with_capacity(64);
        for st in steps {
            let len = pool.len();
            match st {
                Heap::Bits(n) => {
                    let mut b = BitVec::new(*n);
                    if *n > 0 {
                        b.set_bit(n / 2, true);
                    }
                    pool.push(Thing::Bits(b));
                }
                Heap::Ints(w, k, v) => {
                    let mut iv = make(*w, if k % 2 == 0 { None } else { Some(*k / 2) });
                    for _ in 0..*k {
                        iv.push(*v as usize);
                    }
                    pool.push(Thing::Ints(iv));
                }
                _ if len == 0 => {}
                Heap::CloneBits(k) => {
                    let c = match &pool[k % len] {
                        Thing::Bits(b) => Thing::Bits(b.clone()),
                        Thing::View(v) => Thing::View(v.clone()),
                        _ => continue,
                    };
                    pool.push(c);
                }
                Heap::IntoIter(k, c) => {
                    let x = pool.swap_remove(k % len);
                    pool.push(match x {
                        Thing::Ints(v) => {
                            let mut it = v.into_iter();
                            let (n, taken) = (it.len(), it.by_ref().take(*c).count());
                            ensure!(taken == n.min(*c), "took {taken} of {n} elements");
                            Thing::IntsIter(it)
                        }
                        Thing::View(v) => {
                            let mut it = v.into_iter();
                            let (n, taken) = (it.len(), it.by_ref().take(*c).count());
                            ensure!(taken == n.min(*c), "took {taken} of {n} bits");
                            Thing::BitsIter(it)
                        }
                        Thing::IntsIter(mut it) => {
                            let _ = it.nth(*c);
                            Thing::IntsIter(it)
                        }
                        Thing::BitsIter(mut it) => {
                            let _ = it.nth(*c);
                            Thing::BitsIter(it)
                        }
                        other => other,
                    });
                }
                Heap::OwnedView(k) => {
                    let v = match &pool[k % len] {
                        Thing::Bits(b) => (**b).clone(),
                        _ => continue,
                    };
                    pool.push(Thing::View(v));
                }
                Heap::Index(k) => {
                    if let Thing::Bits(b) = &pool[k % len] {
                        let ix = FlatPopcount::<()>::new(b);
                        let r = ix.rank::<true>(b.len());
                        ensure!(r == (b.len() > 0) as usize, "the index counts {r} ones");
                    }
                }
                Heap::Assign(k, j) => {
                    let x = pool.swap_remove(k % len);
                    match pool.len() {
                        0 => pool.push(x),
                        l => pool[j % l] = x,
                    }
                }
                Heap::Drop(k) => {
                    pool.swap_remove(k % len);
                }
            }
        }
    }
    let left = held() - start;
    ensure!(left == 0, "{left} bytes are held after everything was dropped");
    Ok(())
}
fn c25_exec(c: &C25, cx: &mut Cx) -> Res {
    match c {
        C25::Counted(steps) => counted(steps, cx),
        C25::Heap(steps) => heap(steps, cx),
    }
}
#[cfg(feature = "c25")]
pub static C25P: Prop = Prop {
    id: "C25",
    rule: "program over a pool of owning views and iterators (also nested, boxed, cloned, partly iterated, assigned over, with reads that panic) whose backings register their life; the number alive, double drops and uses after a drop are compared after every step. Second mode: vectors, integer vectors, indexes and their owning iterators, heap bytes held at the end must be zero. Non-trivial: a view is turned into an iterator or an iterator used in part (heap mode: at least two steps, one with an iterator, owning view or index).",
    modes: &[
        Mode { code: 1, name: "heap", quick: 300000, thorough: 3600000, profiles: "release checked asan" },
        Mode { code: 0, name: "counted backings", quick: 1200000, thorough: 14400000, profiles: "release checked asan" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c25_gen, c25_exec),
};
