//! C10 memory containment under arbitrary safe calls.
use crate::bits::*;
use crate::engine::*;
use crate::{ensure, same};
use std::ops::Bound;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};
use succinct_neo::int_vec::{IntAccess, IntVec};
use succinct_neo::rank_select::flat_popcount::*;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

#[derive(Debug, Clone)]
enum Call {
    Get(usize),
    Set(usize, bool),
    Flip(usize),
    /// take a view and carry on with it
    Slice(Bound<usize>, Bound<usize>),
    /// split and carry on with the left or right part
    Split(usize, bool),
    Iterate(u8, usize),
    EqSelf,
    Len,
}
#[derive(Debug)]
enum Target {
    Spy(usize),
    /// words in the middle of a larger array
    Words(usize),
    Boxed(usize),
    Word(u64, u8),
    Vec(usize),
    /// a bit vector whose view was replaced: words, start, end
    Replaced(usize, usize, usize),
    Ints(usize, usize),
    Entry(u128),
}
#[derive(Debug)]
struct C10 {
    t: Target,
    start: usize,
    end: usize,
    calls: Vec<Call>,
    nums: Vec<usize>,
}
fn any(s: &mut Src, n: usize) -> usize {
    match s.weighted(&[5, 5, 2, 2, 2]) {
        0 => s.range(0, n),
        1 => n.wrapping_add(s.pick(&[0isize, 1, -1, 2, 63, 64, 65, 128, 1000, 4096]) as usize),
        2 => usize::MAX - s.range(0, 130),
        3 => (1usize << s.range(6, 63)).wrapping_add(s.range(0, n)),
        _ => s.u64() as usize,
    }
}
fn bound(s: &mut Src, n: usize) -> Bound<usize> {
    match s.below(3) {
        0 => Bound::Included(any(s, n)),
        1 => Bound::Excluded(any(s, n)),
        _ => Bound::Unbounded,
    }
}
fn c10_gen(s: &mut Src, _: Head) -> C10 {
    let (t, n) = match s.weighted(&[4, 3, 3, 2, 2, 5, 3, 1]) {
        0 => {
            let n = s.range(0, 300);
            (Target::Spy(n), n)
        }
        1 => {
            let n = s.range(0, 5);
            (Target::Words(n), n * 64)
        }
        2 => {
            let n = s.range(0, 70);
            (Target::Boxed(n), n * 64)
        }
        3 => {
            let b = s.pick(&[8u8, 16, 32, 64]);
            (Target::Word(s.u64(), b), b as usize)
        }
        4 => {
            let n = gen_len(s, 9000);
            (Target::Vec(n), n)
        }
        5 => {
            let w = s.range(0, 140);
            let n = w * 64;
            let (a, b) = match s.weighted(&[3, 2, 2, 1]) {
                // inside the words
                0 => {
                    let a = s.range(0, n);
                    (a, s.range(a, n))
                }
                // beyond them
                1 => {
                    let a = s.range(0, n + 200);
                    (a, a + s.range(0, 9000))
                }
                2 => (0, n + s.pick(&[0usize, 1, 64, 512, 4096, 8192])),
                // the wrong way round, with a difference that wraps to a length
                // beyond the words
                _ => (usize::MAX - s.range(0, 200), s.range(0, n + 9000)),
            };
            (Target::Replaced(w, a, b), n)
        }
        6 => {
            let w = s.range(1, 64);
            let k = s.range(0, 200);
            (Target::Ints(w, k), k)
        }
        _ => (Target::Entry(s.u64() as u128 | (s.u64() as u128) << 64), 4096),
    };
    let (start, end) = match s.weighted(&[3, 3, 1]) {
        0 => {
            let a = s.range(0, n);
            (a, s.range(a, n))
        }
        1 => {
            let a = any(s, n);
            (a, a.saturating_add(any(s, n)))
        }
        _ => (any(s, n), any(s, n)),
    };
    let calls = (0..s.range(1, 8))
        .map(|_| match s.weighted(&[3, 3, 3, 3, 2, 3, 1, 1]) {
            0 => Call::Get(any(s, n)),
            1 => Call::Set(any(s, n), s.flag()),
            2 => Call::Flip(any(s, n)),
            3 => {
                let b = bound(s, n);
                Call::Slice(b, bound(s, n))
            }
            4 => Call::Split(any(s, n), s.flag()),
            5 => Call::Iterate(s.below(4) as u8, any(s, n)),
            6 => Call::EqSelf,
            _ => Call::Len,
        })
        .collect();
    let nums = (0..s.range(2, 10)).map(|_| any(s, n)).collect();
    C10 { t, start, end, calls, nums }
}

/// Runs the calls on the view; panics of the calls are fine. `depth` bounds
/// the nesting of types by going through trait objects.
fn run<B: BitGet + BitModify>(v: &mut BitSlice<B>, calls: &[Call], panics: &mut u64) {
    for (k, c) in calls.iter().enumerate() {
        let rest = &calls[k + 1..];
        let r = attempt(|| match c {
            Call::Get(i) => {
                v.get_bit(*i);
                false
            }
            Call::Set(i, b) => {
                v.set_bit(*i, *b);
                false
            }
            Call::Flip(i) => {
                v.flip_bit(*i);
                false
            }
            Call::Slice(a, b) => {
                let n = v.slice((*a, *b)).len();
                let mut w = v.slice_mut((*a, *b));
                assert_eq!(n, w.len());
                erase(&mut w, rest, panics);
                true
            }
            Call::Split(i, right) => {
                v.split_at(*i);
                let (mut l, mut r) = v.split_at_mut(*i);
                erase(if *right { &mut r } else { &mut l }, rest, panics);
                true
            }
            Call::Iterate(kind, i) => {
                let len = v.len();
                let mut it = v.iter();
                match kind {
                    0 => {
                        let _ = it.nth((*i).min(20000));
                        let _ = it.next();
                    }
                    1 => {
                        for _ in 0..300 {
                            it.next();
                        }
                    }
                    2 if len < 100000 => {
                        it.count();
                    }
                    3 if len < 100000 => {
                        it.last();
                    }
                    _ => {
                        it.next();
                        let _ = it.size_hint();
                        let _ = it.len();
                    }
                }
                false
            }
            Call::EqSelf => {
                if v.len() < 100000 {
                    let _ = v.slice(..) == v.slice(..);
                }
                false
            }
            Call::Len => {
                v.len();
                v.is_empty();
                false
            }
        });
        match r {
            Ok(true) => return,
            Ok(false) => {}
            Err(_) => *panics += 1,
        }
    }
}
trait Access: BitGet + BitModify {}
impl<T: BitGet + BitModify> Access for T {}
/// One more level of nesting, then through a trait object again.
fn erase<B: BitGet + BitModify>(v: &mut BitSlice<B>, calls: &[Call], panics: &mut u64) {
    let n = v.len();
    let d: &mut dyn Access = v;
    let mut w: BitSlice<&mut dyn Access> = BitSlice::new(d, 0, n);
    erased(&mut w, calls, panics)
}
fn erased(v: &mut BitSlice<&mut dyn Access>, calls: &[Call], panics: &mut u64) {
    run_dyn(v, calls, panics)
}
fn run_dyn(v: &mut BitSlice<&mut dyn Access>, calls: &[Call], panics: &mut u64) {
    // Same as `run`, kept separate so that type nesting stays finite.
    for (k, c) in calls.iter().enumerate() {
        let rest = &calls[k + 1..];
        let r = attempt(|| match c {
            Call::Get(i) => {
                v.get(*i);
                false
            }
            Call::Set(i, b) => {
                v.set(*i, *b);
                false
            }
            Call::Flip(i) => {
                v.flip(*i);
                false
            }
            Call::Slice(a, b) => {
                let mut w = v.slice_mut((*a, *b));
                let n = w.len();
                let d: &mut dyn Access = &mut w;
                run_dyn(&mut BitSlice::new(d, 0, n), rest, panics);
                true
            }
            Call::Split(i, right) => {
                let (mut l, mut r) = v.split_at_mut(*i);
                let w = if *right { &mut r } else { &mut l };
                let n = w.len();
                let d: &mut dyn Access = w;
                run_dyn(&mut BitSlice::new(d, 0, n), rest, panics);
                true
            }
            Call::Iterate(_, i) => {
                let mut it = v.iter();
                let _ = it.nth((*i).min(20000));
                let _ = it.next();
                false
            }
            _ => {
                v.len();
                false
            }
        });
        match r {
            Ok(true) => return,
            Ok(false) => {}
            Err(_) => *panics += 1,
        }
    }
}
fn queries<S: SelectStrategy>(bv: &BitVec, nums: &[usize], panics: &mut u64) {
    let r = attempt(|| FlatPopcount::<S>::new(bv));
    let Ok(ix) = r else {
        *panics += 1;
        return;
    };
    for k in nums {
        for f in 0..3 {
            let r = attempt(|| match f {
                0 => {
                    ix.rank::<true>(*k);
                }
                1 => {
                    ix.rank_dyn(*k, false);
                }
                _ => {
                    ix.select(*k);
                }
            });
            *panics += r.is_err() as u64;
        }
    }
}
fn c10_exec(c: &C10, cx: &mut Cx) -> Res {
    let mut panics = 0u64;
    macro_rules! view {
        ($b:expr) => {
            if let Ok(mut v) = attempt(|| BitSlice::new($b, c.start, c.end)) {
                run(&mut v, &c.calls, &mut panics);
                drop(v);
            } else {
                panics += 1;
            }
        };
    }
    let fill = |n: usize| (0..n).map(|i| mix(i as u64 + 7) as usize).collect::<Vec<usize>>();
    match &c.t {
        Target::Spy(n) => {
            let mut sp = Spy::new((0..*n).map(|i| i % 3 == 0).collect());
            view!(&mut sp);
            let _ = attempt(|| {
                let mut it = Iter::new(&sp, c.start, c.end);
                for _ in 0..400 {
                    if it.next().is_none() {
                        break;
                    }
                }
            });
            // as the second operand of a comparison
            let other = BitSlice::new(u64::MAX, 0, 64);
            let _ = attempt(|| BitSlice::new(&sp, c.start, c.start.wrapping_add(64)) == other);
            same!(sp.stray.get(), 0u64, "unchecked accesses outside of the backing");
        }
        Target::Words(n) => {
            let mut a = vec![0x5a5a_5a5a_5a5a_5a5ausize; n + 32];
            view!(&mut a[16..16 + n]);
            for (i, w) in a.iter().enumerate() {
                ensure!((16..16 + n).contains(&i) || *w == 0x5a5a_5a5a_5a5a_5a5a, "word {} outside of the slice was changed", i as isize - 16);
            }
        }
        Target::Boxed(n) => {
            view!(fill(*n).into_boxed_slice());
            let b = fill(*n).into_boxed_slice();
            let _ = attempt(|| {
                let mut it = Iter::new(&b, c.start, c.end);
                let _ = it.next();
                let _ = it.nth(c.nums[0].min(5000));
            });
        }
        Target::Word(w, bits) => match bits {
            8 => view!(*w as u8),
            16 => view!(*w as u16),
            32 => view!(*w as u32),
            _ => view!(*w),
        },
        Target::Vec(n) => {
            let mut bv = BitVec::new(*n);
            for i in 0..*n {
                if mix(i as u64) % 3 == 0 {
                    bv.set_bit(i, true)
                }
            }
            for (k, c) in c.calls.iter().enumerate() {
                let r = attempt(|| match c {
                    Call::Get(i) => {
                        bv.get_bit(*i);
                    }
                    Call::Set(i, b) => BitModify::set_bit(&mut bv, *i, *b),
                    Call::Flip(i) => BitModify::flip_bit(&mut bv, *i),
                    _ => {}
                });
                panics += r.is_err() as u64;
                let _ = k;
            }
            queries::<LinearSearch>(&bv, &c.nums, &mut panics);
            queries::<BinarySearch>(&bv, &c.nums, &mut panics);
            #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
            queries::<SimdSearch>(&bv, &c.nums, &mut panics);
            run(&mut bv, &c.calls, &mut panics);
            view!(bv.clone().iter().collect::<Vec<_>>().len() as u64);
        }
        Target::Replaced(w, a, b) => {
            let mut bv = BitVec::new(w * 64);
            // a view of the vector's own kind of storage
            let mut own = BitVec::new(w * 64);
            for (k, x) in fill(*w).iter().enumerate() {
                (0..64).filter(|b| x >> b & 1 == 1).for_each(|b| own.set_bit(64 * k + b, true));
            }
            let Ok(view) = attempt(|| BitSlice::new(own.backing().clone(), *a, *b)) else {
                cx.class("view refused");
                return Ok(());
            };
            *bv = view;
            for x in &c.calls {
                let r = attempt(|| match x {
                    Call::Get(i) => {
                        bv.get_bit(*i);
                    }
                    Call::Set(i, b) => BitModify::set_bit(&mut bv, *i, *b),
                    Call::Flip(i) => BitModify::flip_bit(&mut bv, *i),
                    _ => {}
                });
                panics += r.is_err() as u64;
            }
            queries::<LinearSearch>(&bv, &c.nums, &mut panics);
            queries::<BinarySearch>(&bv, &c.nums, &mut panics);
            #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
            queries::<SimdSearch>(&bv, &c.nums, &mut panics);
            cx.class_if(*b > w * 64, "index over a view longer than its words");
            let r = attempt(|| format!("{bv:?}"));
            panics += r.is_err() as u64;
            run(&mut bv, &c.calls, &mut panics);
        }
        Target::Ints(w, k) => {
            let mut v = IntVec::with_capacity(*w, c.nums[0] % 50);
            for i in 0..*k {
                v.push((mix(i as u64) >> (64 - *w as u32)) as usize);
            }
            for x in &c.nums {
                let r = attempt(|| v.get(*x));
                panics += r.is_err() as u64;
                let r = attempt(|| v.set(*x, *x & 1));
                panics += r.is_err() as u64;
                let r = attempt(|| v.push(*x));
                panics += r.is_err() as u64;
                let r = attempt(|| v.iter().nth((*x).min(10000)));
                panics += r.is_err() as u64;
            }
            let mut it = v.into_iter();
            let _ = attempt(|| {
                for x in &c.nums {
                    it.nth((*x).min(40));
                }
            });
        }
        Target::Entry(e) => {
            for x in &c.nums {
                panics += attempt(|| LinearSearch::find_l2(*e, *x)).is_err() as u64;
                panics += attempt(|| BinarySearch::find_l2(*e, *x)).is_err() as u64;
                #[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
                {
                    panics += attempt(|| SimdSearch::find_l2(*e, *x)).is_err() as u64;
                }
            }
        }
    }
    cx.nontrivial = panics > 0;
    cx.add("rejected calls", panics);
    cx.class(match c.t {
        Target::Spy(_) => "recording backing",
        Target::Words(_) => "words between canaries",
        Target::Boxed(_) => "boxed words",
        Target::Word(..) => "single word",
        Target::Vec(_) => "bit vector",
        Target::Replaced(..) => "bit vector with replaced view",
        Target::Ints(..) => "integer vector",
        Target::Entry(_) => "block entry",
    });
    Ok(())
}
#[cfg(feature = "c10")]
pub static C10P: Prop = Prop {
    id: "C10",
    rule: "container with arbitrary (also invalid) view bounds and safe calls with arbitrary arguments. A recording backing counts unchecked out-of-range accesses, canary words and AddressSanitizer watch real memory, the checked build aborts on violated preconditions of unchecked operations. Panics are allowed. Non-trivial: at least one call was rejected, so the case reached beyond a border.",
    modes: &[
        Mode { code: 0, name: "random", quick: 1500000, thorough: 18000000, profiles: "checked asan release simd" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c10_gen, c10_exec),
};
