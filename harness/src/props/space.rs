//! C20 space bounds.
use super::ints::{gen_value, gen_width, make};
use crate::alloc::held;
use crate::bits::*;
use crate::engine::*;
use crate::ensure;
use succinct_neo::bit_vec::BitVec;
use succinct_neo::rank_select::flat_popcount::*;
use succinct_neo::rank_select::{FlatPopcount, RankSupport, SelectSupport};

/// Allowance for headers and minimal allocations, in bytes.
const SLACK: isize = 512;

#[derive(Debug)]
enum What {
    Bits(usize),
    Index(Pat, u8),
    Ints { w: usize, cap: Option<usize>, n: usize, v: u64 },
}
#[derive(Debug)]
struct C20 {
    what: What,
}
fn c20_gen(s: &mut Src, h: Head) -> C20 {
    let what = match h.mode {
        1 => What::Bits(h.ord as usize),
        2 => {
            let n = gen_len(s, 1 << 23);
            let pat = match s.weighted(&[3, 1, 2]) {
                0 => Pat { n, segs: vec![(n, Kind::Ones)] },
                1 => Pat { n, segs: vec![] },
                _ => gen_pat(s, n),
            };
            What::Index(pat, s.below(3) as u8)
        }
        _ => match s.weighted(&[1, 3, 4]) {
            0 => {
                let e = s.range(0, 33);
                What::Bits((1usize << e) + s.range(0, 200))
            }
            1 => {
                let n = gen_len(s, 200_000);
                What::Index(gen_pat(s, n), s.below(3) as u8)
            }
            _ => {
                let w = gen_width(s);
                let n = match s.weighted(&[3, 1]) {
                    0 => s.range(0, 400),
                    _ => s.range(0, 40_000),
                };
                let cap = match s.below(3) {
                    0 => None,
                    1 => Some(n),
                    _ => Some(s.range(0, 50_000)),
                };
                What::Ints { w, cap, n, v: gen_value(s, w) }
            }
        },
    };
    C20 { what }
}
fn index<S: SelectStrategy>(bv: &BitVec) -> isize {
    let h = held();
    let ix = FlatPopcount::<S>::new(bv);
    let d = held() - h;
    // the index may also not grow while it is used
    let total = ix.rank::<true>(bv.len());
    if total > 0 {
        let _ = ix.select(total - 1);
    }
    let d2 = held() - h;
    drop(ix);
    d.max(d2)
}
fn c20_exec(c: &C20, cx: &mut Cx) -> Res {
    // The bookkeeping allocates, so it comes first.
    match &c.what {
        What::Bits(n) => {
            cx.nontrivial = *n > 0;
            cx.class("bit vector");
        }
        What::Index(p, _) => {
            cx.nontrivial = p.n >= 1 << 15;
            cx.class("rank/select index");
            cx.class_if(p.n >= 1 << 20, "index of at least 2^20 bits");
        }
        What::Ints { w, cap, n, .. } => {
            cx.nontrivial = n * w > 64 * 200;
            cx.class("integer vector");
            cx.class_if(cap.is_some(), "explicit capacity");
        }
    }
    let start = held();
    match &c.what {
        What::Bits(n) => {
            let mut bv = BitVec::new(*n);
            let need = (n.div_ceil(64) * 8) as isize;
            let d = held() - start;
            ensure!(d <= need, "a vector of {n} bits holds {d} bytes, expected at most {need}");
            if *n > 0 {
                bv.set(*n - 1, true);
                bv.flip(*n / 2);
            }
            let d = held() - start;
            ensure!(d <= need, "a vector of {n} bits holds {d} bytes after writes, expected at most {need}");
            if *n < 1 << 24 {
                let cl = bv.clone();
                let d2 = held() - start - d;
                ensure!(d2 <= need, "a clone of {n} bits holds {d2} bytes, expected at most {need}");
                drop(cl);
            }
        }
        What::Index(p, strat) => {
            let bv = build_pat(p);
            let d = match strat {
                0 => index::<LinearSearch>(&bv),
                1 => index::<BinarySearch>(&bv),
                _ => index::<LinearSearch>(&bv),
            };
            let limit = (p.n as f64 / 8.0 * 0.04) as isize + SLACK;
            ensure!(d <= limit, "the index of {} bits holds {d} bytes, allowed are {limit}", p.n);
        }
        What::Ints { w, cap, n, v } => {
            let before = held();
            let mut iv = make(*w, *cap);
            let words = |k: usize| ((k * w).div_ceil(64) * 8) as isize;
            let asked = words(cap.unwrap_or(8));
            let check = |k: usize| -> Res {
                let d = held() - before;
                let limit = asked.max(2 * words(k)) + SLACK;
                ensure!(d <= limit, "{k} integers of {w} bits (capacity {cap:?}) hold {d} bytes, allowed are {limit}");
                Ok(())
            };
            check(0)?;
            for k in 1..=*n {
                iv.push(*v as usize);
                check(k)?;
            }
            drop(iv);
        }
    }
    let left = held() - start;
    ensure!(left == 0, "{left} bytes are still held after everything was dropped");
    Ok(())
}
#[cfg(feature = "c20")]
pub static C20P: Prop = Prop {
    id: "C20",
    rule: "structure of generated size and content; heap bytes held (counting allocator) compared with the stated bounds after construction, after every push and after use, and with zero after dropping. Non-trivial: large enough that the constant allowance of 512 bytes cannot hide a proportional excess (vector: any; index: at least 2^15 bits; integers: more than 200 words).",
    modes: &[
        Mode { code: 2, name: "large index", quick: 4000, thorough: 48000, profiles: "release" },
        Mode { code: 1, name: "sweep of lengths", quick: 20000, thorough: 80000, profiles: "release" },
        Mode { code: 0, name: "random", quick: 100000, thorough: 1200000, profiles: "release" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c20_gen, c20_exec),
};
