//! Choice-sequence property testing engine.
//!
//! A case is decoded from a stream of bytes (the choices). Random search draws
//! the bytes from a seeded generator and records them, replay and shrinking
//! feed recorded bytes back, and the coverage-guided fuzzer supplies its own.
//! Missing bytes read as 0, and generators map 0 to the simplest choice, so
//! shorter and smaller byte strings decode to simpler cases.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

/// Source of choices.
pub struct Src {
    pub buf: Vec<u8>,
    pos: usize,
    rng: Option<(Rng, u64, u32)>,
}
impl Src {
    pub fn replay(buf: Vec<u8>) -> Self {
        Src { buf, pos: 0, rng: None }
    }
    /// `prefix` is read first, everything after it is random.
    pub fn random(prefix: Vec<u8>, seed: u64) -> Self {
        Src { buf: prefix, pos: 0, rng: Some((Rng::new(seed), 0, 0)) }
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos >= self.buf.len() {
            match &mut self.rng {
                None => return 0,
                Some((r, word, left)) => {
                    if *left == 0 {
                        *word = r.next();
                        *left = 8;
                    }
                    self.buf.push(*word as u8);
                    *word >>= 8;
                    *left -= 1;
                }
            }
        }
        self.pos += 1;
        self.buf[self.pos - 1]
    }
    pub fn bytes(&mut self, n: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.byte() as u64) << (8 * i);
        }
        v
    }
    pub fn u64(&mut self) -> u64 {
        self.bytes(8)
    }
    /// Uniform in `0..n` (0 if `n` is 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let need = (64 - (n - 1).leading_zeros()) as usize;
        // One spare byte keeps the modulo bias small.
        let k = ((need + 7) / 8 + (need % 8 != 0 && n.count_ones() != 1) as usize).min(8);
        self.bytes(k) % n
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == usize::MAX {
            return self.u64() as usize;
        }
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // true only for high draws, so that 0 means "no"
        let x = self.bytes(2) as u32;
        (x as u64 * den as u64) >> 16 >= (den - num) as u64
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.idx(xs.len())]
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => { if !$c { return Err(format!($($arg)+)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)); }
    }};
}

/// Per-case bookkeeping.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub notes: Vec<String>,
}
impl Cx {
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) {
        if c {
            self.class(name)
        }
    }
    pub fn add(&mut self, name: &'static str, n: u64) {
        *self.classes.entry(name).or_insert(0) += n;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Runs `f`; `Err` holds the panic message if it panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Copy)]
pub struct Mode {
    /// First choice byte of every case of this mode.
    pub code: u8,
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Space-separated profiles the mode runs in.
    pub profiles: &'static str,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Phase {
    /// Only decode the case (fills in the choices).
    Decode,
    Run,
}

pub struct Outcome {
    pub shown: String,
    pub result: Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub modes: &'static [Mode],
    pub drive: fn(&mut Src, &mut Cx, Phase) -> Outcome,
}

/// Header of a case: its mode and its ordinal in that mode (used by sweeps).
#[derive(Clone, Copy)]
pub struct Head {
    pub mode: u8,
    pub ord: u64,
}
pub fn header(mode: u8, ord: u64) -> Vec<u8> {
    let mut v = vec![mode];
    v.extend_from_slice(&(ord as u32).to_le_bytes());
    v
}

pub fn drive<C: Debug>(
    src: &mut Src,
    cx: &mut Cx,
    phase: Phase,
    gen: fn(&mut Src, Head) -> C,
    exec: fn(&C, &mut Cx) -> Res,
) -> Outcome {
    let mode = src.byte();
    let ord = src.bytes(4);
    let case = gen(src, Head { mode, ord });
    let shown = format!("{case:?}");
    let result = match phase {
        Phase::Decode => Ok(()),
        Phase::Run => match attempt(|| exec(&case, cx)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {p}")),
        },
    };
    Outcome { shown, result }
}

/// All cases of a run, in order: (mode index, ordinal).
pub fn plan(p: &Prop, profile: &str, tier: &str) -> Vec<(Mode, u64)> {
    let mut v = Vec::new();
    for m in p.modes {
        if m.profiles.split(' ').any(|x| x == profile) {
            let n = if tier == "thorough" { m.thorough } else { m.quick };
            v.push((*m, n));
        }
    }
    v
}
pub fn case_seed(seed: u64, prop: &str, profile: &str, mode: u8, ord: u64) -> u64 {
    let mut h = fnv(format!("{prop}/{profile}/{mode}").as_bytes());
    h = mix(h ^ mix(seed.wrapping_add(0x5851_F42D_4C95_7F2D)));
    mix(h ^ mix(ord.wrapping_add(1)))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}
