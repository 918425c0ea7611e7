//! Nondeterministic inputs. Under Kani they are symbolic; natively they come from a recorded
//! counterexample (replay) or from a seeded generator (search). The order of draws is the same in
//! all three, so a Kani counterexample replays byte for byte on the native build of the real code.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub const fn native() -> bool {
        false
    }
    /// The end of a harness is reachable: no precondition is contradictory.
    pub fn reached() {
        kani::cover!(true, "reached the end");
    }
    pub fn dirty() {}
    pub fn aside<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn length(cap: usize) -> usize {
        usize().min(cap)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Discard;

    pub enum Src {
        Replay(Vec<Vec<u8>>, usize),
        Random(u64, Vec<Vec<u8>>),
        /// As Random, but nothing is recorded and the literals of the code are not used.
        Aside(u64),
    }

    thread_local! {
        static SRC: RefCell<Src> = const { RefCell::new(Src::Replay(Vec::new(), 0)) };
    }

    pub fn set_replay(v: Vec<Vec<u8>>) {
        SRC.with(|s| *s.borrow_mut() = Src::Replay(v, 0));
    }
    pub fn set_random(seed: u64) {
        let mut x = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
        next(&mut x);
        SRC.with(|s| *s.borrow_mut() = Src::Random(x, Vec::new()));
    }
    pub fn recorded() -> Vec<Vec<u8>> {
        SRC.with(|s| match &*s.borrow() {
            Src::Random(_, r) => r.clone(),
            Src::Replay(v, _) => v.clone(),
            Src::Aside(_) => Vec::new(),
        })
    }
    /// Values made from one recorded draw, where recording each would take too much room.
    pub fn aside<R>(f: impl FnOnce() -> R) -> R {
        let seed = u64();
        let before = SRC.with(|s| std::mem::replace(&mut *s.borrow_mut(), Src::Aside(seed)));
        let r = f();
        SRC.with(|s| *s.borrow_mut() = before);
        r
    }
    /// A length of at most `cap`: around powers of two, around literals of the code under test, or any.
    pub fn length(cap: usize) -> usize {
        let picked = SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Random(x, rec) => {
                let raw = match next(x) % 4 {
                    0 | 1 => (1u64 << (next(x) % 17)).wrapping_add(next(x) % 3).wrapping_sub(1),
                    2 => dict()[(next(x) % dict().len() as u64) as usize],
                    _ => next(x),
                };
                let n = if raw > cap as u64 { raw % (cap as u64 + 1) } else { raw };
                rec.push(n.to_le_bytes().to_vec());
                Some(n as usize)
            }
            _ => None,
        });
        picked.unwrap_or_else(usize).min(cap)
    }

    fn next(x: &mut u64) -> u64 {
        *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = *x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    // Values that are special for some component type, then uniform ones.
    const SPECIAL: [u64; 24] = [
        0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 0x7f, 0x80, 0xff,
        0x8000_0000, 0x7fff_ffff, 0xffff_ffff, 0x7fc0_0001, 0x7f80_0001, 0x7f80_0000,
        0x8000_0000_0000_0000, 0x7ff0_0000_0000_0001, 0x7ff8_0000_0000_0001,
        0xfff8_0000_dead_beef, 0xffff_ffff_ffff_ffff,
    ];

    /// Integer literals of the code under test (VH_DICT, comma separated) and their neighbours.
    fn dict() -> &'static [u64] {
        static D: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
        D.get_or_init(|| {
            let text = std::env::var("VH_DICT").unwrap_or_default();
            let mut v: Vec<u64> = text.split(',').filter_map(|x| x.parse().ok()).collect();
            v.push(0);
            v.iter().flat_map(|x| [x.wrapping_sub(1), *x, x.wrapping_add(1)]).collect()
        })
    }

    fn draw(n: usize) -> u64 {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Replay(v, i) => {
                let r = v.get(*i).cloned().unwrap_or_default();
                *i += 1;
                let mut b = [0u8; 8];
                for (d, x) in b.iter_mut().zip(r.iter()) {
                    *d = *x;
                }
                u64::from_le_bytes(b)
            }
            Src::Aside(x) => match next(x) % 4 {
                0 => SPECIAL[(next(x) % SPECIAL.len() as u64) as usize],
                _ => next(x),
            },
            Src::Random(x, rec) => {
                let sel = next(x);
                let raw = match sel % 8 {
                    0 | 1 => SPECIAL[(next(x) % SPECIAL.len() as u64) as usize],
                    2 | 3 => next(x) % 32,
                    4 => dict()[(next(x) % dict().len() as u64) as usize],
                    _ => next(x),
                };
                let mask = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
                let raw = raw & mask;
                rec.push(raw.to_le_bytes()[..n].to_vec());
                raw
            }
        })
    }
    pub fn u8() -> u8 {
        draw(1) as u8
    }
    pub fn u32() -> u32 {
        draw(4) as u32
    }
    pub fn u64() -> u64 {
        draw(8)
    }
    pub fn usize() -> usize {
        draw(8) as usize
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Discard);
        }
    }
    pub const fn native() -> bool {
        true
    }
    pub fn reached() {}
    /// Leaves non-zero bytes on the stack below the caller, so that uninitialised padding shows.
    #[inline(never)]
    pub fn dirty() {
        let mut a = [0xA5u8; 4096];
        std::hint::black_box(&mut a);
    }
}

pub use imp::*;

pub fn boolean() -> bool {
    u8() & 1 == 1
}

/// A value below `n` (n > 0); natively reduced instead of assumed, so that search wastes no draws
/// (a value that Kani picked is below `n` already and replays as itself).
pub fn below(n: usize) -> usize {
    let k = usize();
    if native() {
        k % n
    } else {
        assume(k < n);
        k
    }
}

/// `kani` under Kani, `nat` natively: the size of an exploration. A bound that differs between the
/// two only widens native search.
pub fn bound(kani: usize, nat: usize) -> usize {
    if native() {
        nat
    } else {
        kani
    }
}

/// A property check: a named obligation under Kani, a panic natively.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {
        assert!($c, $m)
    };
}

/// The two byte strings are equal: one symbolic index under Kani, all indices natively.
pub fn same_bytes(got: &[u8], exp: &[u8]) {
    check!(got.len() == exp.len(), "post: byte lengths agree");
    if exp.is_empty() {
        return;
    }
    let k = below(exp.len());
    if native() {
        for i in 0..exp.len() {
            assert!(got[i] == exp[i], "post: bytes agree (index {i}: got {:#x}, expected {:#x})", got[i], exp[i]);
        }
    } else {
        check!(got[k] == exp[k], "post: bytes agree");
    }
}
