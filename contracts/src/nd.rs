//! Source of nondeterminism shared by the two ways a contract harness is run.
//!
//! Under Kani every call yields a fresh symbolic value, so the harness is an
//! obligation over all values. Natively the same harness is executed on one
//! concrete value stream: either the verifier's counterexample (replay), or a
//! pseudo random stream (bounded stand-in, seeded from VERIF_SEED).

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;

    pub enum Source {
        /// concatenation of the counterexample's little endian values
        Replay(Vec<u8>, usize),
        /// xorshift state, plus a trace of what was drawn
        Random(u64, Vec<u8>),
    }

    thread_local! {
        pub static SRC: RefCell<Source> = const { RefCell::new(Source::Random(0x9E3779B97F4A7C15, Vec::new())) };
    }

    /// panic payload: the drawn values are outside of the harness's precondition
    pub struct Vacuous;

    pub fn bytes(n: usize) -> Vec<u8> {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Replay(v, at) => {
                let mut out = Vec::with_capacity(n);
                for _ in 0..n {
                    out.push(v.get(*at).copied().unwrap_or(0));
                    *at += 1;
                }
                out
            },
            Source::Random(st, tr) => {
                let mut out = Vec::with_capacity(n);
                let mut x = 0u64;
                for i in 0..n {
                    if i % 8 == 0 {
                        *st = st.wrapping_add(0x9E3779B97F4A7C15);
                        let mut z = *st;
                        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                        x = z ^ (z >> 31);
                    }
                    out.push(x as u8);
                    x >>= 8;
                }
                tr.extend_from_slice(&out);
                out
            },
        })
    }

    /// untraced draw, used to bias the search towards corner values
    pub fn dice() -> u64 {
        SRC.with(|s| match &mut *s.borrow_mut() {
            Source::Random(st, _) => {
                *st = st.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = *st;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            },
            _ => 0,
        })
    }

    pub fn reset(src: Source) {
        SRC.with(|s| *s.borrow_mut() = src);
    }

    pub fn trace() -> Vec<u8> {
        SRC.with(|s| match &*s.borrow() {
            Source::Replay(v, _) => v.clone(),
            Source::Random(_, t) => t.clone(),
        })
    }

    pub fn is_replay() -> bool {
        SRC.with(|s| matches!(&*s.borrow(), Source::Replay(..)))
    }

    /// records a value the way a replay would read it
    pub fn rewrite(n: usize, val: &[u8]) {
        SRC.with(|s| {
            if let Source::Random(_, tr) = &mut *s.borrow_mut() {
                let l = tr.len();
                tr.truncate(l - n);
                tr.extend_from_slice(val);
            }
        })
    }
}
#[cfg(not(kani))]
pub use native::*;

macro_rules! prim {
    ($($f:ident $r:ident $t:ty),*) => { $(
        #[inline(always)]
        pub fn $f() -> $t {
            #[cfg(kani)] { kani::any() }
            #[cfg(not(kani))] {
                let b = bytes(std::mem::size_of::<$t>());
                <$t>::from_le_bytes(b.try_into().unwrap())
            }
        }
        /// any value in lo..=hi
        #[inline(always)]
        pub fn $r(lo: $t, hi: $t) -> $t {
            let v = $f();
            #[cfg(not(kani))]
            if !is_replay() {
                let span = (hi as i128) - (lo as i128) + 1;
                let d = dice();
                let w = match d % 16 {
                    0 => lo as i128,
                    1 => hi as i128,
                    2 => (lo as i128 + 1).min(hi as i128),
                    3 => (hi as i128 - 1).max(lo as i128),
                    _ => (v as i128).rem_euclid(span) + lo as i128,
                };
                let w = w as $t;
                rewrite(std::mem::size_of::<$t>(), &w.to_le_bytes());
                return w;
            }
            assume(v >= lo && v <= hi);
            v
        }
    )* };
}
prim!(u8 r_u8 u8, u16 r_u16 u16, u32 r_u32 u32, u64 r_u64 u64, i8 r_i8 i8, i16 r_i16 i16, i32 r_i32 i32, i64 r_i64 i64, usize_ r_usize usize);

#[inline(always)]
pub fn bool_() -> bool {
    r_u8(0, 1) == 1
}

/// any f64 bit pattern
#[inline(always)]
pub fn f64_() -> f64 {
    let v = u64();
    #[cfg(not(kani))]
    if !is_replay() {
        let d = dice();
        let w = match d % 8 {
            0 => (v % 4000) as f64 / 8.0 - 250.0,
            1 => (v % 2000) as f64 - 1000.0,
            2 => [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 1.0][(v % 8) as usize],
            3 => (v as i64) as f64,
            4 => (v as i64) as f64 / 9.0e18,
            _ => f64::from_bits(v),
        };
        rewrite(8, &w.to_bits().to_le_bytes());
        return w;
    }
    f64::from_bits(v)
}

#[inline(always)]
pub fn f32_() -> f32 {
    f32::from_bits(u32())
}

#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        std::panic::panic_any(Vacuous);
    }
}

/// one of the entries of a non empty table
#[inline(always)]
pub fn pick<T: Copy>(t: &[T]) -> T {
    t[r_usize(0, t.len() - 1)]
}

/// N bytes each within lo..=hi
#[inline(always)]
pub fn bytes_in<const N: usize>(lo: u8, hi: u8) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = r_u8(lo, hi);
        i += 1;
    }
    b
}

#[inline(always)]
pub fn ascii(b: &[u8]) -> &str {
    // every caller draws the bytes within 0..=127
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Reachability guard: under Kani the cover must be SATISFIED, natively the
/// search must have made it true at least once; otherwise the harness is
/// vacuous and the run is rejected.
#[macro_export]
macro_rules! reach {
    ($c:expr) => {{
        #[cfg(kani)]
        kani::cover!($c);
        #[cfg(not(kani))]
        {
            $crate::nd::reached(concat!(file!(), ":", line!()), $c);
        }
    }};
}

#[cfg(not(kani))]
thread_local! {
    pub static REACH: std::cell::RefCell<std::collections::BTreeMap<&'static str, u64>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
}
#[cfg(not(kani))]
pub fn reached(at: &'static str, c: bool) {
    REACH.with(|r| *r.borrow_mut().entry(at).or_insert(0) += c as u64);
}

/// `harness!` declares obligations: Kani proofs, and entries of the native
/// table under the same name. `search!` declares native only harnesses (bounded
/// stand-ins for functions out of the verifier's reach).
#[macro_export]
macro_rules! harness {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const PROOFS: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
#[macro_export]
macro_rules! search {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg(not(kani))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const SEARCH: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
