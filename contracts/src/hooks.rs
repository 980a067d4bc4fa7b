//! /repo's private functions (src/verif_hooks.rs, only with --cfg rinex_verif).
//! When the hook file no longer compiles, check.py builds without it: the
//! functions below then make the harness vacuous, which check.py reports as
//! "undecided", never as a violation.
#[cfg(rinex_verif)]
pub use rinex::verif_hooks::*;

#[cfg(not(rinex_verif))]
mod none {
    use rinex::{navigation::{NavFrame, NavKey}, prelude::{obs::{ObsKey, Observations}, *}};
    macro_rules! none {
        ($(fn $n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(
            pub fn $n($(_: $t),*) -> $r { crate::nd::assume(false); unreachable!() }
        )* };
    }
    none! {
        fn epoch_format(t: Epoch, ty: RinexType, r: u8) -> String;
        fn epoch_parse(s: &str, ts: TimeScale) -> Result<Epoch, ParsingError>;
        fn epoch_parse_ionex(s: &str) -> Result<Epoch, ParsingError>;
        fn epoch_parse_month(s: &str) -> Result<u8, ParsingError>;
        fn epoch_decompose(t: Epoch) -> (i32, u8, u8, u8, u8, u8, u32);
        fn fmt_rinex(c: &str, m: &str) -> String;
        fn fmt_comment(c: &str) -> String;
        fn is_rinex_comment(c: &str) -> bool;
        fn obs_is_new_epoch(l: &str, v: Version) -> bool;
        fn obs_parse_epoch(h: &Header, c: &str, ts: TimeScale, o: &mut Observations) -> Result<ObsKey, ParsingError>;
        fn nav_is_new_epoch(l: &str, v: Version) -> bool;
        fn nav_parse_epoch(h: &Header, c: &str) -> Result<(NavKey, NavFrame), ParsingError>;
        fn meteo_is_new_epoch(l: &str, v: Version) -> bool;
        fn clock_is_new_epoch(l: &str) -> bool;
        fn doris_is_new_epoch(l: &str) -> bool;
        fn antex_is_new_epoch(l: &str) -> bool;
        fn ionex_find_exponent(v: f64) -> i8;
    }
}
#[cfg(not(rinex_verif))]
pub use none::*;
