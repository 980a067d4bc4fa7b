//! Contract harnesses over georust/rinex. One module per property.
#[macro_use]
pub mod nd;
#[cfg(not(kani))]
pub mod gen;
#[cfg(not(kani))]
pub mod siggen;
pub mod hooks;
pub mod stubs;
#[cfg(not(kani))]
pub mod runner;

macro_rules! props {
    ($($feat:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn tables(_add: &mut dyn FnMut(&'static str, &[(&'static str, fn())])) {
            $( #[cfg(feature = $feat)] { _add("proof", $m::PROOFS); _add("search", $m::SEARCH); } )*
        }
    };
}
props!(
    "p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "p06" p06, "p07" p07, "p08" p08, "p23" p23, "p09" p09, "p10" p10, "p11" p11, "p12" p12, "p13" p13, "p14" p14, "p18" p18, "p15" p15, "p16" p16, "p17" p17, "p19" p19, "p20" p20, "p21" p21, "p22" p22, "p24" p24, "p25" p25,
);
