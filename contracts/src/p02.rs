//! P02 one digit observation codes: epoch flag, loss of lock, signal strength
use crate::nd;
use crate::stubs::Sink;
use rinex::prelude::obs::{EpochFlag, LliFlags, SNR};
use std::fmt::Write;
use std::str::FromStr;

const FLAGS: [EpochFlag; 7] = [
    EpochFlag::Ok,
    EpochFlag::PowerFailure,
    EpochFlag::AntennaBeingMoved,
    EpochFlag::NewSiteOccupation,
    EpochFlag::HeaderInformationFollows,
    EpochFlag::ExternalEvent,
    EpochFlag::CycleSlip,
];
const SNRS: [SNR; 10] = [
    SNR::DbHz0, SNR::DbHz12, SNR::DbHz12_17, SNR::DbHz18_23, SNR::DbHz24_29,
    SNR::DbHz30_35, SNR::DbHz36_41, SNR::DbHz42_47, SNR::DbHz48_53, SNR::DbHz54,
];
/// strictly above UP[k]: class k + 2 at least (RINEX: 1 is below 12, then 12..17, 18..23, 24..29, ...)
const UP: [f64; 7] = [17.0, 23.0, 29.0, 35.0, 41.0, 47.0, 53.0];

fn flag_text<const N: usize>() {
    let b: [u8; N] = nd::bytes_in(0, 0x7f);
    let r = EpochFlag::from_str(nd::ascii(&b));
    if N == 1 && b[0] >= b'0' && b[0] <= b'6' {
        assert!(r.unwrap() == FLAGS[(b[0] - b'0') as usize], "flag digit");
    } else {
        assert!(r.is_err(), "not a flag");
    }
}

/// any text the two columns of a signal may hold
fn snr_text<const N: usize>() {
    let b: [u8; N] = nd::bytes_in(0, 0x7f);
    let mut digit = N;
    let mut others = 0;
    let mut i = 0;
    while i < N {
        let ws = b[i] == b' ' || (b[i] >= 9 && b[i] <= 13);
        if !ws {
            if b[i] >= b'0' && b[i] <= b'9' && digit == N { digit = i } else { others += 1 }
        }
        i += 1;
    }
    let r = SNR::from_str(nd::ascii(&b));
    if digit < N && others == 0 {
        assert!(r.unwrap() == SNRS[(b[digit] - b'0') as usize], "signal strength digit");
    } else {
        assert!(r.is_err(), "not a signal strength");
    }
}

harness! {
    #[kani::unwind(5)]
    fn p02_flag_0() { flag_text::<0>() }
    #[kani::unwind(5)]
    fn p02_flag_1() { flag_text::<1>() }
    #[kani::unwind(5)]
    fn p02_flag_2() { flag_text::<2>() }
    #[kani::unwind(5)]
    fn p02_flag_display() {
        let k = nd::r_usize(0, 6);
        let f = FLAGS[k];
        let mut s = Sink::<2>::new();
        write!(s, "{}", f).unwrap();
        assert!(s.n == 1 && s.b[0] == b'0' + k as u8, "one digit");
        assert!(EpochFlag::from_str(s.str()).unwrap() == f, "round trip");
        assert!(f.is_ok() == (k == 0), "only flag 0 is ok");
        assert!(EpochFlag::default() == EpochFlag::Ok, "default");
    }
    #[kani::unwind(10)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    fn p02_snr_1() { snr_text::<1>() }
    #[kani::unwind(10)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    fn p02_snr_2() { snr_text::<2>() }
    #[kani::unwind(10)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    fn p02_snr_codes() {
        let k = nd::r_usize(0, 9);
        let v = SNRS[k];
        assert!(v as u8 == k as u8, "discriminant is the digit");
        assert!(SNR::from(k as u8) == v, "from the digit");
        let mut s = Sink::<2>::new();
        write!(s, "{:x}", v).unwrap();
        assert!(s.n == 1 && s.b[0] == b'0' + k as u8, "one digit");
        assert!(SNR::from_str(s.str()).unwrap() == v, "round trip");
        let u = nd::u8();
        assert!(SNR::from(u) == if u < 10 { SNRS[u as usize] } else { SNR::DbHz0 }, "any byte");
        // the class of its own upper bound
        let db: f64 = v.into();
        if k >= 2 { assert!(SNR::from(db) == v, "value to class round trip"); }
        if k >= 2 && k <= 8 { assert!(db == UP[k - 2], "the value is the upper bound"); }
        let l = nd::r_usize(0, 9);
        let w: f64 = SNRS[l].into();
        assert!((k < l) == (v < SNRS[l]) && (k < l) == (db < w), "order");
        assert!(v.strong() != v.weak(), "strong and weak are exclusive");
        assert!(v.strong() == (k >= 5), "strong from 30 dB");
        assert!(v.excellent() == (k >= 8), "excellent from 48 dB");
        assert!(v.bad() == (k <= 3), "bad up to 23 dB");
    }
    /// the class of any value, NaN excluded
    #[kani::unwind(10)]
    fn p02_snr_db() {
        let x = nd::f64_();
        nd::assume(x == x);
        let k = SNR::from(x) as u8;
        if x < 12.0 {
            assert!(k == 1, "below 12 dB");
        } else {
            let mut c = 2u8;
            let mut i = 0;
            while i < 7 {
                if x > UP[i] { c = 3 + i as u8 }
                i += 1;
            }
            assert!(k == c, "class of the value");
        }
        reach!(k == 5);
    }
    fn p02_lli() {
        let u = nd::u8();
        match LliFlags::from_bits(u) {
            Some(f) => {
                assert!(u <= 7 && f.bits() == u, "bits are preserved");
                assert!(f.contains(LliFlags::LOCK_LOSS) == (u & 1 != 0), "bit 0: loss of lock");
                assert!(f.contains(LliFlags::HALF_CYCLE_SLIP) == (u & 2 != 0), "bit 1: half cycle");
                assert!(f.contains(LliFlags::UNDER_ANTI_SPOOFING) == (u & 4 != 0), "bit 2: anti spoofing");
            },
            None => assert!(u > 7, "three bits are defined"),
        }
    }
}
search! {
}
