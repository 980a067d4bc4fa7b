//! P04 carrier signals
use crate::nd;
use rinex::prelude::{Carrier, Constellation, Observable};
use std::str::FromStr;

/// RINEX 3.04 table A2..: (band, attributes, carrier frequency in kHz)
type Band = (u8, &'static [u8], u32);
const GPS: &[Band] = &[(b'1', b"CSLXPWYM", 1_575_420), (b'2', b"CDSLXPWYM", 1_227_600), (b'5', b"IQX", 1_176_450)];
const GLO: &[Band] = &[(b'1', b"CP", 1_602_000), (b'4', b"ABX", 1_600_995), (b'2', b"CP", 1_246_000), (b'6', b"ABX", 1_248_060), (b'3', b"IQX", 1_202_025)];
const GAL: &[Band] = &[(b'1', b"ABCXZ", 1_575_420), (b'5', b"IQX", 1_176_450), (b'7', b"IQX", 1_207_140), (b'8', b"IQX", 1_191_795), (b'6', b"ABCXZ", 1_278_750)];
const SBAS: &[Band] = &[(b'1', b"C", 1_575_420), (b'5', b"IQX", 1_176_450)];
const QZSS: &[Band] = &[(b'1', b"CSLXZ", 1_575_420), (b'2', b"SLX", 1_227_600), (b'5', b"IQXDPZ", 1_176_450), (b'6', b"SLXEZ", 1_278_750)];
const BDS: &[Band] = &[(b'2', b"IQX", 1_561_098), (b'1', b"DPXSLZ", 1_575_420), (b'5', b"DPX", 1_176_450), (b'7', b"IQXDPZ", 1_207_140), (b'8', b"DPX", 1_191_795), (b'6', b"IQXDPZ", 1_268_520)];
const IRNSS: &[Band] = &[(b'5', b"ABCX", 1_176_450), (b'9', b"ABCX", 2_492_028)];

fn table(c: Constellation) -> &'static [Band] {
    match c {
        Constellation::GPS => GPS,
        Constellation::Glonass => GLO,
        Constellation::Galileo => GAL,
        Constellation::QZSS => QZSS,
        Constellation::BeiDou => BDS,
        Constellation::IRNSS => IRNSS,
        _ => SBAS,
    }
}

fn khz(c: &Carrier) -> i64 {
    (c.frequency_mhz() * 1000.0 + 0.5) as i64
}

fn kind(k: u8, code: String) -> Observable {
    match k {
        0 => Observable::PseudoRange(code),
        1 => Observable::PhaseRange(code),
        2 => Observable::Doppler(code),
        _ => Observable::SSI(code),
    }
}

/// every three character code of that system: the band decides the frequency,
/// the codes of the standard are all known, whatever is being observed
fn codes(c: Constellation) {
    let k = nd::r_u8(0, 3);
    let band = nd::r_u8(b'1', b'9');
    let attr = nd::r_u8(b'A', b'Z');
    let code = [b"CLDS"[k as usize], band, attr];
    let o = kind(k, nd::ascii(&code).to_string());
    let r = Carrier::from_observable(c, &o);
    let t = table(c);
    let mut known = None;
    let mut standard = false;
    let mut i = 0;
    while i < t.len() {
        if t[i].0 == band {
            known = Some(t[i].2);
            let mut j = 0;
            while j < t[i].1.len() {
                standard |= t[i].1[j] == attr;
                j += 1;
            }
        }
        i += 1;
    }
    match r {
        Ok(carrier) => {
            assert!(known.is_some(), "carrier of a band the system does not have");
            assert!(khz(&carrier) == known.unwrap() as i64, "frequency of the band");
        },
        Err(_) => assert!(!standard, "standard code is unknown"),
    }
    reach!(standard);
    std::mem::forget(o);
}

const ALL: [Carrier; 25] = [
    Carrier::L1, Carrier::L2, Carrier::L5, Carrier::L6, Carrier::G1(None), Carrier::G1a, Carrier::G2(None), Carrier::G2a,
    Carrier::G3, Carrier::E1, Carrier::E5, Carrier::E5a, Carrier::E5b, Carrier::E6, Carrier::B1I, Carrier::B1A, Carrier::B1C,
    Carrier::B2, Carrier::B2I, Carrier::B2A, Carrier::B2B, Carrier::B3, Carrier::B3A, Carrier::S1, Carrier::U2,
];
const NAMES: [&str; 18] = [
    "L1", "L2", "L5", "L6", "E1", "E5", "E6", "B1I", "B1A", "B1C", "B2", "B2I", "B2A", "B2B", "B3", "B3A", "S1", "U2",
];

harness! {
    #[kani::unwind(48)]
    fn p04_gps() { codes(Constellation::GPS) }
    #[kani::unwind(48)]
    fn p04_glonass() { codes(Constellation::Glonass) }
    #[kani::unwind(48)]
    fn p04_galileo() { codes(Constellation::Galileo) }
    #[kani::unwind(48)]
    fn p04_qzss() { codes(Constellation::QZSS) }
    #[kani::unwind(48)]
    fn p04_beidou() { codes(Constellation::BeiDou) }
    #[kani::unwind(48)]
    fn p04_irnss() { codes(Constellation::IRNSS) }
    #[kani::unwind(48)]
    fn p04_sbas() { codes(Constellation::SBAS) }
    fn p04_glonass_channels() {
        let k = nd::i8();
        let g1 = Carrier::L1.with_glonass_offset(k);
        let g2 = Carrier::L2.with_glonass_offset(k);
        assert!(g1 == Carrier::G1(Some(k)) && g2 == Carrier::G2(Some(k)), "channel is kept");
        // 562.5 kHz and 437.5 kHz channel spacing
        assert!(g1.frequency_mhz() * 10000.0 == 16_020_000.0 + k as f64 * 5625.0, "FDMA L1");
        assert!(g2.frequency_mhz() * 10000.0 == 12_460_000.0 + k as f64 * 4375.0, "FDMA L2");
        assert!(Carrier::L5.with_glonass_offset(k) == Carrier::L5, "CDMA signals have no channel");
    }
    fn p04_units() {
        let c = nd::pick(&ALL);
        assert!(c.frequency() == c.frequency_mhz() * 1.0E6, "Hz");
        assert!(c.wavelength() == 299_792_458.0 / c.frequency(), "wavelength");
    }
}
search! {
    fn p04_names() {
        let n = nd::pick(&NAMES);
        let c = Carrier::from_str(n).unwrap();
        assert!(c.to_string() == n, "{n} displayed as {c}");
        let m = format!(" {} ", n.to_lowercase());
        assert!(Carrier::from_str(&m).unwrap() == c, "{m:?} is {n}");
        for (other, k) in NAMES.iter().map(|o| (o, Carrier::from_str(o).unwrap())) {
            assert!((k == c) == (*other == n), "{n} and {other} are different");
        }
    }
    fn p04_two_characters() {
        // RINEX 2.11 codes: kind of observation and band
        let (c, bands, p) = nd::pick(&[
            (Constellation::GPS, "1:1575.42 2:1227.60 5:1176.45", true),
            (Constellation::Glonass, "1:1602.0 2:1246.0", true),
            (Constellation::QZSS, "1:1575.42 2:1227.60 5:1176.45 6:1278.75", false),
            (Constellation::SBAS, "1:1575.42 5:1176.45", false),
            (Constellation::EGNOS, "1:1575.42 5:1176.45", false),
            // (the tests encode band 5 as E5, and not E5a)
            (Constellation::Galileo, "1:1575.42 6:1278.75 7:1207.14 8:1191.795", false),
        ]);
        for b in bands.split(' ') {
            let (b, f) = b.split_once(':').unwrap();
            for k in ["C", "L", "D", "S", "P"] {
                if k == "P" && !(p && (b == "1" || b == "2")) {
                    continue;
                }
                let o = Observable::from_str(&format!("{k}{b}")).unwrap();
                let r = match o.carrier(c) {
                    Ok(r) => r,
                    Err(e) => panic!("{c} {o}: {e:?}"),
                };
                assert!((r.frequency_mhz() - f.parse::<f64>().unwrap()).abs() < 1e-9, "{c} {o}: {} MHz", r.frequency_mhz());
            }
        }
    }
}
