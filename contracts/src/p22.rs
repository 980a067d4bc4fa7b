//! P22 DORIS ground stations
use crate::nd;
use rinex::prelude::{DOMESTrackingPoint, DOMES};
use rinex::doris::Station;
use std::str::FromStr;

harness! {
}
const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";

fn word(lo: usize, hi: usize, inner: bool) -> String {
    let n = nd::r_usize(lo, hi);
    let mut s = String::new();
    for i in 0..n {
        if inner && i > 0 && i + 1 < n && nd::r_u8(0, 4) == 0 { s.push(' ') } else { s.push(nd::pick(ALPHA) as char) }
    }
    s
}

search! {
    /// D## 2X A4 1X A29 1X A9 2X I1 1X I3: every character of every field
    fn p22_columns() {
        let mut b = [b' '; 58];
        b[0] = b'D';
        b[1] = nd::r_u8(b'0', b'9');
        b[2] = nd::r_u8(b'0', b'9');
        let mut i = 0;
        while i < 4 { b[5 + i] = nd::r_u8(0x21, 0x7e); i += 1; }
        let mut i = 0;
        while i < 29 { b[10 + i] = nd::r_u8(0x21, 0x7e); i += 1; }
        let d: [u8; 8] = nd::bytes_in(b'0', b'9');
        let point = nd::pick(&[b'M', b'S']);
        b[40..45].copy_from_slice(&d[..5]);
        b[45] = point;
        b[46..49].copy_from_slice(&d[5..]);
        b[51] = nd::r_u8(b'0', b'9');
        b[53] = nd::pick(&[b' ', b'-']);
        b[54] = nd::r_u8(b'0', b'9');
        b[55] = nd::r_u8(b'0', b'9');
        let p = Station::from_str(nd::ascii(&b[..56])).unwrap();
        let (l, s) = (p.label.as_bytes(), p.site.as_bytes());
        assert!(l.len() == 4 && s.len() == 29, "text fields");
        let mut i = 0;
        while i < 4 { assert!(l[i] == b[5 + i], "label"); i += 1; }
        let mut i = 0;
        while i < 29 { assert!(s[i] == b[10 + i], "site"); i += 1; }
        assert!(p.gen == b[51] - b'0', "generation");
        let k = ((b[54] - b'0') * 10 + (b[55] - b'0')) as i8;
        assert!(p.k_factor == if b[53] == b'-' { -k } else { k }, "K factor");
        assert!(p.domes == DOMES {
            area: (d[0] - b'0') as u16 * 100 + (d[1] - b'0') as u16 * 10 + (d[2] - b'0') as u16,
            site: (d[3] - b'0') * 10 + (d[4] - b'0'),
            sequential: (d[5] - b'0') as u16 * 100 + (d[6] - b'0') as u16 * 10 + (d[7] - b'0') as u16,
            point: if point == b'M' { DOMESTrackingPoint::Monument } else { DOMESTrackingPoint::Instrument },
        }, "DOMES");
    }
    /// any 56..=60 ASCII characters: a station or an error, never a panic
    fn p22_any_60() {
        let b: [u8; 60] = nd::bytes_in(0x20, 0x7e);
        let n = nd::r_usize(54, 60);
        let _ = Station::from_str(nd::ascii(&b[..n]));
    }
    fn p22_shift() {
        let mut p = Station::from_str("D01  OWFC OWENGA                        50253S002  3   0").unwrap();
        p.k_factor = nd::i8();
        let f = 0.75 + 87.0 * p.k_factor as f64 / 335_544_320.0;
        let (s, u) = (p.s1_frequency_shift(), p.u2_frequency_shift());
        assert!(s - 543.0 * 5.0E6 * f < 1e-3 && s - 543.0 * 5.0E6 * f > -1e-3, "S1");
        assert!(u - 107.0 * 5.0E6 * f < 1e-3 && u - 107.0 * 5.0E6 * f > -1e-3, "U2");
    }
    fn p22_station() {
        // D## 2X A4 1X A29 1X A9 2X I1 1X I3
        let key = nd::r_u8(1, 99);
        let label = word(4, 4, false);
        let site = word(1, 29, true);
        let domes = format!("{:03}{:02}{}{:03}", nd::r_u16(0, 999), nd::r_u8(0, 99), nd::pick(&['M', 'S']), nd::r_u16(0, 999));
        let gen = nd::r_u8(1, 9);
        let k = nd::r_i8(-99, 127);
        let s = format!("D{key:02}  {label:<4} {site:<29} {domes}  {gen} {k:3}");
        let p = Station::from_str(&s).unwrap();
        assert!(p.label == label && p.site == site, "{s:?} is {p:?}");
        assert!(p.domes == DOMES::from_str(&domes).unwrap(), "{s:?} is {p:?}");
        assert!(p.gen == gen && p.k_factor == k, "{s:?} is {p:?}");
        assert!(p.to_string() == s, "{s:?} became {:?}", p.to_string());
        let q = Station::from_str(&p.to_string()).unwrap();
        assert!(q == p, "round trip");
        // S1: 543 F0 (3/4 + 87 k / 5 2^26), U2: 107 F0 (...)
        let f = 5.0E6 * (0.75 + 87.0 * k as f64 / 335_544_320.0);
        assert!((p.s1_frequency_shift() - 543.0 * f).abs() < 1e-3, "S1 {}", p.s1_frequency_shift());
        assert!((p.u2_frequency_shift() - 107.0 * f).abs() < 1e-3, "U2 {}", p.u2_frequency_shift());
    }
    fn p22_total() {
        // any text: rejected, or a station. Never panics
        let n = nd::r_usize(0, 70);
        let s: String = (0..n).map(|_| nd::pick("D0123456789 SMABé".chars().collect::<Vec<_>>().as_slice())).collect();
        let _ = Station::from_str(&s);
    }
}
