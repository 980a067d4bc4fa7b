//! P12 leap second descriptions
use crate::nd;
use rinex::prelude::{Leap, TimeScale};
use crate::stubs::Sink;
use std::io::{BufWriter, Write};
use std::str::FromStr;

/// right justified decimal in a I6 column: `w` digits
fn column(s: &mut [u8], at: usize, w: usize) -> u32 {
    let mut v = 0;
    let mut i = 0;
    while i < w {
        let d = nd::r_u8(0, 9);
        s[at + 6 - w + i] = b'0' + d;
        v = v * 10 + d as u32;
        i += 1;
    }
    v
}

/// four I6 columns and the optional A3 time system, any digit
fn parses<const A: usize, const B: usize, const C: usize, const TS: usize>() {
    let mut s = [b' '; 27];
    let a = column(&mut s, 0, A);
    let b = column(&mut s, 6, B);
    let c = column(&mut s, 12, C);
    let d = column(&mut s, 18, 1);
    let mut n = 24;
    if TS < 3 {
        let t = SCALES[TS].1.as_bytes();
        s[24] = t[0];
        s[25] = t[1];
        s[26] = t[2];
        n = 27;
    }
    let p = Leap::from_str(nd::ascii(&s[..n])).unwrap();
    assert!(p.leap == a && p.delta_tls == Some(b) && p.week == Some(c) && p.day == Some(d), "columns");
    assert!(p.timescale == if TS < 3 { Some(SCALES[TS].0) } else { None }, "time system");
}

harness! {
}
const SCALES: [(TimeScale, &str); 3] = [(TimeScale::GPST, "GPS"), (TimeScale::GST, "GAL"), (TimeScale::BDT, "BDS")];

fn leap() -> Leap {
    let mut l = Leap { leap: nd::r_u32(0, 999), ..Default::default() };
    if nd::bool_() {
        l = l.with_delta_tls(nd::r_u32(0, 999)).with_week(nd::r_u32(0, 9999)).with_day(nd::r_u32(0, 9));
        if nd::bool_() {
            l = l.with_timescale(nd::pick(&SCALES).0);
        }
    }
    l
}

fn formatted(l: &Leap) -> String {
    let mut w = BufWriter::new(Vec::<u8>::new());
    l.format(&mut w).unwrap();
    String::from_utf8(w.into_inner().unwrap()).unwrap()
}

search! {
    fn p12_parse_plain() { parses::<2, 2, 4, 3>() }
    fn p12_parse_wide() { parses::<3, 1, 4, 3>() }
    fn p12_parse_gps() { parses::<2, 2, 4, 0>() }
    fn p12_parse_gal() { parses::<2, 2, 4, 1>() }
    fn p12_parse_bds() { parses::<2, 2, 4, 2>() }
    fn p12_parse_single() {
        let mut s = [b' '; 6];
        let a = column(&mut s, 0, 3);
        let p = Leap::from_str(nd::ascii(&s)).unwrap();
        assert!(p.leap == a && p.delta_tls.is_none() && p.week.is_none() && p.day.is_none() && p.timescale.is_none(), "only the counter");
    }
    fn p12_format() {
        let l = leap();
        let mut w = BufWriter::with_capacity(96, Sink::<96>::new());
        l.format(&mut w).unwrap();
        w.flush().unwrap();
        let k = w.get_ref();
        let col = |at: usize, v: u32| {
            let mut v = v;
            let mut i = 6;
            while i > 0 {
                i -= 1;
                let e = if v == 0 && i != 5 { b' ' } else { b'0' + (v % 10) as u8 };
                assert!(k.b[at + i] == e, "I6 column");
                v /= 10;
            }
        };
        assert!(k.n >= 73 && k.n <= 81 && k.b[k.n - 1] == b'\n' && k.b[60..72] == b"LEAP SECONDS"[..], "label columns");
        col(0, l.leap);
        if let Some(d) = l.delta_tls {
            col(6, d);
            col(12, l.week.unwrap());
            col(18, l.day.unwrap());
        }
    }
    fn p12_round_trip() {
        let l = leap();
        let s = formatted(&l);
        assert!(s.len() <= 81 && &s[60..72] == "LEAP SECONDS" && s.ends_with('\n'), "header line {s:?}");
        assert!(&s[..6] == format!("{:6}", l.leap), "columns 1-6: {s:?}");
        if let Some(d) = l.delta_tls {
            assert!(s[6..24] == format!("{:6}{:6}{:6}", d, l.week.unwrap(), l.day.unwrap()), "columns 7-24: {s:?}");
        } else {
            assert!(s[6..60].trim().is_empty(), "nothing else: {s:?}");
        }
        let p = Leap::from_str(s[..40].trim()).unwrap();
        assert!(p == l, "{s:?} is {p:?}, expected {l:?}");
    }
    fn p12_columns() {
        // written from the standard: I6, I6, I6, I6, A3
        let (a, b, c, d) = (nd::r_u32(0, 999), nd::r_u32(0, 999), nd::r_u32(0, 99999), nd::r_u32(0, 9));
        let ts = nd::r_usize(0, 3);
        let s = format!("{a:6}{b:6}{c:6}{d:6}{:3}", if ts < 3 { SCALES[ts].1 } else { "" });
        let p = Leap::from_str(s.trim()).unwrap();
        assert!(p.leap == a && p.delta_tls == Some(b) && p.week == Some(c) && p.day == Some(d), "{s:?} is {p:?}");
        assert!(p.timescale == if ts < 3 { Some(SCALES[ts].0) } else { None }, "{s:?} is {p:?}");
        let p = Leap::from_str(&format!("{a}")).unwrap();
        assert!(p == Leap { leap: a, ..Default::default() }, "{p:?}");
    }
    fn p12_total() {
        // never panics, and never invents a number
        let n = nd::r_usize(0, 28);
        let s: String = (0..n).map(|_| nd::pick(b"     0123456789GPSx-+.") as char).collect();
        if let Ok(p) = Leap::from_str(&s) {
            assert!(s.contains(&p.leap.to_string()) || s.contains('0') || s.contains('+'), "{s:?} is {p:?}");
            if let Some(d) = p.delta_tls {
                assert!(s.split_ascii_whitespace().count() > 2 && s.contains(&d.to_string()) || s.contains('0'), "{s:?} is {p:?}");
            }
        }
    }
}
