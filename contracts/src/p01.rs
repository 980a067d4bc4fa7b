//! P01 revision numbers
use crate::nd;
use crate::stubs::Sink;
use rinex::prelude::Version;
use std::fmt::Write;
use std::str::FromStr;

fn any() -> Version {
    Version { major: nd::u8(), minor: nd::u8() }
}

/// value of an unsigned decimal number, as u8 (leading zeros and one plus sign
/// are what the integer grammar accepts)
fn dec(b: &[u8]) -> Option<u8> {
    let b = if b.len() > 1 && b[0] == b'+' { &b[1..] } else { b };
    if b.is_empty() {
        return None;
    }
    let mut v = 0u32;
    let mut i = 0;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' {
            return None;
        }
        v = v * 10 + (b[i] - b'0') as u32;
        if v > 255 {
            return None;
        }
        i += 1;
    }
    Some(v as u8)
}

fn parse<const N: usize>() {
    let b: [u8; N] = nd::bytes_in(0x20, 0x7e);
    let s = nd::ascii(&b);
    let r = Version::from_str(s);
    let mut dot = N;
    let mut second = N;
    let mut i = 0;
    while i < N {
        if b[i] == b'.' {
            if dot == N { dot = i } else if second == N { second = i }
        }
        i += 1;
    }
    let major = dec(&b[..dot]);
    let minor = if dot == N { Some(0) } else { dec(&b[dot + 1..second]) };
    match (major, minor) {
        (Some(major), Some(minor)) => {
            let v = r.unwrap();
            assert!(v.major == major && v.minor == minor, "parsed revision");
        },
        _ => assert!(r.is_err(), "not a revision number"),
    }
}

harness! {
    #[kani::unwind(8)]
    #[kani::stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    fn p01_display_parse() {
        let v = any();
        let mut s = Sink::<8>::new();
        write!(s, "{}", v).unwrap();
        let r = Version::from_str(s.str()).unwrap();
        assert!(r == v, "parse(display(v)) == v");
        reach!(v.major == 3 && v.minor == 4);
    }
    fn p01_arithmetic() {
        let v = any();
        let n = nd::u8();
        if v.major as u32 + n as u32 <= 255 {
            let a = v + n;
            assert!(a.major == v.major + n && a.minor == v.minor, "add");
            let mut b = v;
            b += n;
            assert!(a == b, "add assign");
        }
        let s = v - n;
        let expected = if (v.major as i32 - n as i32) < 1 { 1 } else { v.major - n };
        assert!(s.major == expected && s.minor == v.minor, "sub: at least revision 1");
        let mut t = v;
        t -= n;
        assert!(s == t, "sub assign");
        let p: (u8, u8) = v.into();
        assert!(p == (v.major, v.minor), "tuple");
        assert!(Version::new(v.major, v.minor) == v, "new");
    }
    fn p01_order() {
        let a = any();
        let b = any();
        let x = a.major as u32 * 256 + a.minor as u32;
        let y = b.major as u32 * 256 + b.minor as u32;
        assert!(a.cmp(&b) == x.cmp(&y), "revisions compare by major, then minor");
        assert!((a == b) == (x == y), "equality");
        assert!(a.is_supported() == (x <= 4 * 256), "revisions up to 4.00 are supported");
        let d = Version::default();
        assert!(d.major == 4 && d.minor == 0, "default is the latest supported revision");
    }
    #[kani::unwind(5)]
    #[kani::stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    fn p01_parse_1() { parse::<1>() }
    #[kani::unwind(5)]
    #[kani::stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    fn p01_parse_3_t() { parse::<3>() }
    #[kani::unwind(7)]
    #[kani::stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    fn p01_parse_4() { parse::<4>() }
}
search! {
    fn p01_words() {
        let n = nd::r_u8(0, 255);
        let m = nd::r_u8(0, 255);
        let s = if nd::bool_() { format!("{n}.{m:02}") } else { format!("{n}.{m}") };
        let v = Version::from_str(&s).unwrap();
        assert!(v == Version::new(n, m), "{s} read as {v}");
    }
}
