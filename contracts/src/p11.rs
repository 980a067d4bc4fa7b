//! P11 periodicity and sampling codes of file names
use crate::nd;
use crate::stubs::Sink;
use rinex::prelude::Duration;
use rinex::production::{DataSource, FFU, PPU};
use hifitime::Unit;
use std::fmt::Write;
use std::str::FromStr;

const NS: i128 = 1_000_000_000;
const ALL: [PPU; 5] = [PPU::QuarterHour, PPU::Hourly, PPU::Daily, PPU::Yearly, PPU::Unspecified];
const NAMES: [&[u8; 3]; 5] = [b"15M", b"01H", b"01D", b"01Y", b"00U"];

/// any duration of less than two centuries, in nanoseconds
fn duration() -> (Duration, i128) {
    let c = nd::r_i16(0, 1);
    let ns = nd::r_u64(0, 3_155_759_999_999_999_999);
    (Duration::from_parts(c, ns), c as i128 * 3_155_760_000_000_000_000 + ns as i128)
}

harness! {
    #[kani::unwind(5)]
    fn p11_ppu_text() {
        let b: [u8; 3] = nd::bytes_in(0x20, 0x7e);
        let p = PPU::from_str(nd::ascii(&b)).unwrap();
        let mut k = 4;
        let mut i = 0;
        while i < 4 {
            if b == *NAMES[i] { k = i }
            i += 1;
        }
        assert!(p == ALL[k], "period code");
    }
    #[kani::unwind(5)]
    fn p11_ppu_display() {
        let k = nd::r_usize(0, 4);
        let mut s = Sink::<4>::new();
        write!(s, "{}", ALL[k]).unwrap();
        assert!(s.n == 3 && s.b[..3] == NAMES[k][..], "period code");
        assert!(PPU::from_str(s.str()).unwrap() == ALL[k], "round trip");
    }
    fn p11_ppu_duration() {
        let (d, ns) = duration();
        let p = PPU::from(d);
        let h = 3600 * NS;
        let expected = if ns > 300 * NS && ns <= 900 * NS { PPU::QuarterHour }
            else if ns > 900 * NS && ns <= h { PPU::Hourly }
            else if ns > h && ns <= 24 * h { PPU::Daily }
            else if ns >= 365 * 24 * h + 6 * h { PPU::Yearly }
            else { PPU::Unspecified };
        assert!(p == expected, "period of that duration");
    }
    fn p11_ppu_inverse() {
        let p = nd::pick(&ALL);
        match p.duration() {
            Some(d) => assert!(PPU::from(d) == p, "the period of its own duration"),
            None => assert!(p == PPU::Unspecified, "only the unspecified period has no duration"),
        }
    }
    #[kani::unwind(6)]
    fn p11_ffu_text() {
        let b: [u8; 3] = nd::bytes_in(0x20, 0x7e);
        let r = FFU::from_str(nd::ascii(&b));
        let unit = match b[2] { b'S' => Some(Unit::Second), b'M' => Some(Unit::Minute), b'H' => Some(Unit::Hour), b'D' => Some(Unit::Day), _ => None };
        let digit = |c: u8| c >= b'0' && c <= b'9';
        match unit {
            Some(unit) if digit(b[1]) && (digit(b[0]) || b[0] == b'+') => {
                let v = r.unwrap();
                let tens = if digit(b[0]) { (b[0] - b'0') as u32 } else { 0 };
                assert!(v.val == tens * 10 + (b[1] - b'0') as u32 && v.unit == unit, "sampling code");
            },
            _ => assert!(r.is_err(), "not a sampling code"),
        }
    }
    #[kani::unwind(6)]
    fn p11_source() {
        let b: [u8; 1] = nd::bytes_in(0x20, 0x7e);
        let s = DataSource::from_str(nd::ascii(&b)).unwrap();
        let e = match b[0] { b'R' => DataSource::Receiver, b'S' => DataSource::Stream, _ => DataSource::Unknown };
        assert!(s == e, "data source letter");
    }
}
search! {
    fn p11_ffu_round_trip() {
        let (u, top, l) = nd::pick(&[(Unit::Second, 59u32, 'S'), (Unit::Minute, 59, 'M'), (Unit::Hour, 23, 'H'), (Unit::Day, 99, 'D')]);
        let v = nd::r_u32(1, top);
        let f = FFU { val: v, unit: u };
        let s = f.to_string();
        assert!(s == format!("{v:02}{l}"), "displayed as {s}");
        assert!(FFU::from_str(&s).unwrap() == f, "{s} round trip");
        let d = FFU::from(v as i64 * u);
        assert!(d == f, "sampling of {v} {l}: {d}");
        assert!(FFU::from_str(&format!("{s}_")).unwrap() == f, "followed by a separator");
    }
    fn p11_ffu_any() {
        // closest count of the unit
        let (d, ns) = duration();
        let f = FFU::from(d);
        let (u, lim) = if ns < 60 * NS { (NS, Unit::Second) } else if ns < 3600 * NS { (60 * NS, Unit::Minute) }
            else if ns < 86400 * NS { (3600 * NS, Unit::Hour) } else { (86400 * NS, Unit::Day) };
        assert!(f.unit == lim, "unit of {d}: {:?}", f.unit);
        assert!((f.val as i128 * u - ns).abs() * 2 <= u + 2000, "{d} is not {f}");
    }
}
