//! P03 observable codes
use crate::nd;
use rinex::prelude::Observable;
use std::str::FromStr;

/// type of an observation code: first letter, RINEX tables 4 and A23
fn class(b: &[u8]) -> u8 {
    match b {
        b"P" | b"PR" => 1,
        b"T" | b"TD" => 2,
        b"H" | b"HR" => 3,
        b"F" => 4,
        b"ZW" => 5,
        b"ZD" => 6,
        b"ZT" => 7,
        b"WD" => 8,
        b"WS" => 9,
        b"RI" => 10,
        b"HI" => 11,
        _ => if b.len() < 2 || b.len() > 3 { 0 } else {
            match b[0] { b'L' => 20, b'C' | b'P' => 21, b'S' => 22, b'W' => 23, b'D' => 24, _ => 0 }
        },
    }
}

fn class_of(o: &Observable) -> u8 {
    match o {
        Observable::Pressure => 1,
        Observable::Temperature => 2,
        Observable::HumidityRate => 3,
        Observable::FrequencyRatio => 4,
        Observable::ZenithWetDelay => 5,
        Observable::ZenithDryDelay => 6,
        Observable::ZenithTotalDelay => 7,
        Observable::WindDirection => 8,
        Observable::WindSpeed => 9,
        Observable::RainIncrement => 10,
        Observable::HailIndicator => 11,
        Observable::PhaseRange(_) => 20,
        Observable::PseudoRange(_) => 21,
        Observable::SSI(_) => 22,
        Observable::Power(_) => 23,
        Observable::Doppler(_) => 24,
        Observable::ChannelNumber(_) => 25,
    }
}

fn up(b: u8) -> u8 {
    if b >= b'a' && b <= b'z' { b - 32 } else { b }
}

/// every code of N letters and digits
fn parse<const N: usize>() {
    let mut b: [u8; N] = nd::bytes_in(0x30, 0x7a);
    let mut i = 0;
    while i < N {
        let c = b[i];
        nd::assume(c <= b'9' || (c >= b'A' && c <= b'Z') || c >= b'a');
        i += 1;
    }
    let r = Observable::from_str(nd::ascii(&b));
    i = 0;
    while i < N {
        b[i] = up(b[i]);
        i += 1;
    }
    let k = class(&b);
    match r {
        Ok(o) => {
            assert!(k != 0, "unknown code was accepted");
            assert!(class_of(&o) == k, "type of the observation");
            match &o {
                Observable::PhaseRange(c) | Observable::PseudoRange(c) | Observable::SSI(c) | Observable::Power(c) | Observable::Doppler(c) => {
                    assert!(c.as_bytes() == &b, "the code is preserved");
                },
                _ => {},
            }
            assert!(o.is_phase_range_observable() == (k == 20), "phase");
            assert!(o.is_pseudo_range_observable() == (k == 21), "pseudo range");
            assert!(o.is_ssi_observable() == (k == 22), "signal strength");
            assert!(o.is_power_observable() == (k == 23), "power");
            assert!(o.is_doppler_observable() == (k == 24), "doppler");
            std::mem::forget(o);
        },
        Err(_) => assert!(k == 0, "valid code was rejected"),
    }
}

fn any() -> Observable {
    match nd::r_u8(1, 17) {
        1 => Observable::Pressure,
        2 => Observable::Temperature,
        3 => Observable::HumidityRate,
        4 => Observable::FrequencyRatio,
        5 => Observable::ZenithWetDelay,
        6 => Observable::ZenithDryDelay,
        7 => Observable::ZenithTotalDelay,
        8 => Observable::WindDirection,
        9 => Observable::WindSpeed,
        10 => Observable::RainIncrement,
        11 => Observable::HailIndicator,
        12 => Observable::PhaseRange(String::new()),
        13 => Observable::PseudoRange(String::new()),
        14 => Observable::SSI(String::new()),
        15 => Observable::Power(String::new()),
        16 => Observable::Doppler(String::new()),
        _ => Observable::ChannelNumber(String::new()),
    }
}

harness! {
    #[kani::unwind(5)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    #[kani::stub(str::to_uppercase, crate::stubs::to_uppercase)]
    fn p03_parse_1() { parse::<1>() }
    #[kani::unwind(5)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    #[kani::stub(str::to_uppercase, crate::stubs::to_uppercase)]
    fn p03_parse_2() { parse::<2>() }
    #[kani::unwind(5)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    #[kani::stub(str::to_uppercase, crate::stubs::to_uppercase)]
    fn p03_parse_3() { parse::<3>() }
    #[kani::unwind(6)]
    #[kani::stub(str::trim, crate::stubs::trim)]
    #[kani::stub(str::to_uppercase, crate::stubs::to_uppercase)]
    fn p03_parse_4() { parse::<4>() }
    fn p03_same_physics() {
        let a = any();
        let b = any();
        assert!(a.same_physics(&b) == (class_of(&a) == class_of(&b)), "same physics is: same kind of observation");
        assert!(a.same_physics(&b) == b.same_physics(&a), "symmetric");
        std::mem::forget(a);
        std::mem::forget(b);
    }
}
search! {
    fn p03_text() {
        // display, then parse: the observation and its code are preserved
        let n = nd::r_usize(1, 3);
        let s: String = (0..n).map(|_| nd::pick(b"CLDSPWHTFZRIabcx0123456789XQN") as char).collect();
        let pad = " ".repeat(nd::r_usize(0, 2));
        if let Ok(o) = Observable::from_str(&format!("{pad}{s}{pad}")) {
            let t = o.to_string();
            assert!(class(t.as_bytes()) == class_of(&o), "{s} displayed as {t}");
            let p = Observable::from_str(&t).unwrap();
            assert!(o == p, "{s}: {o:?} displayed as {t} read as {p:?}");
            match class_of(&o) {
                20..=24 => {
                    assert!(t == s.to_uppercase(), "{s} displayed as {t}");
                    let c = o.code();
                    if s.len() == 3 && class_of(&o) != 23 {
                        assert!(c == Some(s.to_uppercase()[1..].to_string()), "attribute of {s}: {c:?}");
                    } else {
                        assert!(c.is_none(), "attribute of {s}: {c:?}");
                    }
                },
                _ => assert!(o.code().is_none(), "{s} has no attribute"),
            }
        } else {
            assert!(class(s.to_uppercase().as_bytes()) == 0, "{s} was rejected");
        }
    }
}
