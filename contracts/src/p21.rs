//! P21 geodetic markers
use crate::nd;
use rinex::prelude::{GeodeticMarker, MarkerType};
use crate::stubs::Sink;
use std::fmt::Write;
use std::str::FromStr;

const TYPES: [(MarkerType, &str); 14] = [
    (MarkerType::Geodetic, "GEODETIC"),
    (MarkerType::NonGeodetic, "NON_GEODETIC"),
    (MarkerType::NonPhysical, "NON_PHYSICAL"),
    (MarkerType::Spaceborne, "SPACEBORNE"),
    (MarkerType::Airborne, "AIRBORNE"),
    (MarkerType::Watercraft, "WATER_CRAFT"),
    (MarkerType::Groundcraft, "GROUND_CRAFT"),
    (MarkerType::FixedBuoy, "FIXED_BUOY"),
    (MarkerType::FloatingBuoy, "FLOATING_BUOY"),
    (MarkerType::FloatingIce, "FLOATING_ICE"),
    (MarkerType::Glacier, "GLACIER"),
    (MarkerType::Ballistic, "BALLISTIC"),
    (MarkerType::Animal, "ANIMAL"),
    (MarkerType::Human, "HUMAN"),
];

harness! {
    #[kani::unwind(20)]
    fn p21_type_text() {
        let k = nd::r_usize(0, 13);
        let (t, s) = TYPES[k];
        let mut w = Sink::<16>::new();
        write!(w, "{}", t).unwrap();
        let e = s.as_bytes();
        assert!(w.n == e.len(), "length");
        let mut i = 0;
        while i < e.len() {
            assert!(w.b[i] == e[i], "standard name");
            i += 1;
        }
    }
}
search! {
    /// any nine characters
    fn p21_standard_number() {
        let mut b: [u8; 9] = nd::bytes_in(0x20, 0x7e);
        if nd::bool_() { b[5] = b'M' }
        let g = GeodeticMarker::default().with_number(nd::ascii(&b));
        let mut ok = b[5] == b'M';
        let mut i = 0;
        while i < 9 {
            if i != 5 && !(b[i] >= b'0' && b[i] <= b'9') { ok = false }
            i += 1;
        }
        match g.number() {
            Some(n) => {
                assert!(ok, "not a standard number");
                let n = n.as_bytes();
                assert!(n.len() == 9, "nine characters");
                let mut i = 0;
                while i < 9 {
                    assert!(n[i] == b[i], "same number");
                    i += 1;
                }
            },
            None => assert!(!ok, "a standard number"),
        }
    }
    fn p21_number() {
        let id = nd::r_u32(0, 99_999);
        let m = nd::r_u16(0, 999);
        let s = format!("{id:05}M{m:03}");
        let g = GeodeticMarker::default().with_name("SITE").with_number(&s);
        assert!(g.name == "SITE", "the name is kept");
        assert!(g.number() == Some(s.clone()), "{s} became {:?}", g.number());
        let h = g.with_name("OTHER");
        assert!(h.number() == Some(s.clone()) && h.name == "OTHER", "the number is kept");
    }
    fn p21_not_a_number() {
        let n = nd::r_usize(0, 10);
        let s: String = (0..n).map(|_| nd::pick(b"0123456789M SA\xc3") as char).collect();
        let g = GeodeticMarker::default().with_number(&s);
        let b = s.as_bytes();
        let ok = b.len() == 9 && b[5] == b'M' && b[..5].iter().chain(&b[6..]).all(|c| c.is_ascii_digit());
        assert!(g.number() == if ok { Some(s.clone()) } else { None }, "{s:?} became {:?}", g.number());
    }
    fn p21_types() {
        let (t, s) = nd::pick(&TYPES);
        assert!(t.to_string() == s, "{t:?} displayed as {t}");
        for v in [s.to_string(), s.to_lowercase(), s.replace('_', " ")] {
            assert!(MarkerType::from_str(&v).unwrap() == t, "{v} is {:?}", MarkerType::from_str(&v));
        }
    }
}
