//! P09 textual date and time
use crate::{gen, hooks, nd};
use rinex::prelude::{Epoch, RinexType, TimeScale};

const SCALES: [TimeScale; 6] = [TimeScale::GPST, TimeScale::UTC, TimeScale::TAI, TimeScale::GST, TimeScale::BDT, TimeScale::QZSST];

/// blank or zero padded
fn pad(v: u32, w: usize) -> String {
    if nd::bool_() { format!("{v:0w$}") } else { format!("{v:w$}") }
}

harness! {
}
search! {
    fn p09_parse() {
        let ts = nd::pick(&SCALES);
        let d = gen::date(1980, 2079);
        let y = if nd::bool_() { format!("{:04}", d.y) } else { pad(d.y as u32 % 100, 2) };
        // 0 to 9 digits of a second
        let digits = nd::r_usize(0, 9);
        let ns = d.f * 100 / 10u32.pow(9 - digits as u32) * 10u32.pow(9 - digits as u32);
        let frac = if digits == 0 { String::new() } else { format!(".{}", &format!("{ns:09}")[..digits]) };
        let s = format!("{}{y} {} {} {} {} {}{frac}{}", nd::pick(&["", " ", "  "]), pad(d.m.into(), 2), pad(d.d.into(), 2), pad(d.hh.into(), 2), pad(d.mm.into(), 2), pad(d.ss.into(), 2), nd::pick(&["", " ", "  0  3"]));
        let t = hooks::epoch_parse(&s, ts).unwrap_or_else(|e| panic!("{s:?} rejected: {e}"));
        let e = Epoch::from_gregorian(d.y, d.m, d.d, d.hh, d.mm, d.ss, ns, ts);
        assert!(t == e && t.time_scale == ts, "{s:?} is {t:?}, expected {e:?}");
    }
    fn p09_decompose() {
        let ts = nd::pick(&SCALES);
        let d = gen::date(1980, 2079);
        let ns = if nd::bool_() { d.f * 100 } else { nd::r_u32(0, 999_999_999) };
        let e = Epoch::from_gregorian(d.y, d.m, d.d, d.hh, d.mm, d.ss, ns, ts);
        let r = hooks::epoch_decompose(e);
        assert!(r == (d.y, d.m, d.d, d.hh, d.mm, d.ss, ns), "{e:?} decomposed as {r:?}");
    }
    fn p09_format() {
        let ts = nd::pick(&SCALES);
        let d = gen::date(1980, 2079);
        let e = d.epoch(ts);
        let yy = d.y % 100;
        let (y, m, dd, hh, mm, ss) = (d.y, d.m, d.d, d.hh, d.mm, d.ss);
        let rev = nd::r_u8(2, 4);
        let (ty, s) = match nd::r_u8(0, 3) {
            0 if rev < 3 => (RinexType::ObservationData, format!("{yy:02} {m:2} {dd:2} {hh:2} {mm:2} {ss:2}.{:07}", d.f)),
            0 => (RinexType::ObservationData, format!("{y:04} {m:02} {dd:02} {hh:02} {mm:02} {ss:2}.{:07}", d.f)),
            1 if rev < 3 => (RinexType::NavigationData, format!("{yy:02} {m:2} {dd:2} {hh:2} {mm:2} {ss:2}.{:1}", d.f / 1_000_000)),
            1 => (RinexType::NavigationData, format!("{y:04} {m:02} {dd:02} {hh:02} {mm:02} {ss:02}")),
            2 => (RinexType::IonosphereMaps, format!("{y:04}   {m:2}    {dd:2}    {hh:2}    {mm:2}    {ss:2}")),
            _ if rev < 3 => (RinexType::MeteoData, format!("{yy:02} {m:2} {dd:2} {hh:2} {mm:2} {ss:2}")),
            _ => (RinexType::MeteoData, format!("{y:04} {m:2} {dd:2} {hh:2} {mm:2} {ss:2}")),
        };
        let r = hooks::epoch_format(e, ty, rev);
        assert!(r == s, "{e:?} formatted as {r:?}, expected {s:?}");
        // at the resolution of the format, parsing gives the epoch back
        let f = match ty { RinexType::ObservationData => d.f, RinexType::NavigationData if rev < 3 => d.f / 1_000_000 * 1_000_000, _ => 0 };
        let t = hooks::epoch_parse(&r, ts).unwrap();
        assert!(t == gen::Date { f, ..d }.epoch(ts), "{r:?} parsed as {t:?}");
    }
    fn p09_ionex() {
        let d = gen::date(1980, 2079);
        let s = format!("{:6}{:6}{:6}{:6}{:6}{:6}", d.y, d.m, d.d, d.hh, d.mm, d.ss);
        let t = hooks::epoch_parse_ionex(&s).unwrap();
        let e = gen::Date { f: 0, ..d }.epoch(TimeScale::UTC);
        assert!(t == e && t.time_scale == TimeScale::UTC, "{s:?} is {t:?}");
    }
    fn p09_out_of_calendar() {
        // one field out of its range: rejected
        let d = gen::date(1980, 2079);
        let mut f = [d.y as u32, d.m.into(), d.d.into(), d.hh.into(), d.mm.into(), d.ss.into()];
        let (i, v) = nd::pick(&[(1usize, 0u32), (1, 13), (2, 0), (2, 32), (3, 25), (4, 60), (5, 61), (1, 200), (2, 300), (0, 0)]);
        f[i] = v;
        if i == 0 { f[0] = 0 }
        let s = format!("{:04} {:02} {:02} {:02} {:02} {:02}", f[0], f[1], f[2], f[3], f[4], f[5]);
        let ts = nd::pick(&SCALES);
        let r = hooks::epoch_parse(&s, ts);
        assert!(i == 0 || r.is_err(), "{s:?} accepted: {r:?}");
        let r = hooks::epoch_parse_ionex(&s);
        assert!(i == 0 || r.is_err(), "{s:?} accepted: {r:?}");
    }
    fn p09_total() {
        // any text is an epoch, or an error: never a panic
        let n = nd::r_usize(0, 40);
        let s: String = (0..n).map(|_| nd::pick("    0012345678999.-+:Té".chars().collect::<Vec<_>>().as_slice())).collect();
        let _ = hooks::epoch_parse(&s, nd::pick(&SCALES));
        let _ = hooks::epoch_parse_ionex(&s);
        let _ = hooks::epoch_parse_month(&s);
    }
    fn p09_month() {
        const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        let i = nd::r_usize(0, 11);
        let r = hooks::epoch_parse_month(M[i]);
        assert!(r.is_ok() && r.unwrap() as usize == i + 1, "{}", M[i]);
        let mut w: Vec<u8> = M[i].bytes().collect();
        w[nd::r_usize(0, 2)] = b'x';
        assert!(hooks::epoch_parse_month(nd::ascii(&w)).is_err(), "{w:?}");
    }
}
