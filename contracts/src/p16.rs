//! P16 Navigation RINEX: every frame, every parameter under its standard name
use crate::{gen, nd};
use rinex::navigation::{IonosphereModel, KbRegionCode, NavFrame, NavFrameType, NavKey, NavMessageType};
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

/// names of the broadcast orbit fields, in the order of the standard (RINEX
/// 3.05 and 4.00, appendix A); "" is a spare
const KEPLER: &str = "crs {dn} m0 cuc e cus sqrta {toe} cic omega0 cis i0 crc omega omegaDot idot";

fn fields(c: char, major: u8, msg: &str) -> Vec<String> {
    let k = |first: &str, dn: &str, toe: &str| format!("{first} {} ", KEPLER.replace("{dn}", dn).replace("{toe}", toe));
    let s = match (c, msg) {
        ('G', "LNAV") | ('J', "LNAV") => k("iode", "deltaN", "toe") + "l2Codes week l2pDataFlag svAccuracy health tgd iodc t_tm fitInt",
        ('G', "CNAV") | ('J', "CNAV") => k("adot", "deltaN0", "t_op") + "deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 t_tm wn_op",
        ('G', "CNV2") | ('J', "CNV2") => k("adot", "deltaN0", "t_op") + "deltaN0Dot uraiNed0 uraiNed1 uraiEd svHealth tgd uraiNed2 iscL1Ca iscL2C iscL5I5 iscL5Q5 iscL1Cd iscL1Cp - - t_tm wn_op",
        ('E', _) => k("iodnav", "deltaN", "toe") + "dataSrc week - sisa health bgdE5aE1 bgdE5bE1 t_tm",
        ('C', "LNAV") => k("aode", "deltaN", "toe") + "- week - svAccuracy satH1 tgd1b1b3 tgd2b2b3 t_tm aodc",
        ('C', "D1") | ('C', "D2") => k("aode", "deltaN", "toe") + "- week - svAccuracy satH1 tgdb1b3 tgdb2b3 t_tm aodc",
        ('C', "CNV1") => k("adot", "deltaN0", "toe") + "deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 iscB1Cd - tgdB1Cp tgdB2ap sismai health integrityB1C iodc t_tm - - iode",
        ('C', "CNV2") => k("adot", "deltaN0", "toe") + "deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 - iscB2ad tgdB1Cp tgdB2ap sismai health integrityB2aB1C iodc t_tm - - iode",
        ('C', "CNV3") => k("adot", "deltaN0", "toe") + "deltaN0Dot satType t_op sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2 sismai health integrityB2b tgdB2bI t_tm",
        ('R', m) => "satPosX velX accelX health satPosY velY accelY channel satPosZ velZ accelZ ageOp".to_string() + if m == "FDMA" { " status L1L2GrpDelay urai almanacHealth" } else { "" },
        ('S', _) => "satPosX velX accelX health satPosY velY accelY accuracyCode satPosZ velZ accelZ iodn".to_string(),
        _ => unreachable!(),
    };
    let _ = major;
    s.split(' ').map(|w| if w == "-" { String::new() } else { w.to_string() }).collect()
}

/// D19.12
fn d19(v: Option<(bool, i64, i32)>, exp: char) -> String {
    match v {
        None => " ".repeat(19),
        Some((neg, m, e)) => format!("{}{}.{:012}{exp}{}{:02}", if neg { "-" } else { " " }, m / 1_000_000_000_000, m % 1_000_000_000_000, if e < 0 { '-' } else { '+' }, e.abs()),
    }
}

fn real() -> (bool, i64, i32) {
    if nd::r_u8(0, 11) == 0 { (false, 0, 0) } else { (nd::bool_(), nd::r_i64(1_000_000_000_000, 9_999_999_999_999), nd::r_i32(-18, 8)) }
}

/// integer as a D19.12
fn int(n: i64) -> (bool, i64, i32) {
    let (mut m, mut e) = (n.unsigned_abs() as i64 * 1_000_000_000_000, 0);
    while m >= 10_000_000_000_000 { m /= 10; e += 1; }
    (n < 0, m, e)
}

fn val(v: (bool, i64, i32)) -> f64 {
    d19(Some(v), 'E').trim().parse().unwrap()
}

struct Eph { c: char, prn: u8, msg: &'static str, date: gen::Date, clock: [(bool, i64, i32); 3], names: Vec<String>, v: Vec<Option<(bool, i64, i32)>> }

fn eph(major: u8, c: char, date: gen::Date) -> Eph {
    let msg = if major < 4 { "LNAV" } else {
        match c { 'G' | 'J' => nd::pick(&["LNAV", "CNAV", "CNV2"]), 'E' => nd::pick(&["INAV", "FNAV"]), 'C' => nd::pick(&["D1", "D2", "CNV1", "CNV2", "CNV3"]), 'R' => "FDMA", _ => "SBAS" }
    };
    let names = fields(c, major, msg);
    let v = names.iter().map(|n| {
        if n.is_empty() { return None; }
        if nd::r_u8(0, 9) == 0 { return None; }
        Some(match n.as_str() {
            "week" => int(nd::r_i64(0, 5000)),
            "channel" => int(nd::r_i64(-7, 6)),
            "status" => int(nd::r_i64(0, 0x7f)),
            "health" | "almanacHealth" => int(match c { 'G' => nd::r_i64(0, 7), 'R' => nd::pick(&[0, 4]), 'E' => nd::r_i64(0, 255), 'S' => nd::pick(&[0, 8]), _ => nd::r_i64(0, 3) }),
            _ => real(),
        })
    }).collect();
    let prn = nd::r_u8(1, match c { 'R' => 24, 'S' => 99, 'J' => 7, _ => 32 }).max(if c == 'S' { 20 } else { 1 });
    Eph { c, prn, msg, date, clock: [real(), real(), if c == 'S' { int(nd::r_i64(0, 600_000)) } else { real() }], names, v }
}

impl Eph {
    fn text(&self, major: u8, exp: char, trim: bool) -> String {
        let d = &self.date;
        let mut s = String::new();
        if major > 3 { s += &format!("> EPH {}{:02} {}\n", self.c, self.prn, self.msg); }
        if major < 3 {
            s += &format!("{:2} {:02} {:2} {:2} {:2} {:2}{:5}", self.prn, d.y % 100, d.m, d.d, d.hh, d.mm, format!("{}.0", d.ss));
        } else {
            s += &format!("{}{:02} {:04} {:02} {:02} {:02} {:02} {:02}", self.c, self.prn, d.y, d.m, d.d, d.hh, d.mm, d.ss);
        }
        if major < 3 { s = s.replace(&format!("{:5}", format!("{}.0", d.ss)), &format!("{:>5}", format!("{}.0", d.ss))); }
        for c in &self.clock { s += &d19(Some(*c), exp); }
        s.push('\n');
        for row in self.v.chunks(4) {
            let mut l = if major < 3 { " ".repeat(3) } else { " ".repeat(4) };
            for v in row { l += &d19(*v, exp); }
            if trim && !l.trim().is_empty() { l.truncate(l.trim_end().len()); }
            s += &l;
            s.push('\n');
        }
        s
    }
    fn sv(&self) -> SV { SV::from_str(&format!("{}{:02}", self.c, self.prn)).unwrap() }
    fn key(&self) -> NavKey {
        let ts = match self.c { 'R' => TimeScale::UTC, 'E' => TimeScale::GST, 'C' => TimeScale::BDT, 'J' => TimeScale::QZSST, _ => TimeScale::GPST };
        let d = gen::Date { f: 0, ..self.date };
        NavKey { epoch: d.epoch(ts), sv: self.sv(), msgtype: NavMessageType::from_str(self.msg).unwrap(), frmtype: NavFrameType::Ephemeris }
    }
    fn check(&self, f: &NavFrame) {
        let e = f.as_ephemeris().expect("ephemeris");
        let ctx = format!("{}{:02} {}", self.c, self.prn, self.msg);
        assert!(e.clock_bias == val(self.clock[0]) && e.clock_drift == val(self.clock[1]), "{ctx}: clock {} {} instead of {:?}", e.clock_bias, e.clock_drift, self.clock);
        if self.c != 'S' { assert!(e.clock_drift_rate == val(self.clock[2]), "{ctx}: clock drift rate {} instead of {:?}", e.clock_drift_rate, self.clock[2]); }
        let mut known = 0;
        for (n, v) in self.names.iter().zip(&self.v) {
            if n.is_empty() { continue; }
            let got = e.orbits.get(n);
            match v {
                None => assert!(got.is_none(), "{ctx}: {n} was omitted, it is {got:?}"),
                Some(v) => {
                    let want = val(*v);
                    // null fields may be considered undetermined
                    if want == 0.0 && got.is_none() { continue; }
                    let got = got.unwrap_or_else(|| panic!("{ctx}: {n} is missing"));
                    known += 1;
                    match got.as_f64() {
                        Some(x) => assert!(x == want, "{ctx}: {n} is {x} instead of {want}"),
                        // health and status indicators print their code
                        None => assert!(got.to_string().trim().parse::<f64>().ok() == Some(want), "{ctx}: {n} is {got:?} instead of {want}"),
                    }
                },
            }
        }
        let extra = e.orbits.keys().filter(|k| !self.names.contains(k)).count();
        assert!(e.orbits.len() == known + extra && (extra == 0 || self.c == 'S'), "{ctx}: more fields than described: {:?}", e.orbits.keys());
    }
}

fn hdr(major: u8, c: char) -> String {
    let minor = match major { 2 => nd::pick(&["00", "01", "10", "11"]), 3 => nd::pick(&["00", "01", "02", "03", "04"]), _ => "00" };
    let l = match (major, c) {
        (2, 'R') => format!("     2.{minor}           GLONASS NAV DATA"),
        (2, _) => format!("     2.{minor}           N: GPS NAV DATA"),
        (3, 'M') => format!("     3.{minor}           N: GNSS NAV DATA    M: MIXED"),
        (major, c) => format!("     {major}.{minor}           NAVIGATION DATA     {c}"),
    };
    gen::hl(&l, "RINEX VERSION / TYPE") + &gen::hl("rust                verif               20240101 000000 UTC", "PGM / RUN BY / DATE") + &gen::hl("", "END OF HEADER")
}

fn many(major: u8) {
    let sys = match major { 2 => nd::pick(&['G', 'R']), _ => nd::pick(&['M', 'M', 'G', 'R', 'E', 'C', 'J', 'S']) };
    let exp = if major < 3 { 'D' } else { nd::pick(&['E', 'e', 'D']) };
    let trim = nd::bool_();
    let mut text = hdr(major, sys);
    let mut want: BTreeMap<NavKey, Eph> = BTreeMap::new();
    for _ in 0..nd::r_usize(1, 5) {
        let c = if sys == 'M' { nd::pick(&['G', 'R', 'E', 'C', 'J', 'S']) } else { sys };
        let e = eph(major, c, gen::date(1980, 2079));
        if want.contains_key(&e.key()) { continue; }
        text += &e.text(major, exp, trim);
        want.insert(e.key(), e);
    }
    let r = gen::parse(&text).unwrap_or_else(|e| panic!("rejected: {e}"));
    let rec = r.record.as_nav().unwrap();
    for (k, e) in &want {
        let f = rec.get(k).unwrap_or_else(|| panic!("{k:?} is missing: {:?}", rec.keys().collect::<Vec<_>>()));
        e.check(f);
    }
    assert!(rec.len() == want.len(), "{} frames instead of {}", rec.len(), want.len());
    assert!(r.nav_ephemeris_frames_iter().count() == want.len(), "ephemeris iterator");
}

harness! {
}
search! {
    fn p16_v2() {
        many(2);
    }
    fn p16_v3() {
        many(3);
    }
    fn p16_v4() {
        many(4);
    }
    fn p16_models() {
        // V4 ionosphere models and earth orientation
        let d = gen::Date { f: 0, ..gen::date(1980, 2079) };
        let epoch = format!("    {:04} {:02} {:02} {:02} {:02} {:02}", d.y, d.m, d.d, d.hh, d.mm, d.ss);
        let v: Vec<_> = (0..10).map(|_| real()).collect();
        let t = |i: usize| d19(Some(v[i]), 'E');
        let x = |i: usize| val(v[i]);
        let n = nd::r_i64(0, 31);
        let int_n = d19(Some(int(n)), 'E');
        let sp = " ".repeat(4);
        let (head, body, kind) = match nd::r_u8(0, 3) {
            0 => (nd::pick(&["> ION G05 LNAV", "> ION J02 LNAV", "> ION C11 D1D2", "> ION G05 CNVX", "> ION J02 CNVX"]), format!("{epoch}{}{}{}\n{sp}{}{}{}{}\n{sp}{}{}\n", t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7), d19(Some(int(n % 2)), 'E')), 0),
            1 => ("> ION E11 IFNV", format!("{epoch}{}{}{}\n{sp}{int_n}\n", t(0), t(1), t(2)), 1),
            2 => ("> ION C11 CNVX", format!("{epoch}{}{}{}\n{sp}{}{}{}{}\n{sp}{}{}\n", t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8)), 2),
            _ => (nd::pick(&["> EOP G05 LNAV", "> EOP C11 CNVX", "> EOP J03 CNVX"]), format!("{epoch}{}{}{}\n{sp}{:19}{}{}{}\n{sp}{int_n}{}{}{}\n", t(0), t(1), t(2), "", t(3), t(4), t(5), t(6), t(7), t(8)), 3),
        };
        let r = gen::parse(&format!("{}{head}\n{body}", hdr(4, 'M'))).unwrap();
        let rec = r.record.as_nav().unwrap();
        assert!(rec.len() == 1, "{} frames", rec.len());
        let (k, f) = rec.first_key_value().unwrap();
        assert!(format!("> {} {:x} {}", k.frmtype, k.sv, k.msgtype) == head, "{k:?} instead of {head}");
        let ts = match k.sv.constellation { Constellation::Galileo => TimeScale::GST, Constellation::BeiDou => TimeScale::BDT, Constellation::QZSS => TimeScale::QZSST, _ => TimeScale::GPST };
        assert!(k.epoch == d.epoch(ts), "epoch {:?} instead of {:?}", k.epoch, d);
        if kind == 3 {
            let e = f.as_earth_orientation().expect("earth orientation");
            assert!(e.x == (x(0), x(1), x(2)) && e.y == (x(3), x(4), x(5)) && e.delta_ut1 == (x(6), x(7), x(8)) && e.t_tm as i64 == n, "{e:?} instead of {body}");
        } else {
            match (kind, f.as_ionosphere_model().expect("ionosphere model")) {
                (0, IonosphereModel::Klobuchar(m)) => assert!(m.alpha == (x(0), x(1), x(2), x(3)) && m.beta == (x(4), x(5), x(6), x(7)) && (m.region == KbRegionCode::Japan) == (n % 2 == 1), "{m:?} instead of {body}"),
                (1, IonosphereModel::NequickG(m)) => assert!(m.a == (x(0), x(1), x(2)) && m.region.bits() as i64 == n, "{m:?} instead of {body}"),
                (2, IonosphereModel::Bdgim(m)) => assert!(m.alpha == (x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8)), "{m:?} instead of {body}"),
                (_, m) => panic!("{m:?} for {head}"),
            }
        }
    }
    fn p16_total() {
        // a damaged file is parsed or rejected: never a panic
        let major = nd::r_u8(2, 4);
        let sys = if major == 2 { nd::pick(&['G', 'R']) } else { 'M' };
        let mut b = String::new();
        for _ in 0..2 {
            let c = if sys == 'M' { nd::pick(&['G', 'R', 'E', 'C', 'J', 'S']) } else { sys };
            b += &eph(major, c, gen::date(1980, 2079)).text(major, 'E', false);
        }
        let mut c: Vec<char> = b.chars().collect();
        for _ in 0..nd::r_usize(1, 4) {
            if c.is_empty() { break; }
            let i = nd::r_usize(0, c.len() - 1);
            match nd::r_u8(0, 3) {
                0 => { c.truncate(i); },
                1 => { c[i] = nd::pick(&[' ', '\n', 'A', '9', '-', 'é']); },
                2 => { c.insert(i, '\n'); },
                _ => { let j = (i + nd::r_usize(1, 100)).min(c.len()); c.drain(i..j); },
            }
        }
        let b: String = c.into_iter().collect();
        let _ = gen::parse(&format!("{}{b}", hdr(major, sys)));
    }
}
