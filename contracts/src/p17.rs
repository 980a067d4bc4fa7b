//! P17 antenna calibrations
use crate::{gen, nd};
use rinex::antex::{AntennaPhasePattern, AntennaSpecific, CalibrationMethod, Pcv};
use rinex::carrier::Carrier;
use rinex::prelude::antex::AntennaMatcher;
use rinex::prelude::*;
use std::str::FromStr;

const FREQS: [(&str, Carrier); 19] = [
    ("G01", Carrier::L1), ("G02", Carrier::L2), ("G05", Carrier::L5),
    ("R01", Carrier::G1(None)), ("R02", Carrier::G2(None)), ("R03", Carrier::G3),
    ("E01", Carrier::E1), ("E05", Carrier::E5a), ("E06", Carrier::E6), ("E07", Carrier::E5b), ("E08", Carrier::E5),
    ("C01", Carrier::B1C), ("C02", Carrier::B1I), ("C05", Carrier::B2A), ("C06", Carrier::B3), ("C07", Carrier::B2B), ("C08", Carrier::B2),
    ("J06", Carrier::L6), ("I09", Carrier::S),
];
const MONTHS: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
const METHODS: [(&str, CalibrationMethod); 6] = [("CHAMBER", CalibrationMethod::Chamber), ("FIELD", CalibrationMethod::Field), ("ROBOT", CalibrationMethod::Robot), ("COPIED", CalibrationMethod::Copied), ("CONVERTED", CalibrationMethod::Converted), ("", CalibrationMethod::Unknown)];

/// hundredth, as F10.2 or F8.2
fn f2(v: i64, w: usize) -> String {
    let a = v.unsigned_abs();
    format!("{:>w$}", format!("{}{}.{:02}", if v < 0 { "-" } else { "" }, a / 100, a % 100))
}
fn real(v: i64) -> f64 { f2(v, 1).parse().unwrap() }

struct Freq { at: usize, neu: [i64; 3], pattern: Option<Vec<i64>>, azimuths: usize, rms: bool }
enum Kind { Rx { name: String, radome: &'static str, serial: Option<String> }, Sv { name: String, sv: String, svn: String, cospar: String } }
struct Ant { kind: Kind, method: usize, agency: String, number: u16, day: (u8, u8), dazi: u32, zen: (u32, u32, u32), valid: Option<(gen::Date, gen::Date)>, sinex: String, freqs: Vec<Freq> }
struct Doc { sys: char, pcv: Option<&'static str>, refant: String, ants: Vec<Ant> }

fn ant(i: usize) -> Ant {
    let kind = if nd::bool_() {
        let name = format!("{}{i}", nd::pick(&["TRM59800.0", "LEIAR25.R", "A", "JPSLEGANT_", "AOAD/M_T_ 12 3", "ABCDEFGHIJKLMNO"]));
        let serial = if nd::bool_() { Some(format!("{}{i}", nd::pick(&["72725", "S", "CR620012301 ABCDEFG", "1"]))) } else { None };
        Kind::Rx { name, radome: nd::pick(&["NONE", "SCIS", "LEIT", "    "]), serial }
    } else {
        // the same number may belong to several constellations
        let twin = nd::bool_();
        let letter = if twin { b"GREC"[i % 4] as char } else { nd::pick(b"GREC") as char };
        Kind::Sv { name: nd::pick(&["BLOCK IIA", "GLONASS-M", "BEIDOU-3SI-SECM-ABCD", "X"]).to_string(), sv: format!("{letter}{:02}", if twin { 40 } else { 1 + i * 10 + nd::r_usize(0, 8) }), svn: format!("{letter}{:03}", nd::r_u16(1, 999)), cospar: format!("{:04}-{:03}{}", nd::r_u16(1978, 2035), nd::r_u16(1, 199), nd::pick(b"ABCZ") as char) }
    };
    let z2 = nd::pick(&[900u32, 140, 170, 0]);
    let zen = (nd::pick(&[0u32, 0, 50]).min(z2), z2, nd::pick(&[50u32, 10, 5]));
    let m = ((zen.1 - zen.0) / zen.2 + 1) as usize;
    let k = nd::r_usize(0, FREQS.len() - 1);
    let value = |hi: i64| match nd::r_u8(0, 2) { 0 => nd::r_i64(-hi, hi), _ => nd::r_i64(-999, 999) };
    let freqs = (0..nd::r_usize(1, 5)).map(|n| Freq {
        at: (k + 3 * n) % FREQS.len(),
        neu: [value(999_999), value(999_999), value(9_999_999)],
        pattern: if nd::r_u8(0, 7) == 0 { None } else { Some((0..m).map(|_| value(999_999)).collect()) },
        azimuths: if nd::bool_() { 0 } else { nd::r_usize(1, 3) },
        rms: nd::r_u8(0, 3) == 0,
    }).collect();
    let valid = if nd::bool_() { None } else {
        let a = gen::date(1985, 2020);
        let mut b = gen::date(2021, 2040);
        if nd::bool_() { b.hh = 23; b.mm = 59; b.ss = 59; b.f = 9_999_999; }
        Some((a, b))
    };
    Ant { kind, method: nd::r_usize(0, 5), agency: nd::pick(&["IGG, Univ. Bonn", "", "A", "12345678901234567890"]).to_string(), number: nd::r_u16(0, 999), day: (nd::r_u8(1, 28), nd::r_u8(0, 11)), dazi: nd::pick(&[0u32, 50, 5, 300]), zen, valid, sinex: nd::pick(&["", "IGS14_2247", "IGS20_0001"]).to_string(), freqs }
}

fn doc() -> Doc {
    Doc { sys: nd::pick(b"GREMCJS") as char, pcv: nd::pick(&[None, Some(""), Some("AOAD/M_T"), Some("TRM59800.00     NONE")]), refant: nd::pick(&["", "12", "12345678901234567890"]).to_string(), ants: (0..nd::r_usize(1, 3)).map(ant).collect() }
}

fn tenth(v: u32) -> String { format!("{}.{}", v / 10, v % 10) }

impl Doc {
    fn text(&self, trim: bool) -> String {
        let hl = |c: &str, l: &str| if trim { format!("{c:<60}{l}\n") } else { gen::hl(c, l) };
        let mut s = hl(&format!("     1.4            {}", self.sys), "ANTEX VERSION / SYST");
        s += &match self.pcv { None => hl(&format!("{:20}{:20}{}", "A", "", self.refant), "PCV TYPE / REFANT"), Some(t) => hl(&format!("{:20}{t:20}{}", "R", self.refant), "PCV TYPE / REFANT") };
        s += &hl("any", "COMMENT");
        s += &hl("", "END OF HEADER");
        for a in &self.ants {
            s += &hl("", "START OF ANTENNA");
            s += &match &a.kind {
                Kind::Rx { name, radome, serial } => hl(&format!("{name:16}{radome}{}", serial.as_deref().unwrap_or("")), "TYPE / SERIAL NO"),
                Kind::Sv { name, sv, svn, cospar } => hl(&format!("{name:20}{sv:20}{svn:10}{cospar:10}"), "TYPE / SERIAL NO"),
            };
            s += &hl(&format!("{:20}{:20}{:6}    {:02}-{}-{:02}", METHODS[a.method].0, a.agency, a.number, a.day.0, MONTHS[a.day.1 as usize], a.day.0), "METH / BY / # / DATE");
            s += &hl(&format!("  {:>6}", tenth(a.dazi)), "DAZI");
            s += &hl(&format!("  {:>6}{:>6}{:>6}", tenth(a.zen.0), tenth(a.zen.1), tenth(a.zen.2)), "ZEN1 / ZEN2 / DZEN");
            s += &hl(&format!("{:6}", a.freqs.len()), "# OF FREQUENCIES");
            if let Some((f, u)) = &a.valid {
                for (d, l) in [(f, "VALID FROM"), (u, "VALID UNTIL")] {
                    s += &hl(&format!("{:6}{:6}{:6}{:6}{:6}{:>13}", d.y, d.m, d.d, d.hh, d.mm, format!("{}.{:07}", d.ss, d.f)), l);
                }
            }
            if !a.sinex.is_empty() { s += &hl(&a.sinex, "SINEX CODE"); }
            s += &hl("START OF ANTENNA", "COMMENT");
            for f in &a.freqs {
                let name = FREQS[f.at].0;
                s += &hl(&format!("   {name}"), "START OF FREQUENCY");
                s += &hl(&format!("{}{}{}", f2(f.neu[0], 10), f2(f.neu[1], 10), f2(f.neu[2], 10)), "NORTH / EAST / UP");
                if let Some(p) = &f.pattern {
                    s += &format!("   NOAZI{}\n", p.iter().map(|v| f2(*v, 8)).collect::<String>());
                    for z in 0..f.azimuths { s += &format!("{:>8}{}\n", tenth(z as u32 * a.dazi), p.iter().map(|v| f2(v / 2 + 3, 8)).collect::<String>()); }
                }
                s += &hl(&format!("   {name}"), "END OF FREQUENCY");
                if f.rms {
                    s += &hl(&format!("   {name}"), "START OF FREQ RMS");
                    s += &hl(&format!("{}{}{}", f2(1, 10), f2(2, 10), f2(3, 10)), "NORTH / EAST / UP");
                    s += "   NOAZI    0.10    0.20\n";
                    s += &hl(&format!("   {name}"), "END OF FREQ RMS");
                }
            }
            s += &hl("", "END OF ANTENNA");
        }
        s
    }
    fn check(&self, r: &Rinex) {
        let h = r.header.antex.as_ref().expect("no ANTEX header");
        let pcv = match self.pcv { None => Pcv::Absolute, Some("") => Pcv::Relative("AOAD/M_T".to_string()), Some(t) => Pcv::Relative(t.to_string()) };
        assert!(h.pcv_type == pcv, "{:?} instead of {pcv:?}", h.pcv_type);
        assert!(h.reference_ant_sn.as_deref().unwrap_or("") == self.refant, "reference {:?} instead of {:?}", h.reference_ant_sn, self.refant);
        let sys = gen::constellation(self.sys);
        assert!(r.header.constellation == Some(sys), "{:?} instead of {sys:?}", r.header.constellation);
        assert!((r.header.version.major, r.header.version.minor) == (1, 4), "version {:?}", r.header.version);
        let rec = r.record.as_antex().expect("no ANTEX record");
        assert!(rec.len() == self.ants.len(), "{} antennas instead of {}", rec.len(), self.ants.len());
        for (a, (got, freqs)) in self.ants.iter().zip(rec) {
            match (&a.kind, &got.specific) {
                (Kind::Rx { name, serial, .. }, AntennaSpecific::RxAntenna(x)) => assert!(x.igs_type == *name && x.serial_number == *serial, "{x:?} instead of {name:?} {serial:?}"),
                (Kind::Sv { name, sv, cospar, .. }, AntennaSpecific::SvAntenna(x)) => assert!(x.igs_type == *name && x.sv == SV::from_str(sv).unwrap() && x.cospar.to_string() == *cospar, "{x:?} instead of {name:?} {sv} {cospar}"),
                _ => panic!("wrong kind of antenna: {:?}", got.specific),
            }
            let c = &got.calibration;
            let date = Epoch::from_gregorian_utc_at_midnight(2000 + a.day.0 as i32, a.day.1 + 1, a.day.0);
            assert!(c.method == METHODS[a.method].1 && c.agency == a.agency && c.number == a.number && c.date == date, "{c:?} instead of {:?} {:?} {} {date:?}", METHODS[a.method].1, a.agency, a.number);
            let valid = a.valid.as_ref().map(|(f, u)| (f.epoch(TimeScale::GPST), u.epoch(TimeScale::GPST)));
            assert!(c.validity_period == valid, "valid {:?} instead of {valid:?}", c.validity_period);
            assert!(got.sinex_code == a.sinex, "SINEX code {:?} instead of {:?}", got.sinex_code, a.sinex);
            let dazi: f64 = tenth(a.dazi).parse().unwrap();
            assert!(got.azi_inc == dazi, "azimuth increment {} instead of {dazi}", got.azi_inc);
            let z = &got.zenith_grid;
            let w = [a.zen.0, a.zen.1, a.zen.2].map(|v| tenth(v).parse::<f64>().unwrap());
            assert!([z.start, z.end, z.spacing] == w, "zenith grid {z:?} instead of {w:?}");
            assert!(freqs.len() == a.freqs.len(), "{} frequencies instead of {}", freqs.len(), a.freqs.len());
            for f in &a.freqs {
                let (name, carrier) = FREQS[f.at];
                let d = freqs.get(&carrier).unwrap_or_else(|| panic!("{name} ({carrier:?}) is missing"));
                let neu = (real(f.neu[0]), real(f.neu[1]), real(f.neu[2]));
                assert!(d.apc_eccentricity == neu, "{name}: {:?} instead of {neu:?}", d.apc_eccentricity);
                let p = AntennaPhasePattern::AzimuthIndependentPattern(f.pattern.iter().flatten().map(|v| real(*v)).collect());
                assert!(d.phase_pattern == p, "{name}: {:?} instead of {p:?}", d.phase_pattern);
                let ns = Duration::from_nanoseconds(1.0);
                // searched by users
                let (now, before) = valid.map_or((date, None), |(a, b)| (if nd::bool_() { a } else { b }, Some(if nd::bool_() { a - ns } else { b + ns })));
                let at = |t| match &a.kind {
                    Kind::Rx { name, serial, .. } => match serial {
                        Some(s) if nd::bool_() => r.rx_antenna_apc_offset(t, AntennaMatcher::SerialNumber(s.clone()), carrier),
                        _ => r.rx_antenna_apc_offset(t, AntennaMatcher::IGSCode(name.to_lowercase()), carrier),
                    },
                    Kind::Sv { sv, .. } => r.sv_antenna_apc_offset(t, SV::from_str(sv).unwrap(), carrier),
                };
                assert!(at(now) == Some(neu), "{name} at {now:?}: {:?} instead of {neu:?}", at(now));
                if let Some(t) = before { assert!(at(t).is_none(), "{name} at {t:?}: {:?}, not valid", at(t)); }
            }
        }
    }
}

harness! {
}
search! {
    fn p17_document() {
        let d = doc();
        let trim = nd::bool_();
        let mut t = d.text(trim);
        if nd::bool_() { t.pop(); }
        let r = gen::parse(&t).unwrap_or_else(|e| panic!("rejected: {e}"));
        d.check(&r);
        reach!(d.ants.len() == 3);
        reach!(d.ants.iter().any(|a| a.valid.is_some() && matches!(a.kind, Kind::Sv { .. })));
    }
    /// damaged files are rejected or read, never a panic
    fn p17_damaged() {
        let d = doc();
        let b = gen::damage(&d.text(nd::bool_()));
        let _ = Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
    /// known finding: witness of KNOWN_FINDINGS
    fn p17_date() {
        let mut d = doc();
        d.ants.truncate(1);
        d.ants[0].day = (23, 8);
        let t = d.text(false).replace("23-SEP-23", "23-SEP-20");
        let r = gen::parse(&t).unwrap();
        let date = r.record.as_antex().unwrap()[0].0.calibration.date;
        let want = Epoch::from_gregorian_utc_at_midnight(2020, 9, 23);
        assert!(date == want, "23-SEP-20 is {date:?} instead of {want:?}");
    }
    /// known finding: witness of KNOWN_FINDINGS
    fn p17_open_validity() {
        let mut d = doc();
        d.ants.truncate(1);
        let (f, u) = (gen::date(1990, 2000), gen::date(2010, 2020));
        d.ants[0].valid = Some((f, u));
        let t: String = d.text(false).lines().filter(|l| !l.contains("VALID UNTIL")).map(|l| format!("{l}\n")).collect();
        let r = gen::parse(&t).unwrap();
        let before = Epoch::from_gregorian_utc_at_midnight(1980, 1, 10);
        assert!(!r.record.as_antex().unwrap()[0].0.is_valid(before), "valid at {before:?}, before {f:?}");
    }
}
