//! P25 DORIS measurements
use crate::{gen, nd};
use rinex::doris::{DorisKey, SignalKey};
use rinex::observation::EpochFlag;
use rinex::prelude::*;
use std::str::FromStr;

const CODES: [&str; 10] = ["L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"];

struct Measure { date: gen::Date, flag: u8, clock: Option<i64>, extrapolated: char, stations: Vec<(usize, Vec<gen::Obs>)> }
struct Doc { codes: Vec<&'static str>, scaled: Vec<(&'static str, u16)>, offset: Option<i64>, first: gen::Date, stations: Vec<(u16, String)>, epochs: Vec<Measure>, satellite: String }

fn nanos(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{:>13}", format!("{}{}.{:09}", if v < 0 { "-" } else { "" }, a / 1_000_000_000, a % 1_000_000_000))
}

fn doc() -> Doc {
    let k = nd::r_usize(0, 9);
    let codes: Vec<&str> = (0..nd::r_usize(1, 10)).map(|i| CODES[(k + i) % 10]).collect();
    let scaled = codes.iter().filter(|c| c.starts_with('C')).map(|c| (*c, nd::pick(&[1u16, 10, 100, 1000, 9999]))).collect();
    let mut key = nd::r_u16(0, 3);
    let stations: Vec<(u16, String)> = (0..nd::r_usize(1, 6)).map(|_| {
        let label: String = (0..4).map(|_| nd::pick(b"ABCXYZ14") as char).collect();
        let site: String = format!("A{}Z", nd::pick(&["", "DELIE", " B", "IUFENGAAAAAAAAAAAAAAAAAAAAA"]));
        let t = format!("D{key:02}  {label} {site:<29} {:03}{:02}{}{:03}  {} {:3}", nd::r_u16(0, 999), nd::r_u8(1, 99), nd::pick(&['M', 'S']), nd::r_u16(1, 999), nd::r_u8(1, 9), nd::r_i32(-99, 99));
        let r = (key, t);
        key += nd::r_u16(1, 15);
        r
    }).collect();
    let date = gen::date(1993, 2070);
    let mut at = 0;
    let epochs = (0..nd::r_usize(1, 3)).map(|_| {
        at += nd::r_u32(1, 400);
        let mut d = gen::Date::minutes(at, date.y, date.m, date.d);
        d.ss = nd::r_u8(0, 59);
        d.f = if nd::bool_() { 0 } else { nd::r_u32(0, 9_999_999) };
        let mut seen: Vec<usize> = (0..stations.len()).filter(|_| nd::r_u8(0, 2) != 0).collect();
        if nd::bool_() { seen.reverse(); }
        let flag_of = || if nd::bool_() { None } else { Some(nd::r_u8(0, 9)) };
        let seen = seen.into_iter().map(|i| (i, codes.iter().map(|_| if nd::r_u8(0, 3) == 0 { None } else { Some((gen::value(), flag_of(), flag_of())) }).collect())).collect();
        Measure { date: d, flag: nd::pick(&[0u8, 0, 0, 1]), clock: if nd::r_u8(0, 3) == 0 { None } else { Some(nd::r_i64(-9_999_999_999, 99_999_999_999)) }, extrapolated: nd::pick(&['0', '1', ' ']), stations: seen }
    }).collect();
    let satellite = nd::pick(&["CRYOSAT-2", "JASON-3", "A", "SENTINEL 3A"]).to_string();
    Doc { codes, scaled, offset: if nd::bool_() { Some(nd::r_i64(-99_999, 999_999)) } else { None }, first: date, stations, epochs, satellite }
}

impl Doc {
    fn text(&self, trim: bool) -> String {
        let mut s = gen::hl("     3.00           O                   D", "RINEX VERSION / TYPE");
        s += &gen::hl("Expert              CNES                20180614 090016 UTC", "PGM / RUN BY / DATE");
        s += &gen::hl(&self.satellite, "SATELLITE NAME");
        let l: String = self.codes.iter().map(|c| if c.len() == 2 { format!("  {c}") } else { format!("   {c}") }).collect();
        s += &gen::hl(&format!("D  {:3}{l}", self.codes.len()), "SYS / # / OBS TYPES");
        let d = &self.first;
        s += &gen::hl(&format!("  {:04}    {:02}    {:02}    {:02}    {:02}   {:2}.{:07}     DOR", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f), "TIME OF FIRST OBS");
        for (c, f) in &self.scaled { s += &gen::hl(&format!("D {f:4}   1  {c}"), "SYS / SCALE FACTOR"); }
        if let Some(o) = self.offset { s += &gen::hl(&format!("D  {}", gen::f14_3(o)), "L2 / L1 DATE OFFSET"); }
        s += &gen::hl(&format!("{:6}", self.stations.len()), "# OF STATIONS");
        for (_, t) in &self.stations { s += &gen::hl(t, "STATION REFERENCE"); }
        s += &gen::hl("", "END OF HEADER");
        for e in &self.epochs {
            let d = &e.date;
            s += &format!("> {:04} {:02} {:02} {:02} {:02} {:2}.{:07}00  {}{:3}      {} {} \n", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f, e.flag, e.stations.len(), e.clock.map_or(" ".repeat(13), nanos), e.extrapolated);
            for (i, obs) in &e.stations {
                for (n, chunk) in obs.chunks(5).enumerate() {
                    let mut l = if n == 0 { format!("D{:02}", self.stations[*i].0) } else { "   ".to_string() };
                    for o in chunk {
                        let digit = |d: Option<u8>| d.map_or(' ', |d| (b'0' + d) as char);
                        l += &o.map_or(" ".repeat(16), |(v, a, b)| format!("{}{}{}", gen::f14_3(v), digit(a), digit(b)));
                    }
                    s += if trim { l.trim_end() } else { &l };
                    s.push('\n');
                }
            }
        }
        s
    }
    fn check(&self, r: &Rinex) {
        let h = r.header.doris.as_ref().expect("no DORIS header");
        assert!(h.satellite == self.satellite, "satellite {:?} instead of {:?}", h.satellite, self.satellite);
        assert!(h.timeof_first_obs == Some(self.first.epoch(TimeScale::TAI)), "first observation {:?} instead of {:?}", h.timeof_first_obs, self.first);
        let codes: Vec<Observable> = self.codes.iter().map(|c| Observable::from_str(c).unwrap()).collect();
        assert!(h.observables == codes, "observables {:?} instead of {codes:?}", h.observables);
        assert!(h.scaling.len() == self.scaled.len() && self.scaled.iter().all(|(c, f)| h.scaling.get(&Observable::from_str(c).unwrap()) == Some(f)), "scaling {:?} instead of {:?}", h.scaling, self.scaled);
        let offset = Duration::from_nanoseconds(self.offset.unwrap_or(0) as f64);
        assert!(h.u2_s1_time_offset == offset, "time offset {:?} instead of {offset:?}", h.u2_s1_time_offset);
        let stations: Vec<Station> = self.stations.iter().map(|(_, t)| Station::from_str(t).unwrap()).collect();
        assert!(h.stations == stations, "stations {:?} instead of {stations:?}", h.stations);
        for (s, (k, _)) in stations.iter().zip(&self.stations) { assert!(s.to_string().starts_with(&format!("D{k:02} ")), "station {s} instead of D{k:02}"); }
        let rec = r.record.as_doris().expect("no DORIS record");
        assert!(rec.len() == self.epochs.len(), "{} epochs instead of {}", rec.len(), self.epochs.len());
        for e in &self.epochs {
            let k = DorisKey { epoch: e.date.epoch(TimeScale::TAI), flag: EpochFlag::from_str(&e.flag.to_string()).unwrap() };
            let o = rec.get(&k).unwrap_or_else(|| panic!("{k:?} is missing"));
            let clock: f64 = e.clock.map_or(0.0, |c| nanos(c).trim().parse().unwrap());
            assert!(o.clock.offset_s == clock, "{k:?}: clock {} instead of {clock}", o.clock.offset_s);
            assert!(o.clock_extrapolated == (e.extrapolated == '1'), "{k:?}: extrapolated {}", o.clock_extrapolated);
            let mut n = 0;
            for (i, obs) in &e.stations {
                for (c, v) in codes.iter().zip(obs) {
                    let Some((v, a, b)) = v else { continue };
                    n += 1;
                    let key = SignalKey { observable: c.clone(), station: stations[*i].clone() };
                    let s = o.signals.get(&key).unwrap_or_else(|| panic!("{c} of D{:02} is missing", self.stations[*i].0));
                    let want: f64 = gen::f14_3(*v).trim().parse().unwrap();
                    assert!(s.value == want && s.m1 == *a && s.m2 == *b, "{c} of D{:02}: {s:?} instead of {want} {a:?} {b:?}", self.stations[*i].0);
                }
            }
            assert!(o.signals.len() == n, "{} measurements instead of {n}", o.signals.len());
        }
    }
}

harness! {
}
search! {
    fn p25_document() {
        let d = doc();
        let trim = nd::bool_();
        let mut t = d.text(trim);
        if nd::bool_() { t.pop(); }
        let r = gen::parse(&t).unwrap_or_else(|e| panic!("rejected: {e}"));
        d.check(&r);
        reach!(d.codes.len() == 10 && trim);
    }
    /// damaged files are rejected or read, never a panic
    fn p25_damaged() {
        let d = doc();
        let b = gen::damage(&d.text(nd::bool_()));
        let _ = Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
}
