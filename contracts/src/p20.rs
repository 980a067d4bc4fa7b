//! P20 Meteo RINEX: fixed columns, both ways
use crate::{gen, nd};
use rinex::meteo::{MeteoKey, Sensor};
use rinex::prelude::*;
use std::str::FromStr;

const CODES: [&str; 10] = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"];

struct Doc { major: u8, codes: Vec<&'static str>, sensors: Vec<(usize, String, String, Option<i64>, Option<[i64; 4]>)>, epochs: Vec<(gen::Date, Vec<Option<i64>>)> }

/// F`w`.`d` of v (units of 10^-d)
fn fx(v: i64, w: usize, d: u32) -> String {
    let (a, p) = (v.unsigned_abs(), 10u64.pow(d));
    format!("{:>w$}", format!("{}{}.{:0d$}", if v < 0 { "-" } else { "" }, a / p, a % p, d = d as usize))
}

fn doc() -> Doc {
    let major = nd::pick(&[2u8, 3, 4]);
    let k = nd::r_usize(0, 9);
    let codes: Vec<&str> = (0..nd::r_usize(1, 10)).map(|i| CODES[(k + 3 * i) % 10]).collect();
    let name = |w: usize| -> String {
        let n = if nd::r_u8(0, 2) == 0 { 0 } else { nd::r_usize(1, w) };
        (0..n).map(|_| nd::pick(b"ABCXYZ0189-./") as char).collect()
    };
    let mut sensors = Vec::new();
    for i in 0..codes.len() {
        if nd::bool_() {
            let pos = if nd::bool_() { Some([nd::r_i64(-70_000_000_000, 70_000_000_000), nd::r_i64(-70_000_000_000, 70_000_000_000), nd::r_i64(-70_000_000_000, 70_000_000_000), nd::r_i64(-9_999_999, 99_999_999)]) } else { None };
            sensors.push((i, name(20), name(20), if nd::bool_() { Some(nd::r_i64(0, 99_999)) } else { None }, pos));
        }
    }
    let (y, m) = (nd::r_i32(1980, 2079), nd::r_u8(1, 12));
    let d = nd::r_u8(1, gen::dim(y, m));
    let mut at = 0;
    let epochs = (0..nd::r_usize(1, 3)).map(|_| {
        at += nd::r_u32(1, 400);
        let mut date = gen::Date::minutes(at, y, m, d);
        date.ss = nd::r_u8(0, 59);
        let mut obs: Vec<Option<i64>> = codes.iter().map(|_| match nd::r_u8(0, 3) { 0 => None, 1 => Some(nd::r_i64(-99_999, 999_999)), _ => Some(nd::r_i64(-500, 10_500)) }).collect();
        if obs.iter().all(|o| o.is_none()) { obs[0] = Some(9934); }
        (date, obs)
    }).collect();
    Doc { major, codes, sensors, epochs }
}

impl Doc {
    fn header(&self) -> String {
        let mut s = gen::hl(&format!("{:9}           METEOROLOGICAL DATA", nd_ver(self.major)), "RINEX VERSION / TYPE");
        s += &gen::hl("rust                verif               20240101 000000 UTC", "PGM / RUN BY / DATE");
        s += &gen::hl("SOMEWHERE", "MARKER NAME");
        s += &self.types();
        s += &self.sensor_lines();
        s + &gen::hl("", "END OF HEADER")
    }
    fn types(&self) -> String {
        let mut s = String::new();
        for (i, chunk) in self.codes.chunks(9).enumerate() {
            let mut l = if i == 0 { format!("{:6}", self.codes.len()) } else { " ".repeat(6) };
            for c in chunk { l += &format!("    {c}"); }
            s += &gen::hl(&l, "# / TYPES OF OBSERV");
        }
        s
    }
    fn sensor_lines(&self) -> String {
        let mut s = String::new();
        for (i, model, ty, acc, pos) in &self.sensors {
            let c = self.codes[*i];
            s += &gen::hl(&format!("{model:<20}{ty:<20}      {}    {c} ", acc.map_or(" ".repeat(7), |a| fx(a, 7, 1))), "SENSOR MOD/TYPE/ACC");
            if let Some(p) = pos {
                let mut l: String = p.iter().map(|v| fx(*v, 14, 4)).collect();
                l += &format!(" {c} ");
                s += &gen::hl(&l, "SENSOR POS XYZ/H");
            }
        }
        s
    }
    fn body(&self, trim: bool) -> String {
        let mut s = String::new();
        for (d, obs) in &self.epochs {
            let mut l = if self.major < 3 { format!(" {:02}", d.y % 100) } else { format!(" {:04}", d.y) };
            l += &format!(" {:2} {:2} {:2} {:2} {:2}", d.m, d.d, d.hh, d.mm, d.ss);
            for (i, o) in obs.iter().enumerate() {
                if i == 8 {
                    s += if trim { l.trim_end() } else { &l };
                    s.push('\n');
                    l = " ".repeat(4);
                }
                l += &o.map_or(" ".repeat(7), |v| fx(v, 7, 1));
            }
            s += if trim { l.trim_end() } else { &l };
            s.push('\n');
        }
        s
    }
    fn check(&self, r: &Rinex, what: &str) {
        let h = r.header.meteo.as_ref().unwrap_or_else(|| panic!("{what}: no meteo header"));
        let codes: Vec<String> = h.codes.iter().map(|c| c.to_string()).collect();
        assert!(codes == self.codes, "{what}: observables {codes:?} instead of {:?}", self.codes);
        assert!(h.sensors.len() == self.sensors.len(), "{what}: {} sensors instead of {}", h.sensors.len(), self.sensors.len());
        for (s, (i, model, ty, acc, pos)) in h.sensors.iter().zip(&self.sensors) {
            let some = |s: &String| if s.is_empty() { None } else { Some(s.clone()) };
            assert!(s.observable.to_string() == self.codes[*i] && s.model == some(model) && s.sensor_type == some(ty), "{what}: sensor {s:?} instead of {:?}", (model, ty));
            assert!(s.accuracy == acc.map(|a| fx(a, 7, 1).trim().parse().unwrap()), "{what}: accuracy {:?} instead of {acc:?}", s.accuracy);
            let f = |v: i64| -> f64 { fx(v, 14, 4).trim().parse().unwrap() };
            assert!(s.position == pos.map(|p| (f(p[0]), f(p[1]), f(p[2]))) && s.height == pos.map(|p| f(p[3])), "{what}: position {:?} {:?} instead of {pos:?}", s.position, s.height);
        }
        let rec = r.record.as_meteo().unwrap();
        let mut n = 0;
        for (d, obs) in &self.epochs {
            let epoch = d.epoch(TimeScale::UTC);
            for (c, o) in self.codes.iter().zip(obs) {
                let Some(v) = o else { continue };
                let k = MeteoKey { epoch, observable: Observable::from_str(c).unwrap() };
                let x = rec.get(&k).unwrap_or_else(|| panic!("{what}: {c} of {epoch:?} is missing"));
                let want: f64 = fx(*v, 7, 1).trim().parse().unwrap();
                assert!(*x == want, "{what}: {c} of {epoch:?} is {x} instead of {want}");
                n += 1;
            }
        }
        assert!(rec.len() == n, "{what}: {} observations instead of {n}", rec.len());
    }
}

fn nd_ver(major: u8) -> &'static str {
    match major { 2 => "     2.11", 3 => "     3.03", _ => "     4.00" }
}

harness! {
}
search! {
    fn p20_document() {
        let d = doc();
        let trim = nd::bool_();
        let mut t = d.header() + &d.body(trim);
        if nd::bool_() { t.pop(); }
        let r = gen::parse(&t).unwrap_or_else(|e| panic!("rejected: {e}"));
        d.check(&r, "parsing");
        let f = gen::format(&r).expect("format");
        let (h, b) = f.split_at(f.find("END OF HEADER").unwrap());
        let b = b.split_once('\n').unwrap().1;
        // standard layout, byte for byte
        let trimmed = |s: &str| s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n");
        assert!(trimmed(b) == trimmed(&d.body(true)), "body {b:?} instead of {:?}", d.body(true));
        assert!(h.contains(&trimmed(&d.types())), "header {h:?} should contain {:?}", d.types());
        for l in d.sensor_lines().lines() { assert!(h.contains(l.trim_end()), "header {h:?} should contain {l:?}"); }
        d.check(&gen::parse(&f).unwrap_or_else(|e| panic!("formatted file rejected: {e}")), "formatting");
        reach!(d.codes.len() == 9 && trim);
    }
    fn p20_sensor_total() {
        // any text is a sensor or an error
        let n = nd::r_usize(0, 80);
        let s: String = (0..n).map(|_| nd::pick("    PRTDHI01.-é".chars().collect::<Vec<_>>().as_slice())).collect();
        let _ = Sensor::from_str(&s);
    }
}
