//! P15 IONEX: every point of every map
use crate::{gen, nd};
use rinex::ionex::{MappingFunction, RefSystem, TEC};
use rinex::prelude::*;
use std::collections::BTreeMap;

/// grid in tenths: first, increment, number of points
struct Axis { start: i32, step: i32, n: usize }
impl Axis {
    fn at(&self, i: usize) -> i32 { self.start + self.step * i as i32 }
    fn end(&self) -> i32 { self.at(self.n - 1) }
}
/// F6.1
fn f6(v: i32) -> String {
    let s = format!("{}{}.{}", if v < 0 { "-" } else { "" }, v.abs() / 10, v.abs() % 10);
    format!("{s:>6}")
}
fn tenth(v: i32) -> f64 { v as f64 / 10.0 }

type Point = (usize, usize, usize); // height, latitude, longitude
struct Map { date: gen::Date, exp: Option<i8>, v: BTreeMap<Point, i64> }
struct Doc { h: Axis, lat: Axis, lon: Axis, exp: Option<i8>, tec: Vec<Map>, rms: Vec<Map>, mapf: &'static str, sys: &'static str, desc: &'static str, stations: u32, sats: u32, cutoff: i32, radius: i32 }

fn values(d: &Doc) -> BTreeMap<Point, i64> {
    let mut m = BTreeMap::new();
    let wide = nd::r_u8(0, 3) == 0;
    for h in 0..d.h.n { for a in 0..d.lat.n { for o in 0..d.lon.n {
        if nd::r_u8(0, 15) == 0 { continue; }
        let v = if wide { nd::r_i64(-999, 99_999) } else { nd::r_i64(0, 800) };
        if v != 9999 { m.insert((h, a, o), v); }
    } } }
    m
}

fn doc() -> Doc {
    let lat = if nd::bool_() { Axis { start: 875 - 25 * nd::r_i32(0, 60), step: -25, n: nd::r_usize(1, 3) } } else { Axis { start: nd::r_i32(-600, 600), step: nd::pick(&[-50, 50, 1, 25, 13]), n: nd::r_usize(1, 3) } };
    let lon = if nd::bool_() { Axis { start: -1800, step: 50, n: nd::r_usize(1, 35) } } else { Axis { start: nd::r_i32(-1800, 0), step: nd::pick(&[50, 100, 3, 7]), n: nd::r_usize(1, 18) } };
    let h = if nd::bool_() { Axis { start: nd::pick(&[4500, 3500, 5067]), step: 0, n: 1 } } else { Axis { start: nd::r_i32(2000, 4000), step: nd::pick(&[500, 255]), n: nd::r_usize(2, 3) } };
    let mut d = Doc { h, lat, lon, exp: if nd::bool_() { Some(nd::r_i32(-4, 1) as i8) } else { None }, tec: vec![], rms: vec![],
        mapf: nd::pick(&["COSZ", "QFAC", "NONE"]), sys: nd::pick(&["GPS", "MIX"]), desc: nd::pick(&["", "Global maps"]),
        stations: nd::r_u32(0, 999), sats: nd::r_u32(0, 99), cutoff: nd::r_i32(0, 300), radius: nd::r_i32(60000, 64000) };
    let (y, m) = (nd::r_i32(1995, 2035), nd::r_u8(1, 12));
    let day = nd::r_u8(1, gen::dim(y, m));
    let n = nd::r_usize(1, 3);
    let with_rms = nd::bool_();
    let mut at = nd::r_u32(0, 3) * 60;
    for _ in 0..n {
        let date = gen::Date::minutes(at, y, m, day);
        let exp = if nd::r_u8(0, 4) == 0 { Some(nd::r_i32(-4, 1) as i8) } else { None };
        let v = values(&d);
        if with_rms {
            let rms = v.keys().filter(|_| nd::r_u8(0, 5) > 0).map(|k| (*k, nd::r_i64(0, 500))).collect();
            d.rms.push(Map { date, exp: if nd::r_u8(0, 4) == 0 { Some(nd::r_i32(-4, 1) as i8) } else { None }, v: rms });
        }
        d.tec.push(Map { date, exp, v });
        at += nd::pick(&[15, 60, 120]);
    }
    d
}

fn date6(d: &gen::Date) -> String {
    format!("{:6}{:6}{:6}{:6}{:6}{:6}", d.y, d.m, d.d, d.hh, d.mm, d.ss)
}

impl Doc {
    fn header(&self) -> String {
        let mut s = gen::hl(&format!("     1.0            IONOSPHERE MAPS     {}", self.sys), "IONEX VERSION / TYPE");
        s += &gen::hl("rust                verif               01-JAN-24 00:00", "PGM / RUN BY / DATE");
        if !self.desc.is_empty() { s += &gen::hl(self.desc, "DESCRIPTION"); }
        s += &gen::hl(&date6(&self.tec[0].date), "EPOCH OF FIRST MAP");
        s += &gen::hl(&date6(&self.tec[self.tec.len() - 1].date), "EPOCH OF LAST MAP");
        s += &gen::hl("  3600", "INTERVAL");
        s += &gen::hl(&format!("{:6}", self.tec.len()), "# OF MAPS IN FILE");
        s += &gen::hl(&format!("  {}", self.mapf), "MAPPING FUNCTION");
        s += &gen::hl(&format!("  {}", f6(self.cutoff)), "ELEVATION CUTOFF");
        s += &gen::hl("double-difference carrier phase", "OBSERVABLES USED");
        s += &gen::hl(&format!("{:6}", self.stations), "# OF STATIONS");
        s += &gen::hl(&format!("{:6}", self.sats), "# OF SATELLITES");
        s += &gen::hl(&format!("  {}", f6(self.radius)), "BASE RADIUS");
        s += &gen::hl(&format!("{:6}", if self.h.n > 1 { 3 } else { 2 }), "MAP DIMENSION");
        for (a, l) in [(&self.h, "HGT1 / HGT2 / DHGT"), (&self.lat, "LAT1 / LAT2 / DLAT"), (&self.lon, "LON1 / LON2 / DLON")] {
            // the fields are glued when they are wide
            s += &gen::hl(&format!("  {}{}{}", f6(a.start), f6(a.end()), f6(a.step)), l);
        }
        if let Some(e) = self.exp { s += &gen::hl(&format!("{e:6}"), "EXPONENT"); }
        s + &gen::hl("", "END OF HEADER")
    }
    fn body(&self) -> String {
        let mut s = String::new();
        for (maps, kind) in [(&self.tec, "TEC"), (&self.rms, "RMS")] {
            for (i, m) in maps.iter().enumerate() {
                s += &gen::hl(&format!("{:6}", i + 1), &format!("START OF {kind} MAP"));
                s += &gen::hl(&date6(&m.date), "EPOCH OF CURRENT MAP");
                if let Some(e) = m.exp { s += &gen::hl(&format!("{e:6}"), "EXPONENT"); }
                for h in 0..self.h.n { for a in 0..self.lat.n {
                    s += &gen::hl(&format!("  {}{}{}{}{}", f6(self.lat.at(a)), f6(self.lon.start), f6(self.lon.end()), f6(self.lon.step), f6(self.h.at(h))), "LAT/LON1/LON2/DLON/H");
                    for o in 0..self.lon.n {
                        s += &format!("{:5}", m.v.get(&(h, a, o)).copied().unwrap_or(9999));
                        if o % 16 == 15 || o == self.lon.n - 1 { s.push('\n'); }
                    }
                } }
                s += &gen::hl(&format!("{:6}", i + 1), &format!("END OF {kind} MAP"));
            }
        }
        s + &gen::hl("", "END OF FILE")
    }
    fn check(&self, r: &Rinex) {
        let h = r.header.ionex.as_ref().expect("header");
        assert!(r.is_ionex() && r.is_ionex_2d() == (self.h.n == 1) && r.is_ionex_3d() == (self.h.n > 1), "dimension {}", h.map_dimension);
        assert!(h.number_of_maps == self.tec.len() && h.nb_stations == self.stations && h.nb_satellites == self.sats, "{} maps, {} stations, {} satellites instead of {} {} {}", h.number_of_maps, h.nb_stations, h.nb_satellites, self.tec.len(), self.stations, self.sats);
        assert!(h.epoch_of_first_map == self.tec[0].date.epoch(TimeScale::UTC) && h.epoch_of_last_map == self.tec[self.tec.len() - 1].date.epoch(TimeScale::UTC), "first and last epochs");
        assert!(h.mapping == match self.mapf { "COSZ" => Some(MappingFunction::CosZ), "QFAC" => Some(MappingFunction::QFac), _ => None }, "mapping function {:?} instead of {}", h.mapping, self.mapf);
        assert!(h.elevation_cutoff == self.cutoff as f32 / 10.0 && h.base_radius == self.radius as f32 / 10.0, "elevation cutoff {} base radius {}", h.elevation_cutoff, h.base_radius);
        assert!(h.exponent == self.exp.unwrap_or(-1), "exponent {}", h.exponent);
        assert!(h.description.as_deref().unwrap_or("") == self.desc && h.observables.as_deref() == Some("double-difference carrier phase"), "description");
        assert!(h.reference == if self.sys == "GPS" { RefSystem::GnssConstellation(Constellation::GPS) } else { RefSystem::GnssConstellation(Constellation::Mixed) }, "reference {:?}", h.reference);
        for (g, a, n) in [(&h.grid.height, &self.h, "height"), (&h.grid.latitude, &self.lat, "latitude"), (&h.grid.longitude, &self.lon, "longitude")] {
            assert!(g.start == tenth(a.start) && g.end == tenth(a.end()) && g.spacing == tenth(a.step), "{n} grid {g:?} instead of {} {} {}", a.start, a.end(), a.step);
        }
        // oracle: (epoch, height, latitude, longitude) in tenths
        let mut want: BTreeMap<(Epoch, i32, i32, i32), (f64, Option<f64>)> = BTreeMap::new();
        let mut last = Vec::new();
        let mut e = self.exp.unwrap_or(-1);
        for (i, m) in self.tec.iter().enumerate() {
            e = m.exp.unwrap_or(e);
            for ((ih, ia, io), v) in &m.v {
                let k = (m.date.epoch(TimeScale::UTC), self.h.at(*ih), self.lat.at(*ia), self.lon.at(*io));
                want.insert(k, (scale(*v, e), None));
                if i == self.tec.len() - 1 { last.push(k); }
            }
        }
        for m in &self.rms {
            e = m.exp.unwrap_or(e);
            for ((ih, ia, io), v) in &m.v {
                let k = (m.date.epoch(TimeScale::UTC), self.h.at(*ih), self.lat.at(*ia), self.lon.at(*io));
                want.get_mut(&k).unwrap().1 = Some(scale(*v, e));
            }
        }
        let rec = r.record.as_ionex().unwrap();
        let mut got = BTreeMap::new();
        for (k, t) in rec {
            let c = |x: f64| -> i32 { let y = (x * 10.0).round(); assert!((y - x * 10.0).abs() < 1e-6, "coordinate {x}"); y as i32 };
            let k = (k.epoch, c(k.coordinates.altitude_km()), c(k.coordinates.latitude_ddeg()), c(k.coordinates.longitude_ddeg()));
            assert!(got.insert(k, t).is_none(), "{k:?} twice");
        }
        // finding: the last TEC map is dropped
        if last.iter().all(|k| !got.contains_key(k)) { for k in &last { want.remove(k); } }
        for (k, (v, rms)) in &want {
            let t = got.remove(k).unwrap_or_else(|| panic!("{k:?} is missing"));
            assert!(close(t.tecu(), *v), "{k:?}: {} TECu instead of {v}", t.tecu());
            match (t.rms_tec(), rms) {
                (None, None) => {},
                (Some(a), Some(b)) if close(a, *b) => {},
                (a, b) => panic!("{k:?}: rms {a:?} instead of {b:?}"),
            }
        }
        assert!(got.is_empty(), "{:?} does not exist in the file", got.keys().next());
        assert!(r.ionex_tec_maps_iter().count() == want.len() && r.ionex_tec_maps_keys().count() == want.len(), "iterators");
        assert!(r.ionex_rms_tec_maps_iter().count() == want.values().filter(|(_, r)| r.is_some()).count(), "rms iterator");
        let b = r.tec_map_borders().unwrap();
        assert!(b == ((tenth(self.lat.start), tenth(self.lat.end())), (tenth(self.lon.start), tenth(self.lon.end()))), "borders {b:?}");
        assert!(r.ionex_altitude_range_km() == Some((tenth(self.h.start), tenth(self.h.end()))), "altitudes");
        assert!(r.ionex_2d_fixed_altitude_km() == if self.h.n == 1 { Some(tenth(self.h.start)) } else { None }, "altitude");
    }
}
fn scale(v: i64, e: i8) -> f64 { v as f64 * 10f64.powi(e as i32) }
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-12 * (1.0 + b.abs()) }

harness! {
}
search! {
    fn p15_document() {
        let d = doc();
        let r = gen::parse(&format!("{}{}", d.header(), d.body())).unwrap_or_else(|e| panic!("rejected: {e}"));
        d.check(&r);
        reach!(d.tec.len() > 1 && !d.rms.is_empty() && d.h.n > 1);
    }
    fn p15_total() {
        // a damaged file is parsed or rejected: never a panic
        let d = doc();
        let mut c: Vec<char> = d.body().chars().collect();
        for _ in 0..nd::r_usize(1, 4) {
            if c.is_empty() { break; }
            let i = nd::r_usize(0, c.len() - 1);
            match nd::r_u8(0, 3) {
                0 => { c.truncate(i); },
                1 => { c[i] = nd::pick(&[' ', '\n', 'A', '9', '-', 'é']); },
                2 => { c.insert(i, '\n'); },
                _ => { let j = (i + nd::r_usize(1, 100)).min(c.len()); c.drain(i..j); },
            }
        }
        let b: String = c.into_iter().collect();
        let _ = gen::parse(&format!("{}{b}", d.header()));
    }
    fn p15_tecu() {
        // a TEC expressed in TECu with up to 6 digits is held exactly
        let v = nd::r_i64(-999_999, 9_999_999);
        let e = nd::r_i32(0, 6);
        let x = v as f64 / 10f64.powi(e);
        assert!(close(TEC::from_tecu(x).tecu(), x), "{x} TECu is {}", TEC::from_tecu(x).tecu());
        let t = TEC::from_tecu(1.0).with_rms(x.abs());
        assert!(t.rms_tec().map(|r| close(r, x.abs())) == Some(true) && t.tecu() == 1.0, "rms {x} is {:?}", t.rms_tec());
        let m = TEC::from_tec_m2(x * 1e16).tec();
        assert!((m - x * 1e16).abs() <= 1e-9 * (1.0 + x.abs() * 1e16), "{x}e16 is {m}");
    }
    /// known finding: witness of KNOWN_FINDINGS
    fn p15_last_map() {
        let mut d = doc();
        d.tec.truncate(1);
        d.rms.clear();
        if d.tec[0].v.is_empty() { d.tec[0].v.insert((0, 0, 0), 100); }
        let r = gen::parse(&format!("{}{}", d.header(), d.body())).unwrap();
        let n = r.record.as_ionex().unwrap().len();
        assert!(n == d.tec[0].v.len(), "{n} points instead of {}", d.tec[0].v.len());
    }
    /// known finding: witness of KNOWN_FINDINGS
    fn p15_tec_m2() {
        let t = TEC::from_tecu(1.0).tec();
        assert!(t == 1e16, "1 TECu is {t} instead of 1e16 electrons per square meter");
    }
}
