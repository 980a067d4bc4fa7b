//! P19 Clock RINEX: every record, in every revision
use crate::{gen, nd};
use rinex::clock::{ClockKey, ClockProfileType, ClockType};
use rinex::prelude::*;
use std::collections::BTreeMap;
use std::str::FromStr;

const TYPES: [&str; 5] = ["AR", "AS", "CR", "DR", "MS"];

struct Rec { date: gen::Date, ty: &'static str, name: String, v: Vec<String> }
struct Doc { wide: bool, version: &'static str, sys: &'static str, ts: Option<(&'static str, TimeScale)>, types: Vec<&'static str>, refs: Vec<(String, Option<String>, Option<String>)>, recs: Vec<Rec> }

/// E19.12
fn e19() -> String {
    let m = nd::r_i64(0, 999_999_999_999);
    let e = nd::r_i32(-18, 3);
    format!("{:>19}", format!("{}0.{m:012}E{}{:02}", if nd::bool_() { "-" } else { "" }, if e < 0 { '-' } else { '+' }, e.abs()))
}

fn station(wide: bool) -> String {
    let a = b"ABCDHKLMNOPQTUVWXYZ";
    let mut s: String = (0..4).map(|i| if i > 1 && nd::bool_() { nd::pick(b"0123456789") as char } else { nd::pick(a) as char }).collect();
    if wide && nd::bool_() { s += nd::pick(&["00USA", "01FRA", "10KOR"]); }
    s
}

fn domes() -> String {
    format!("{:05}{}{:03}", nd::r_u32(0, 99_999), nd::pick(&["M", "S"]), nd::r_u32(0, 999))
}

fn doc() -> Doc {
    let version = nd::pick(&["2.00", "3.00", "3.02", "3.04"]);
    let wide = version == "3.04";
    let ts = if nd::r_u8(0, 3) == 0 { None } else {
        Some(nd::pick(&[("GPS", TimeScale::GPST), ("UTC", TimeScale::UTC), ("TAI", TimeScale::TAI), ("GAL", TimeScale::GST), ("BDT", TimeScale::BDT), ("QZS", TimeScale::QZSST), ("GLO", TimeScale::UTC)]))
    };
    let sys = nd::pick(&["G", "E", "C", "M", ""]);
    let (y, m) = (nd::r_i32(1994, 2035), nd::r_u8(1, 12));
    let d = nd::r_u8(1, gen::dim(y, m));
    let mut at = 0;
    let mut recs: Vec<Rec> = Vec::new();
    for _ in 0..nd::r_usize(1, 4) {
        at += nd::r_u32(1, 300);
        let mut date = gen::Date::minutes(at, y, m, d);
        date.ss = nd::r_u8(0, 59);
        // F10.6
        if nd::r_u8(0, 2) == 0 { date.f = nd::r_u32(0, 999_999) * 10; }
        for _ in 0..nd::r_usize(1, 4) {
            let ty = nd::pick(&TYPES);
            let name = if ty == "AS" || ty == "MS" { format!("{}{:02}", nd::pick(&gen::SYS), nd::r_u8(1, 36)) } else { station(wide) };
            if recs.iter().any(|r| r.date == date && r.ty == ty && r.name == name) { continue; }
            let n = if nd::bool_() { nd::r_usize(1, 2) } else { nd::r_usize(1, 6) };
            recs.push(Rec { date, ty, name, v: (0..n).map(|_| e19()).collect() });
        }
    }
    let types = TYPES.iter().copied().filter(|t| recs.iter().any(|r| r.ty == *t)).collect();
    let refs = (0..nd::r_usize(0, 2)).map(|_| (station(wide), if nd::bool_() { Some(domes()) } else { None }, if nd::bool_() { Some(e19()) } else { None })).collect();
    Doc { wide, version, sys, ts, types, refs, recs }
}

impl Doc {
    fn hl(&self, c: &str, l: &str) -> String {
        if self.wide { format!("{c:<65}{l:<20}\n") } else { gen::hl(c, l) }
    }
    fn text(&self) -> String {
        let mut s = if self.wide { self.hl(&format!("{}                 C                    {}", self.version, self.sys), "RINEX VERSION / TYPE") } else { self.hl(&format!("     {}           CLOCK DATA          {}", self.version, self.sys), "RINEX VERSION / TYPE") };
        s += &self.hl("rust                verif               20240101 000000 UTC", "PGM / RUN BY / DATE");
        if let Some((n, _)) = self.ts { s += &self.hl(&format!("   {n}"), "TIME SYSTEM ID"); }
        let mut l = format!("{:6}", self.types.len());
        for t in &self.types { l += &format!("    {t}"); }
        s += &self.hl(&l, "# / TYPES OF DATA");
        s += &self.hl("USN  USNO USING GIPSY/OASIS-II", "ANALYSIS CENTER");
        s += &self.hl(&format!("{:6}", self.refs.len()), "# OF CLK REF");
        for (n, d, c) in &self.refs {
            let (d, c) = (d.clone().unwrap_or_default(), c.clone().unwrap_or_default());
            s += &if self.wide { self.hl(&format!("{n:<9} {d:<10}{:21}{c:<19}", ""), "ANALYSIS CLK REF") } else { self.hl(&format!("{n:<4} {d:<20}{:15}{c:<19}", ""), "ANALYSIS CLK REF") };
        }
        s += &self.hl("", "END OF HEADER");
        for r in &self.recs {
            let d = &r.date;
            let w = if self.wide { 9 } else { 4 };
            s += &format!("{} {:<w$} {:4} {:02} {:02} {:02} {:02} {:2}.{:06}{:3}   {}", r.ty, r.name, d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f / 10, r.v.len(), r.v[0]);
            let sep = if self.wide { "  " } else { " " };
            if r.v.len() > 1 { s += &format!("{sep}{}", r.v[1]); }
            s.push('\n');
            if r.v.len() > 2 {
                s += "    ";
                s += &r.v[2..].join(sep);
                s.push('\n');
            }
        }
        s
    }
    fn check(&self, r: &Rinex) {
        let ts = self.ts.map(|(_, t)| t).unwrap_or(match self.sys { "E" => TimeScale::GST, "C" => TimeScale::BDT, _ => TimeScale::GPST });
        let h = r.header.clock.as_ref().unwrap();
        let codes: Vec<String> = h.codes.iter().map(|c| c.to_string()).collect();
        assert!(codes == self.types, "types {codes:?} instead of {:?}", self.types);
        assert!(h.igs.as_deref() == Some("USN") && h.full_name.as_deref() == Some("USNO USING GIPSY/OASIS-II"), "analysis center");
        assert!(h.work_clock.len() == self.refs.len(), "{} reference clocks instead of {}", h.work_clock.len(), self.refs.len());
        for (w, (n, d, c)) in h.work_clock.iter().zip(&self.refs) {
            assert!(w.name == *n && w.domes.as_ref().map(|x| x.to_string()) == *d, "reference clock {w:?} instead of {n} {d:?}");
            assert!(w.constraint == c.as_ref().map(|c| c.trim().parse().unwrap()), "constraint {:?} instead of {c:?}", w.constraint);
        }
        let rec = r.record.as_clock().unwrap();
        let mut want: BTreeMap<Epoch, BTreeMap<ClockKey, &Rec>> = BTreeMap::new();
        for x in &self.recs {
            let clock_type = if x.ty == "AS" || x.ty == "MS" { ClockType::SV(SV::from_str(&x.name).unwrap()) } else { ClockType::Station(x.name.clone()) };
            let k = ClockKey { clock_type, profile_type: ClockProfileType::from_str(x.ty).unwrap() };
            assert!(k.profile_type.to_string() == x.ty);
            want.entry(x.date.epoch(ts)).or_default().insert(k, x);
        }
        assert!(rec.len() == want.len(), "{} epochs instead of {}", rec.len(), want.len());
        for ((t, ks), (u, ws)) in rec.iter().zip(&want) {
            assert!(t == u && t.time_scale == u.time_scale, "epoch {t:?} instead of {u:?}");
            assert!(ks.len() == ws.len(), "{t:?}: {} profiles instead of {}", ks.len(), ws.len());
            for ((k, p), (l, x)) in ks.iter().zip(ws) {
                assert!(k == l, "{t:?}: {k:?} instead of {l:?}");
                let f = |i: usize| -> Option<f64> { x.v.get(i).map(|s| s.trim().parse().unwrap()) };
                let got = [Some(p.bias), p.bias_dev, p.drift, p.drift_dev, p.drift_change, p.drift_change_dev];
                assert!((0..6).all(|i| got[i].map(f64::to_bits) == f(i).map(f64::to_bits)), "{t:?} {k:?}: {got:?} instead of {:?}", x.v);
            }
        }
        // the iterators partition the record
        let sv: Vec<_> = r.precise_sv_clock().map(|(t, s, p, x)| (t, ClockKey { clock_type: ClockType::SV(s), profile_type: p }, x)).collect();
        let st: Vec<_> = r.precise_station_clock().map(|(t, s, p, x)| (t, ClockKey { clock_type: ClockType::Station(s), profile_type: p }, x)).collect();
        assert!(sv.len() + st.len() == self.recs.len(), "{} vehicle and {} station clocks", sv.len(), st.len());
        for (t, k, x) in sv.iter().chain(&st) { assert!(rec[t][k] == *x); }
    }
}

harness! {
}
search! {
    fn p19_document() {
        let d = doc();
        let mut t = d.text();
        if nd::bool_() { t = t.lines().map(|l| format!("{}\n", l.trim_end())).map(|l| if l.len() < 61 && l.contains("END") { format!("{l:<60}") } else { l }).collect(); }
        let r = gen::parse(&t).unwrap_or_else(|e| panic!("rejected: {e}"));
        d.check(&r);
        reach!(d.wide && d.recs.iter().any(|r| r.v.len() == 6));
    }
    fn p19_total() {
        // a damaged file is parsed or rejected: never a panic
        let d = doc();
        let t = d.text();
        let (h, b) = t.split_at(t.find("END OF HEADER").unwrap() + 21);
        let mut c: Vec<char> = b.chars().collect();
        for _ in 0..nd::r_usize(1, 4) {
            if c.is_empty() { break; }
            let i = nd::r_usize(0, c.len() - 1);
            match nd::r_u8(0, 3) {
                0 => { c.truncate(i); },
                1 => { c[i] = nd::pick(&[' ', '\n', 'A', '9', '-', 'é']); },
                2 => { c.insert(i, '\n'); },
                _ => { let j = (i + nd::r_usize(1, 40)).min(c.len()); c.drain(i..j); },
            }
        }
        let b: String = c.into_iter().collect();
        let _ = gen::parse(&format!("{h}{b}"));
    }
}
