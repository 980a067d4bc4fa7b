//! P24 CRINEX: compression is lossless, and standard
use crate::gen::{self, Obs, ObsDoc};
use crate::nd;
use std::collections::BTreeMap;

/// several epochs of the same vehicles, that come and go
fn history(major: u8, deep: bool) -> ObsDoc {
    let mut d = gen::obs_doc(major);
    if !deep { return d; }
    d.epochs.truncate(1);
    let codes: BTreeMap<char, usize> = d.codes.iter().map(|(c, l)| (*c, l.len())).collect();
    let first = d.epochs[0].clone();
    let mut all: BTreeMap<String, Vec<Obs>> = first.sats.iter().cloned().collect();
    if all.len() < 2 {
        let c = d.codes[0].0;
        all.insert(format!("{c}21"), vec![Some((21_000_000_123, None, Some(5))); codes[&c]]);
    }
    let mut at = first.date.hh as u32 * 60 + first.date.mm as u32;
    for _ in 0..nd::r_usize(1, 6) {
        let mut e = first.clone();
        at += nd::pick(&[1u32, 1, 1, 30]);
        let (ss, f) = (e.date.ss, e.date.f);
        e.date = gen::Date::minutes(at, first.date.y, first.date.m, first.date.d);
        (e.date.ss, e.date.f) = if nd::bool_() { (ss, f) } else { (nd::r_u8(0, 59), nd::r_u32(0, 9_999_999)) };
        e.flag = if nd::r_u8(0, 9) == 0 { nd::pick(&[1u8, 6]) } else { 0 };
        e.sats.clear();
        for (sv, obs) in all.iter_mut() {
            if nd::r_u8(0, 3) == 0 { continue; }
            for o in obs.iter_mut() {
                *o = match (nd::r_u8(0, 9), *o) {
                    (0, _) => None,
                    (1, _) | (_, None) => Some((gen::value(), None, Some(nd::r_u8(0, 9)))),
                    (2, Some((v, _, _))) => Some(((v + 1).min(9_999_999_999_999), nd::pick(&[None, Some(0), Some(1), Some(4), Some(7)]), nd::pick(&[None, Some(0), Some(5), Some(9)]))),
                    (3, Some((v, ..))) => Some((v, None, None)),
                    (_, Some((v, l, s))) => Some(((v + nd::r_i64(-200_000, 200_000)).clamp(-999_999_999_999, 9_999_999_999_999), l, s)),
                };
            }
            e.sats.push((sv.clone(), obs.clone()));
        }
        if e.sats.iter().all(|(_, o)| o.iter().all(|x| x.is_none())) {
            let (sv, obs) = all.iter_mut().next().unwrap();
            obs[0] = Some((1234, None, None));
            e.sats = vec![(sv.clone(), obs.clone())];
        }
        if major > 2 && nd::bool_() { e.sats.reverse(); }
        d.epochs.push(e);
    }
    d
}

/// text difference of the standard
fn text_diff(old: &str, new: &str) -> String {
    let (a, b) = (old.as_bytes(), new.as_bytes());
    let s: String = (0..a.len().max(b.len())).map(|i| {
        let (x, y) = (*a.get(i).unwrap_or(&b' '), *b.get(i).unwrap_or(&b' '));
        if x == y { ' ' } else if y == b' ' { '&' } else { y as char }
    }).collect();
    s.trim_end().to_string()
}
fn text_undiff(old: &str, diff: &str) -> String {
    let (a, b) = (old.as_bytes(), diff.as_bytes());
    (0..a.len().max(b.len())).map(|i| match *b.get(i).unwrap_or(&b' ') { b' ' => *a.get(i).unwrap_or(&b' ') as char, b'&' => ' ', c => c as char }).collect()
}

/// numerical difference of the standard: order, number of points, last differences
#[derive(Clone)]
struct Arc { order: usize, d: Vec<i64> }
impl Arc {
    fn next(&mut self, v: i64) -> i64 {
        let mut n = vec![v];
        for i in 0..self.d.len().min(self.order) { n.push(n[i] - self.d[i]); }
        self.d = n;
        *self.d.last().unwrap()
    }
    fn back(&mut self, diff: i64) -> i64 {
        let k = self.d.len().min(self.order);
        let mut n = vec![0; k + 1];
        n[k] = diff;
        for i in (0..k).rev() { n[i] = n[i + 1] + self.d[i]; }
        self.d = n;
        self.d[0]
    }
}

fn sv_name(d: &ObsDoc, sv: &str) -> String { if d.blank { format!(" {:>2}", sv[1..].trim_start_matches('0')) } else { sv.to_string() } }
fn flags(obs: &[Obs]) -> String {
    obs.iter().map(|o| match o { None => "  ".to_string(), Some((_, l, s)) => format!("{}{}", l.map_or(" ".into(), |x| x.to_string()), s.map_or(" ".into(), |x| x.to_string())) }).collect()
}

/// the document as any encoder of the standard may write it
fn encode(d: &ObsDoc) -> String {
    let mut s = gen::hl(&format!("{:<20}COMPACT RINEX FORMAT", if d.major < 3 { "1.0" } else { "3.0" }), "CRINEX VERS   / TYPE");
    s += &gen::hl("RNX2CRX ver.4.0.7                       01-Jan-24 00:00", "CRINEX PROG / DATE");
    s += &d.header();
    let order = nd::pick(&[3usize, 3, 3, 1, 2, 4, 5]);
    let marked = d.major > 2 && nd::bool_();
    let mut line = String::new();
    let mut arcs: BTreeMap<(String, usize), Arc> = BTreeMap::new();
    let mut flag: BTreeMap<String, String> = BTreeMap::new();
    for (n, e) in d.epochs.iter().enumerate() {
        let t = &e.date;
        let mut new = if d.major < 3 {
            format!("{:02} {:2} {:2} {:2} {:2} {:2}.{:07}  {} {:2}", t.y % 100, t.m, t.d, t.hh, t.mm, t.ss, t.f, e.flag, e.sats.len())
        } else {
            format!(" {:04} {:02} {:02} {:02} {:02} {:2}.{:07}  {} {:2}      ", t.y, t.m, t.d, t.hh, t.mm, t.ss, t.f, e.flag, e.sats.len())
        };
        for (sv, _) in &e.sats { new += &sv_name(d, sv); }
        let plain = n == 0 || nd::r_u8(0, 9) == 0;
        if plain {
            s += if d.major < 3 { "&" } else { ">" };
            s += &new;
            arcs.clear();
            flag.clear();
        } else {
            s += &(" ".to_string() + &text_diff(&line, &new)).trim_end();
            // an unchanged description is a blank line
        }
        s += "\n\n";
        line = new;
        arcs.retain(|(sv, _), _| e.sats.iter().any(|(x, _)| x == sv));
        flag.retain(|sv, _| e.sats.iter().any(|(x, _)| x == sv));
        for (sv, obs) in &e.sats {
            let mut l = String::new();
            for (i, o) in obs.iter().enumerate() {
                let key = (sv.clone(), i);
                match o {
                    None => { arcs.remove(&key); }
                    Some((v, ..)) => match arcs.get_mut(&key) {
                        Some(a) if nd::r_u8(0, 20) > 0 => l += &a.next(*v).to_string(),
                        _ => { l += &format!("{order}&{v}"); arcs.insert(key, Arc { order, d: vec![*v] }); }
                    },
                }
                l.push(' ');
            }
            let f = flags(obs);
            l += &match flag.get(sv) { Some(old) => text_diff(old, &f), None if marked => f.replace(' ', "&"), None => f.trim_end().to_string() };
            flag.insert(sv.clone(), f);
            s += l.trim_end();
            s.push('\n');
        }
    }
    s
}

/// what a decoder of the standard recovers: (epoch description, (vehicle, observations))
fn decode(d: &ObsDoc, text: &str) -> Vec<(String, Vec<(String, Vec<Obs>)>)> {
    let body = &text[text.find("END OF HEADER").expect("no header")..];
    let mut lines = body.lines().skip(1);
    let (mut line, mut out) = (String::new(), Vec::new());
    let mut arcs: BTreeMap<(String, usize), Arc> = BTreeMap::new();
    let mut flag: BTreeMap<String, String> = BTreeMap::new();
    while let Some(l) = lines.next() {
        if l.starts_with(if d.major < 3 { '&' } else { '>' }) {
            line = l[1..].to_string();
            arcs.clear();
            flag.clear();
        } else {
            line = text_undiff(&line, l.get(1..).unwrap_or(""));
        }
        let (at, ids) = if d.major < 3 { (28, 31) } else { (31, 40) };
        let n: usize = line[at..at + 3].trim().parse().unwrap_or_else(|_| panic!("number of vehicles of {line:?}"));
        assert!(lines.next().expect("no clock line").trim().is_empty(), "clock offset");
        let svs: Vec<String> = (0..n).map(|i| line[ids + 3 * i..ids + 3 * i + 3].to_string()).collect();
        arcs.retain(|(sv, _), _| svs.contains(sv));
        flag.retain(|sv, _| svs.contains(sv));
        let mut sats = Vec::new();
        for sv in svs {
            let c = sv.chars().next().unwrap();
            let m = d.codes.iter().find(|(x, _)| *x == c).map_or(d.codes[0].1.len(), |x| x.1.len());
            let l = lines.next().unwrap_or_else(|| panic!("no line for {sv}"));
            let mut rest = l;
            let mut values = Vec::new();
            for i in 0..m {
                let (w, r) = rest.split_once(' ').unwrap_or((rest, ""));
                rest = r;
                let key = (sv.clone(), i);
                values.push(if w.is_empty() { arcs.remove(&key); None } else if let Some((o, v)) = w.split_once('&') {
                    let v: i64 = v.parse().unwrap_or_else(|_| panic!("value {w:?} of {l:?}"));
                    arcs.insert(key, Arc { order: o.parse().expect("order"), d: vec![v] });
                    Some(v)
                } else {
                    let a = arcs.get_mut(&key).unwrap_or_else(|| panic!("{sv} observable {i}: a difference without a first value, {l:?}"));
                    Some(a.back(w.parse().unwrap_or_else(|_| panic!("difference {w:?} of {l:?}"))))
                });
            }
            let f = text_undiff(flag.get(&sv).map_or("", |f| f), rest);
            let digit = |i: usize| f.as_bytes().get(i).filter(|b| b.is_ascii_digit()).map(|b| b - b'0');
            let obs = values.iter().enumerate().map(|(i, v)| v.map(|v| (v, digit(2 * i), digit(2 * i + 1)))).collect();
            flag.insert(sv.clone(), f);
            sats.push((sv, obs));
        }
        out.push((line[..at + 3].trim().to_string(), sats));
    }
    out
}

harness! {
}
fn round(major: u8, deep: bool) {
    let d = history(major, deep);
    let a = gen::parse(&d.text(false)).unwrap();
    d.check(&a);
    let c = a.rnx2crnx();
    let t = gen::format(&c).expect("format");
    let b = gen::parse(&t).expect("parse back");
    gen::same_obs(&a, &b, "compress then decompress");
}
fn standard(major: u8) {
    let d = history(major, true);
    let t = encode(&d);
    // (the decoder of this file reads its encoder)
    let back = decode(&d, &t);
    assert!(back.len() == d.epochs.len() && back.iter().zip(&d.epochs).all(|(b, e)| b.1.len() == e.sats.len() && b.1.iter().zip(&e.sats).all(|(x, y)| x.1 == y.1)), "check of the check");
    let r = gen::parse(&t).unwrap_or_else(|e| panic!("rejected: {e}"));
    d.check(&r);
    let p = r.crnx2rnx();
    d.check(&p);
    reach!(d.epochs.len() > 3);
}
fn compressed(major: u8) {
    let d = history(major, true);
    let a = gen::parse(&d.text(false)).unwrap();
    let t = gen::format(&a.rnx2crnx()).expect("format");
    let got = decode(&d, &t);
    assert!(got.len() == d.epochs.len(), "{} epochs instead of {}", got.len(), d.epochs.len());
    for ((_, sats), e) in got.iter().zip(&d.epochs) {
        let key = |sv: &str| if major < 3 && d.blank { format!("{}{:02}", d.codes[0].0, sv[1..].trim().parse::<u8>().unwrap()) } else { sv.to_string() };
        let a: BTreeMap<String, Vec<Obs>> = sats.iter().map(|(s, o)| (key(s), o.clone())).collect();
        let b: BTreeMap<String, Vec<Obs>> = e.sats.iter().filter(|(_, o)| o.iter().any(|o| o.is_some())).cloned().collect();
        assert!(a == b, "{a:?} instead of {b:?}");
    }
}
search! {
    fn p24_v3() {
        let deep = nd::bool_();
        round(3, deep);
    }
    fn p24_v1() {
        let deep = nd::bool_();
        round(2, deep);
    }
    /// files written by an independent encoder
    fn p24_standard_v3() {
        standard(3);
    }
    fn p24_standard_v1() {
        standard(2);
    }
    /// files read by an independent decoder
    fn p24_compressed_v3() {
        compressed(3);
    }
    fn p24_compressed_v1() {
        compressed(2);
    }
    /// damaged files are rejected or read, never a panic
    fn p24_damaged() {
        let d = history(if nd::bool_() { 2 } else { 3 }, true);
        let b = gen::damage(&encode(&d));
        let _ = rinex::prelude::Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
    /// the decompressor alone: any line, any clock, any buffer
    fn p24_raw() {
        use rinex::hatanaka::Decompressor;
        let d = history(if nd::bool_() { 2 } else { 3 }, true);
        let t = encode(&d);
        let h = rinex::prelude::Rinex::parse(&mut std::io::BufReader::new(t.as_bytes())).expect("rejected").header;
        let v3 = h.version.major > 2;
        let c = h.constellation.unwrap_or(rinex::prelude::Constellation::Mixed);
        let mut k = Decompressor::new(v3, c, h.obs.unwrap().codes);
        let exact = nd::bool_();
        let hurt = nd::bool_();
        let clocks = nd::bool_();
        for line in t.lines().skip_while(|l| !l.contains("END OF HEADER")).skip(1) {
            let mut line = line.to_string();
            if clocks && line.is_empty() {
                line = nd::pick(&["5&999999999999999", "9", "-", "3&-12", "&", "1&", "7&1", "9"]).to_string();
            }
            if hurt && nd::r_u8(0, 19) == 0 && !line.is_empty() {
                line = String::from_utf8_lossy(&gen::damage(&line)).to_string();
            }
            let size = if exact { 4096 } else { nd::r_usize(0, 200) };
            let mut buf = vec![0u8; size];
            if let Ok(n) = k.decompress(&line, line.len(), &mut buf, size) {
                assert!(n <= size);
            }
        }
    }
}
