//! P13 Common header fields: fixed columns, both ways
use crate::{gen, nd};
use rinex::navigation::{IonosphereModel, KbRegionCode};
use rinex::prelude::*;
use std::str::FromStr;

/// what the document says, in the units it is written with
#[derive(Default, Debug)]
struct Doc {
    major: u8, nav: bool,
    pgm: Option<[String; 3]>, who: Option<[String; 2]>, comments: Vec<String>,
    name: Option<String>, number: Option<String>, mtype: Option<(&'static str, usize)>,
    rcvr: Option<[String; 3]>, ant: Option<[String; 2]>,
    hen: Option<[i64; 3]>, base: Option<[i64; 3]>, pos: Option<[i64; 3]>,
    interval: Option<u32>, leap: Option<u8>, slots: Vec<(u8, i8)>,
    dcb: Vec<(char, String, String)>, pcv: Vec<(char, String, String)>,
    license: Option<String>, doi: Option<String>, url: Option<String>,
    iono: Vec<(&'static str, [i64; 4], [i64; 4])>, d: char,
    codes: Vec<&'static str>,
    /// first and last observation, 100 ns units
    times: [Option<[u32; 7]>; 2],
}

const TYPES: [&str; 14] = ["GEODETIC", "NON_GEODETIC", "NON_PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER_CRAFT", "GROUND_CRAFT", "FIXED_BUOY", "FLOATING_BUOY", "FLOATING_ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN"];

/// a text of 1 to n columns, without blanks at its ends
fn text(n: usize) -> String {
    let k = match nd::r_u8(0, 3) { 0 => n, 1 => 1, _ => nd::r_usize(1, n) };
    let mut s: Vec<u8> = (0..k).map(|_| nd::pick(b"ABCDEFGHabcxyz019 -_./,:#()")).collect();
    if s[0] == b' ' { s[0] = b'M'; }
    if s[k - 1] == b' ' { s[k - 1] = b'z'; }
    String::from_utf8(s).unwrap()
}

fn opt<T>(f: impl FnOnce() -> T) -> Option<T> { if nd::bool_() { Some(f()) } else { None } }

fn f14(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{:>14}", format!("{}{}.{:04}", if v < 0 { "-" } else { "" }, a / 10000, a % 10000))
}
fn xyz(m: i64) -> [i64; 3] { [nd::r_i64(-m, m), nd::r_i64(-m, m), nd::r_i64(-m, m)] }
/// D12.4 of v 1e-13
const LIMITS: [&str; 2] = ["TIME OF FIRST OBS", "TIME OF LAST OBS"];
/// 5I6, F13.7, 5X, A3
fn time(t: &[u32; 7]) -> String { format!("{:6}{:6}{:6}{:6}{:6}{:>13}     GPS", t[0], t[1], t[2], t[3], t[4], format!("{}.{:07}", t[5], t[6])) }
fn d12(v: i64, d: char) -> String {
    let s = format!("{:.4E}", v as f64 * 1e-13);
    let (m, e) = s.split_once('E').unwrap();
    let e: i32 = e.parse().unwrap();
    format!("{:>12}", format!("{}{}{}{:02}", m, d, if e < 0 { '-' } else { '+' }, e.abs()))
}

fn doc() -> Doc {
    let mut d = Doc { major: nd::pick(&[2u8, 3, 4]), nav: nd::r_u8(0, 3) == 0, d: nd::pick(&['D', 'E']), ..Default::default() };
    if d.nav && d.major == 4 { d.major = 3; }
    d.pgm = opt(|| [text(20), text(20), text(20)]);
    d.who = opt(|| [text(20), text(40)]);
    for _ in 0..nd::r_u8(0, 3) { d.comments.push(text(60)); }
    if nd::r_u8(0, 3) == 0 {
        // the mark of a merge, anywhere in any of them
        let at = nd::r_usize(0, d.comments.len());
        let mark = format!("{}FILE MERGE{}", nd::pick(&["", "prog  ", "who "]), nd::pick(&["", "  20200101 000000 UTC", " end"]));
        d.comments.insert(at, mark);
    }
    d.name = opt(|| text(20));
    if d.name.is_some() {
        d.number = opt(|| format!("{:05}M{:03}", nd::r_u32(0, 99_999), nd::r_u16(0, 999)));
        d.mtype = opt(|| { let i = nd::r_usize(0, 13); (TYPES[i], i) });
    }
    d.rcvr = opt(|| [text(20), text(20), text(20)]);
    d.ant = opt(|| [text(20), text(20)]);
    d.hen = opt(|| xyz(999_999_999));
    d.base = opt(|| xyz(99_999_999_999));
    d.pos = opt(|| xyz(99_999_999_999));
    d.interval = opt(|| match nd::r_u8(0, 2) { 0 => nd::r_u32(1, 9_999_999), 1 => 30_000, _ => 1000 * nd::r_u32(1, 9999) });
    d.leap = opt(|| nd::r_u8(1, 99));
    for i in 0..2 { d.times[i] = opt(|| [nd::r_u32(1981, 2079), nd::r_u32(1, 12), nd::r_u32(1, 28), nd::r_u32(0, 23), nd::r_u32(0, 59), nd::r_u32(0, 59), nd::pick(&[0, 0, 1, 9999999, nd::r_u32(0, 9999999)])]); }
    let n = if nd::bool_() { 0 } else { nd::r_u8(1, 27) };
    let k = nd::r_u8(1, 27 - n.min(26));
    d.slots = (0..n).map(|i| (k + i, (nd::r_u8(0, 13) as i8) - 7)).collect();
    for c in ['G', 'R', 'E', 'C'] {
        if nd::r_u8(0, 3) == 0 { d.dcb.push((c, text(17), text(40))); }
        if nd::r_u8(0, 3) == 0 { d.pcv.push((c, text(17), text(40))); }
    }
    d.license = opt(|| text(60));
    d.doi = opt(|| text(60));
    d.url = opt(|| text(60));
    if d.nav {
        for c in ["GPS", "BDS", "QZS", "IRN", "GAL"] {
            let mut v = || [nd::r_i64(-99_999_999_999, 99_999_999_999), nd::r_i64(-9_999_999, 9_999_999), nd::r_i64(-99_999, 99_999), nd::r_i64(-9_999, 9_999)];
            if nd::bool_() && (d.major > 2 || c == "GPS") { d.iono.push((c, v(), v())); }
        }
    }
    let k = nd::r_usize(0, 9);
    d.codes = (0..nd::r_usize(1, 15)).map(|i| if d.major < 3 { gen::CODES2[(k + i) % gen::CODES2.len()] } else { gen::CODES3[(k + i) % gen::CODES3.len()] }).collect();
    d
}

impl Doc {
    fn write(&self) -> String {
        let mut g: Vec<String> = Vec::new();
        if let Some([a, b, c]) = &self.pgm { g.push(gen::hl(&format!("{:<20}{:<20}{:<20}", a, b, c), "PGM / RUN BY / DATE")); }
        if let Some([a, b]) = &self.who { g.push(gen::hl(&format!("{:<20}{:<40}", a, b), "OBSERVER / AGENCY")); }
        if !self.comments.is_empty() { g.push(self.comments.iter().map(|c| gen::hl(c, "COMMENT")).collect()); }
        if let Some(a) = &self.name { g.push(gen::hl(a, "MARKER NAME")); }
        if let Some(a) = &self.number { g.push(gen::hl(a, "MARKER NUMBER")); }
        if let Some((a, _)) = &self.mtype { g.push(gen::hl(a, "MARKER TYPE")); }
        if let Some([a, b, c]) = &self.rcvr { g.push(gen::hl(&format!("{:<20}{:<20}{:<20}", a, b, c), "REC # / TYPE / VERS")); }
        if let Some([a, b]) = &self.ant { g.push(gen::hl(&format!("{:<20}{:<20}", a, b), "ANT # / TYPE")); }
        if let Some(v) = &self.hen { g.push(gen::hl(&v.map(f14).concat(), "ANTENNA: DELTA H/E/N")); }
        if let Some(v) = &self.base { g.push(gen::hl(&v.map(f14).concat(), "ANTENNA: DELTA X/Y/Z")); }
        if let Some(v) = &self.pos { g.push(gen::hl(&v.map(f14).concat(), "APPROX POSITION XYZ")); }
        if let Some(v) = &self.interval { g.push(gen::hl(&format!("{:>10}", format!("{}.{:03}", v / 1000, v % 1000)), "INTERVAL")); }
        if let Some(v) = &self.leap { g.push(gen::hl(&format!("{:6}", v), "LEAP SECONDS")); }
        if !self.slots.is_empty() {
            let mut s = String::new();
            for (i, chunk) in self.slots.chunks(8).enumerate() {
                let mut l = if i == 0 { format!("{:3} ", self.slots.len()) } else { " ".repeat(4) };
                for (n, f) in chunk { l += &format!("R{:02} {:2} ", n, f); }
                s += &gen::hl(&l, "GLONASS SLOT / FRQ #");
            }
            g.push(s);
        }
        for (c, p, u) in &self.dcb { g.push(gen::hl(&format!("{c} {:<17} {:<40}", p, u), "SYS / DCBS APPLIED")); }
        for (c, p, u) in &self.pcv { g.push(gen::hl(&format!("{c} {:<17} {:<40}", p, u), "SYS / PCVS APPLIED")); }
        if let Some(v) = &self.license { g.push(gen::hl(v, "LICENSE OF USE")); }
        if let Some(v) = &self.doi { g.push(gen::hl(v, "DOI")); }
        if let Some(v) = &self.url { g.push(gen::hl(v, "STATION INFORMATION")); }
        for (c, a, b) in &self.iono {
            let line = |v: &[i64; 4], n: usize| -> String { v[..n].iter().map(|v| d12(*v, self.d)).collect() };
            if self.major < 3 {
                g.push(gen::hl(&format!("  {}", line(a, 4)), "ION ALPHA"));
                g.push(gen::hl(&format!("  {}", line(b, 4)), "ION BETA"));
            } else if *c == "GAL" {
                g.push(gen::hl(&format!("GAL  {}", line(a, 3)), "IONOSPHERIC CORR"));
            } else {
                g.push(gen::hl(&format!("{c}A {}", line(a, 4)), "IONOSPHERIC CORR"));
                g.push(gen::hl(&format!("{c}B {}", line(b, 4)), "IONOSPHERIC CORR"));
            }
        }
        if !self.nav {
            let per = if self.major < 3 { 9 } else { 13 };
            let mut s = String::new();
            for (i, chunk) in self.codes.chunks(per).enumerate() {
                let mut l = match (i, self.major) { (0, 2) => format!("{:6}", self.codes.len()), (0, _) => format!("G  {:3}", self.codes.len()), _ => " ".repeat(6) };
                for c in chunk { l += &if self.major < 3 { format!("    {c}") } else { format!(" {c}") }; }
                s += &gen::hl(&l, if self.major < 3 { "# / TYPES OF OBSERV" } else { "SYS / # / OBS TYPES" });
            }
            g.push(s);
            for i in 0..2 { if let Some(t) = &self.times[i] { g.push(gen::hl(&time(t), LIMITS[i])); } }
        }
        // the standard lets fields come in any order
        for i in (1..g.len()).rev() {
            let j = nd::r_usize(0, i);
            g.swap(i, j);
        }
        let v = match self.major { 2 => "     2.11", 3 => "     3.04", _ => "     4.00" };
        let t = match (self.nav, self.major) { (true, 2) => "N: GPS NAV DATA", (true, _) => "NAVIGATION DATA     M (MIXED)", _ => "OBSERVATION DATA    G (GPS)" };
        gen::hl(&format!("{v}           {t}"), "RINEX VERSION / TYPE") + &g.concat() + &gen::hl("", "END OF HEADER")
    }

    fn check(&self, h: &Header, all: bool) {
        let s = |t: &Option<String>| t.clone().unwrap_or_default();
        let [a, b, c] = self.pgm.clone().unwrap_or_default();
        assert_eq!([s(&h.program), s(&h.run_by), s(&h.date)], [a, b, c], "program, operator, date");
        let [a, b] = self.who.clone().unwrap_or_default();
        assert_eq!([s(&h.observer), s(&h.agency)], [a, b], "observer, agency");
        assert_eq!(h.comments, self.comments, "comments");
        if let Some(name) = &self.name {
            let m = h.geodetic_marker.as_ref().expect("marker");
            assert_eq!(&m.name, name, "marker name");
            assert_eq!(m.number(), self.number, "marker number");
            assert_eq!(m.marker_type.map(|t| t.to_string()), self.mtype.map(|t| t.0.to_string()), "marker type");
        } else {
            assert!(h.geodetic_marker.is_none(), "no marker");
        }
        match (&self.rcvr, &h.rcvr) {
            (Some([a, b, c]), Some(r)) => assert_eq!([&r.sn, &r.model, &r.firmware], [a, b, c], "receiver"),
            (None, None) => {}
            (e, r) => panic!("receiver {e:?} {r:?}"),
        }
        let f = |v: i64| f14(v).trim().parse::<f64>().unwrap();
        let (sn, model) = h.rcvr_antenna.as_ref().map_or((String::new(), String::new()), |a| (a.sn.clone(), a.model.clone()));
        let [a, b] = self.ant.clone().unwrap_or_default();
        assert_eq!([sn, model], [a, b], "antenna");
        let ant = h.rcvr_antenna.clone().unwrap_or_default();
        let hen = [ant.height, ant.eastern, ant.northern];
        if all || self.hen.is_some() { assert_eq!(hen, self.hen.map_or([None; 3], |v| v.map(|v| Some(f(v)))), "antenna H/E/N"); }
        else { assert!(hen.iter().all(|v| v.unwrap_or(0.0) == 0.0), "antenna H/E/N"); }
        assert_eq!(ant.coords, self.base.map(|[x, y, z]| (f(x), f(y), f(z))), "antenna reference point");
        assert_eq!(h.rx_position, self.pos.map(|[x, y, z]| (f(x), f(y), f(z))), "position");
        assert_eq!(h.sampling_interval, self.interval.map(|ms| Duration::from_truncated_nanoseconds(ms as i64 * 1_000_000)), "interval");
        if let (false, Some(o)) = (self.nav, h.obs.as_ref()) {
            let t = self.times.map(|t| t.map(|t| Epoch::from_gregorian(t[0] as i32, t[1] as u8, t[2] as u8, t[3] as u8, t[4] as u8, t[5] as u8, t[6] * 100, TimeScale::GPST)));
            assert_eq!([o.timeof_first_obs, o.timeof_last_obs], t, "first and last observation");
        } else { assert!(self.nav, "observables"); }
        assert_eq!(h.leap.map(|l| l.leap), self.leap.map(|l| l as u32), "leap seconds");
        let mut ch: Vec<(String, i8)> = h.glo_channels.iter().map(|(sv, c)| (format!("{:x}", sv), *c)).collect();
        ch.sort();
        assert_eq!(ch, self.slots.iter().map(|(n, f)| (format!("R{:02}", n), *f)).collect::<Vec<_>>(), "Glonass channels");
        assert_eq!(s(&h.license), s(&self.license), "license");
        assert_eq!(s(&h.doi), s(&self.doi), "doi");
        assert_eq!(s(&h.station_url), s(&self.url), "station information");
        let key = |c: &Constellation, p: &String, u: &String| format!("{:x} {p} {u}", c);
        let mut dcb: Vec<String> = h.dcb_compensations.iter().map(|d| key(&d.constellation, &d.program, &d.url)).collect();
        let mut pcv: Vec<String> = h.pcv_compensations.iter().map(|d| key(&d.constellation, &d.program, &d.url)).collect();
        dcb.sort();
        pcv.sort();
        let want = |l: &Vec<(char, String, String)>| { let mut v: Vec<String> = l.iter().map(|(c, p, u)| key(&gen::constellation(*c), p, u)).collect(); v.sort(); v };
        assert_eq!(dcb, want(&self.dcb), "DCB");
        assert_eq!(pcv, want(&self.pcv), "PCV");
        let r = Rinex::new(h.clone(), Record::ObsRecord(Default::default()));
        for c in ['G', 'R', 'E', 'C', 'J', 'S', 'I'] {
            let k = gen::constellation(c);
            assert_eq!((r.dcb_compensation(k), r.pcv_compensation(k)), (self.dcb.iter().any(|d| d.0 == c), self.pcv.iter().any(|d| d.0 == c)), "DCB and PCV of {c}");
        }
        assert_eq!(r.is_merged(), self.comments.iter().any(|c| c.contains("FILE MERGE")), "merged");
        if all {
            self.check_iono(h);
        }
        if !self.nav {
            let obs = h.obs.as_ref().expect("observation fields");
            assert_eq!(obs.codes.len(), 1);
            assert_eq!(obs.codes[&Constellation::GPS], self.codes.iter().map(|c| Observable::from_str(c).unwrap()).collect::<Vec<_>>(), "observables");
        }
    }

    fn check_iono(&self, h: &Header) {
        let f = |v: i64| d12(v, 'E').trim().parse::<f64>().unwrap();
        let t = |v: &[i64; 4]| (f(v[0]), f(v[1]), f(v[2]), f(v[3]));
        let mut n = 0;
        for (c, a, b) in &self.iono {
            let sys: &[char] = if self.major < 3 { &['G', 'R', 'E', 'C', 'J', 'I', 'S'] } else { match *c { "GPS" => &['G'], "BDS" => &['C'], "QZS" => &['J'], "IRN" => &['I'], _ => &['E'] } };
            for s in sys {
                n += 1;
                match h.ionod_corrections.get(&gen::constellation(*s)) {
                    Some(IonosphereModel::Klobuchar(k)) => {
                        assert_eq!((k.alpha, k.beta), (t(a), t(b)), "Klobuchar {c}");
                        assert_eq!(k.region == KbRegionCode::Japan, *c == "QZS", "region {c}");
                    }
                    Some(IonosphereModel::NequickG(m)) => assert_eq!((*c, m.a), ("GAL", (f(a[0]), f(a[1]), f(a[2]))), "Nequick"),
                    m => panic!("{c}: {m:?}"),
                }
            }
        }
        assert_eq!(h.ionod_corrections.len(), n, "no other model");
    }
}

fn header(text: &str) -> Result<Header, ParsingError> {
    Header::parse(&mut std::io::BufReader::new(text.as_bytes()))
}

harness! {
}

search! {
    /// every field is read from its columns, whatever the order of the lines
    fn parse_header() {
        let d = doc();
        let text = d.write();
        let h = header(&text).unwrap_or_else(|e| panic!("{e}\n{text}"));
        d.check(&h, true);
        // nothing depends on what follows the label
        let h2 = header(&text.lines().map(|l| l.trim_end().to_string() + "\r\n").collect::<String>()).unwrap();
        assert!(h == h2, "line terminations");
    }

    /// the formatted header has the layout of the standard and the same content
    fn format_header() {
        let mut d = doc();
        d.nav = false;
        d.iono.clear();
        let h = header(&d.write()).unwrap();
        let mut w = std::io::BufWriter::new(Vec::<u8>::new());
        h.format(&mut w).unwrap();
        let text = String::from_utf8(w.into_inner().unwrap()).unwrap();
        for l in text.lines() {
            assert!(l.len() > 60 && l.len() <= 80, "column 61: {l:?}");
            let (content, label) = l.split_at(60);
            assert!(["RINEX VERSION / TYPE", "PGM / RUN BY / DATE", "COMMENT", "MARKER NAME", "MARKER NUMBER", "MARKER TYPE", "OBSERVER / AGENCY", "REC # / TYPE / VERS", "ANT # / TYPE",
                "ANTENNA: DELTA H/E/N", "ANTENNA: DELTA X/Y/Z", "APPROX POSITION XYZ", "INTERVAL", "LEAP SECONDS", "GLONASS SLOT / FRQ #", "SYS / DCBS APPLIED", "SYS / PCVS APPLIED", "LICENSE OF USE", "DOI",
                "STATION INFORMATION", "# / TYPES OF OBSERV", "SYS / # / OBS TYPES", "TIME OF FIRST OBS", "TIME OF LAST OBS", "END OF HEADER"].contains(&label.trim_end()), "label {label:?}");
            if label.trim_end() == "RINEX VERSION / TYPE" {
                assert_eq!(&content[..20], format!("{:20}", match d.major { 2 => "     2.11", 3 => "     3.04", _ => "     4.00" }), "revision");
                assert_eq!(&content[20..40], "OBSERVATION DATA    ", "type of file");
                assert_eq!(&content[40..41], "G", "system");
            }
            let want = match label.trim_end() {
                "PGM / RUN BY / DATE" => d.pgm.as_ref().map(|[a, b, c]| format!("{:<20}{:<20}{:<20}", a, b, c)),
                "OBSERVER / AGENCY" => d.who.as_ref().map(|[a, b]| format!("{:<20}{:<40}", a, b)),
                "MARKER NAME" => d.name.as_ref().map(|a| format!("{:<60}", a)),
                "MARKER NUMBER" => d.number.as_ref().map(|a| format!("{:<60}", a)),
                "REC # / TYPE / VERS" => d.rcvr.as_ref().map(|[a, b, c]| format!("{:<20}{:<20}{:<20}", a, b, c)),
                "ANT # / TYPE" => d.ant.as_ref().map(|[a, b]| format!("{:<20}{:<20}{:<20}", a, b, "")),
                "ANTENNA: DELTA H/E/N" => d.hen.map(|v| format!("{:<60}", v.map(f14).concat())),
                "ANTENNA: DELTA X/Y/Z" => d.base.map(|v| format!("{:<60}", v.map(f14).concat())),
                "APPROX POSITION XYZ" => d.pos.map(|v| format!("{:<60}", v.map(f14).concat())),
                "TIME OF FIRST OBS" => Some(format!("{:<60}", d.times[0].as_ref().map(time).unwrap_or_default())),
                "TIME OF LAST OBS" => Some(format!("{:<60}", d.times[1].as_ref().map(time).unwrap_or_default())),
                "INTERVAL" => None,
                _ => None,
            };
            if let Some(want) = want { assert_eq!(content, want, "{label}"); }
        }
        let slots: Vec<&str> = text.lines().filter(|l| l.contains("GLONASS SLOT")).map(|l| &l[..60]).collect();
        assert_eq!(slots.len(), (d.slots.len() + 7) / 8, "Glonass lines");
        for (i, l) in slots.iter().enumerate() {
            assert_eq!(&l[..4], if i == 0 { format!("{:3} ", d.slots.len()) } else { "    ".into() }, "number of slots");
            for k in 0..8 {
                let f = &l[4 + 7 * k..11 + 7 * k];
                match d.slots.get(8 * i + k) {
                    Some((n, c)) => {
                        // in any order
                        let at = d.slots.iter().find(|(n, c)| f == format!("R{:02} {:2} ", n, c));
                        assert!(at.is_some(), "slot {f:?} {n} {c}");
                    }
                    None => assert_eq!(f.trim(), "", "slot {f:?}"),
                }
            }
        }
        let back = header(&text).unwrap_or_else(|e| panic!("{e}\n{text}"));
        d.check(&back, false);
    }

    /// comments of the record are part of the record, any line is accepted
    fn body_comments() {
        let doc = gen::obs_doc(3);
        let text = doc.text(nd::bool_());
        let r = gen::parse(&text).unwrap();
        let (mut out, mut in_body, mut at) = (String::new(), false, Epoch::default());
        let mut want: std::collections::BTreeMap<Epoch, Vec<String>> = Default::default();
        let mut epochs = doc.epochs.iter();
        for l in text.lines() {
            if in_body && nd::r_u8(0, 2) == 0 {
                let c = self::text(60);
                out += &if nd::bool_() { gen::hl(&c, "COMMENT") } else { format!("{:<60}COMMENT\n", c) };
                want.entry(at).or_default().push(c);
            }
            out += l;
            out += "\n";
            if in_body && l.starts_with('>') {
                at = epochs.next().expect("epoch line").date.epoch(doc.ts);
            }
            in_body |= l.contains("END OF HEADER");
        }
        assert!(epochs.next().is_none());
        let c = gen::parse(&out).unwrap();
        assert!(r.record == c.record, "a comment changed the record");
        assert_eq!(r.header.comments, c.header.comments);
        // comments that precede the record are those of its first epoch
        if let Some(mut lead) = want.remove(&Epoch::default()) {
            let first = doc.epochs[0].date.epoch(doc.ts);
            lead.append(&mut want.remove(&first).unwrap_or_default());
            want.insert(first, lead);
        }
        assert_eq!(c.comments, want, "comments");
    }

    /// damaged headers are rejected or read, never a panic
    fn damaged() {
        let d = doc();
        let b = gen::damage(&d.write());
        let _ = Header::parse(&mut std::io::BufReader::new(&b[..]));
        let _ = Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
}
