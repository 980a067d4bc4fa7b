//! Document model shared by the native (bounded) harnesses: random RINEX
//! documents, written from the RINEX standard, independently of /repo.
use crate::nd;
use rinex::prelude::*;
use std::io::{BufReader, BufWriter};
use std::str::FromStr;

/// a few bytes or columns of the text are changed, removed or inserted
pub fn damage(text: &str) -> Vec<u8> {
    let mut b = text.as_bytes().to_vec();
    for _ in 0..nd::r_u8(1, 4) {
        let i = nd::r_usize(0, b.len() - 1);
        match nd::r_u8(0, 3) {
            0 => b[i] = nd::pick(b" -.09AZRGD>&\n\xc3"),
            1 => { let n = nd::r_usize(0, (b.len() - i).min(70)); b.drain(i..i + n); }
            2 => { let n = nd::r_usize(0, (60).min(b.len() - i)); for c in &mut b[i..i + n] { if *c != b'\n' { *c = b' '; } } }
            _ => { let c = nd::pick(&["9", " ", "\n", ">", "\u{e9}"]); b.splice(i..i, c.bytes()); }
        }
        if b.is_empty() { b.push(b' '); }
    }
    b
}

pub fn hl(content: &str, label: &str) -> String {
    format!("{:<60}{:<20}\n", content, label)
}

pub fn parse(text: &str) -> Result<Rinex, ParsingError> {
    Rinex::parse(&mut BufReader::new(text.as_bytes()))
}

pub fn format(r: &Rinex) -> Result<String, FormattingError> {
    let mut w = BufWriter::new(Vec::<u8>::new());
    r.format(&mut w)?;
    Ok(String::from_utf8(w.into_inner().unwrap()).unwrap())
}

/// constellation letters, as the standard defines them
pub const SYS: [char; 7] = ['G', 'R', 'E', 'C', 'J', 'I', 'S'];

pub fn constellation(c: char) -> Constellation {
    match c {
        'G' => Constellation::GPS,
        'R' => Constellation::Glonass,
        'E' => Constellation::Galileo,
        'C' => Constellation::BeiDou,
        'J' => Constellation::QZSS,
        'I' => Constellation::IRNSS,
        'S' => Constellation::SBAS,
        _ => Constellation::Mixed,
    }
}

pub fn dim(y: i32, m: u8) -> u8 {
    match m {
        2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Date { pub y: i32, pub m: u8, pub d: u8, pub hh: u8, pub mm: u8, pub ss: u8, /** 100 ns units */ pub f: u32 }

pub fn date(ylo: i32, yhi: i32) -> Date {
    let y = nd::r_i32(ylo, yhi);
    let m = nd::r_u8(1, 12);
    let d = nd::r_u8(1, dim(y, m));
    Date { y, m, d, hh: nd::r_u8(0, 23), mm: nd::r_u8(0, 59), ss: nd::r_u8(0, 59), f: if nd::bool_() { 0 } else { nd::r_u32(0, 9_999_999) } }
}

impl Date {
    pub fn epoch(&self, ts: TimeScale) -> Epoch {
        Epoch::from_gregorian(self.y, self.m, self.d, self.hh, self.mm, self.ss, self.f * 100, ts)
    }
    /// same day, later
    pub fn minutes(n: u32, y: i32, m: u8, d: u8) -> Date {
        Date { y, m, d, hh: (n / 60) as u8, mm: (n % 60) as u8, ss: 0, f: 0 }
    }
}

/// one observation: value in thousandth, flags as written
pub type Obs = Option<(i64, Option<u8>, Option<u8>)>;

#[derive(Clone, Debug)]
pub struct ObsEpoch { pub date: Date, pub flag: u8, pub sats: Vec<(String, Vec<Obs>)>, /** receiver clock offset, in picoseconds */ pub clock: Option<i64> }

#[derive(Clone, Debug)]
pub struct ObsDoc { pub major: u8, pub sys: char, pub ts: TimeScale, pub tsname: &'static str, pub codes: Vec<(char, Vec<&'static str>)>, pub epochs: Vec<ObsEpoch>, /** V2 single system: the letter is omitted */ pub blank: bool, /** receiver clock offsets are printed */ pub clock: bool }

pub const CODES3: &[&str] = &["C1C", "L1C", "D1C", "S1C", "C2W", "L2W", "D2W", "S2W", "C5Q", "L5Q", "D5Q", "S5Q", "C1X", "L1X", "C7Q", "L7Q", "C8X", "L8X", "S8X", "C6A", "L6A", "D6A", "C1W", "L1W", "D1W", "S1W", "C2X", "L2X", "C5X", "L5X", "D5X", "S5X", "C7X", "L7X"];
pub const CODES2: &[&str] = &["C1", "L1", "D1", "S1", "P1", "P2", "L2", "D2", "S2", "C2", "C5", "L5", "D5", "S5", "C7", "L7", "D7", "S7"];

/// digits of a F14.3 field that fits its 14 columns
pub fn f14_3(v: i64) -> String {
    let a = v.unsigned_abs();
    format!("{:>14}", format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, a / 1000, a % 1000))
}

pub fn value() -> i64 {
    match nd::r_u8(0, 3) {
        0 => nd::r_i64(-999_999_999_999, 9_999_999_999_999),
        1 => nd::r_i64(-999_999, 999_999),
        2 => nd::r_i64(20_000_000_000, 26_000_000_000),
        _ => nd::r_i64(-9_999_999_999, 199_999_999_999),
    }
}

fn codes(all: &'static [&'static str], n: usize) -> Vec<&'static str> {
    // n distinct codes, rotated
    let k = nd::r_usize(0, all.len() - 1);
    (0..n).map(|i| all[(k + i) % all.len()]).collect()
}

pub fn obs_doc(major: u8) -> ObsDoc {
    let mixed = nd::bool_();
    let letters: Vec<char> = if major < 3 { vec!['G', 'R', 'E', 'S'] } else { SYS.to_vec() };
    let all = if major < 3 { CODES2 } else { CODES3 };
    let mut used: Vec<char> = Vec::new();
    if mixed {
        for c in &letters { if nd::bool_() { used.push(*c); } }
        if used.is_empty() { used.push('G'); }
    } else {
        // single system files: those with a time scale of their own
        used.push(letters[nd::r_usize(0, letters.len().min(4) - 1)]);
        if used[0] == 'S' { used[0] = 'G'; }
    }
    let (ts, tsname) = if mixed { nd::pick(&[(TimeScale::GPST, "GPS"), (TimeScale::GST, "GAL"), (TimeScale::BDT, "BDT")]) } else {
        match used[0] { 'G' => (TimeScale::GPST, "GPS"), 'R' => (TimeScale::UTC, "GLO"), 'E' => (TimeScale::GST, "GAL"), _ => (TimeScale::BDT, "BDT") }
    };
    let mut cs = Vec::new();
    let shared = { let n = nd::r_usize(1, 16); codes(all, n) };
    for c in &used {
        cs.push((*c, if major < 3 { shared.clone() } else { let n = if nd::r_u8(0, 9) == 0 { nd::r_usize(19, all.len()) } else { nd::r_usize(1, 18) }; codes(all, n) }));
    }
    let y = nd::r_i32(1995, 2040);
    let m = nd::r_u8(1, 12);
    let d = nd::r_u8(1, dim(y, m));
    let mut at = nd::r_u32(0, 60);
    let mut epochs = Vec::new();
    for _ in 0..nd::r_usize(1, 3) {
        at += nd::r_u32(1, 200);
        let mut date = Date::minutes(at, y, m, d);
        date.ss = nd::r_u8(0, 59);
        if nd::bool_() { date.f = nd::r_u32(0, 9_999_999); }
        let flag = if nd::r_u8(0, 3) == 0 { nd::pick(&[1u8, 6]) } else { 0 };
        let mut sats = Vec::new();
        for (c, cod) in &cs {
            let n = nd::r_usize(0, if nd::r_u8(0, 3) == 0 { 14 } else { 3 });
            let k = nd::r_usize(1, 9);
            for i in 0..n {
                let obs: Vec<Obs> = cod.iter().map(|_| {
                    if nd::r_u8(0, 3) == 0 { None } else {
                        let v = value();
                        let l = nd::r_u8(0, 9);
                        let s = nd::r_u8(0, 12);
                        Some((v, if l < 8 { Some(l) } else { None }, if s < 10 { Some(s) } else { None }))
                    }
                }).collect();
                sats.push((format!("{}{:02}", c, k + i), obs));
            }
        }
        if sats.is_empty() {
            let cod = cs[0].1.len();
            sats.push((format!("{}07", cs[0].0), vec![Some((20_123_456_789, None, Some(7))); cod]));
        }
        if sats.iter().all(|(_, o)| o.iter().all(|x| x.is_none())) {
            sats[0].1[0] = Some((1234, None, None));
        }
        let clock = if nd::bool_() { Some(nd::r_i64(-999_999_999_999, 999_999_999_999)) } else { None };
        epochs.push(ObsEpoch { date, flag, sats, clock });
    }
    ObsDoc { major, sys: if mixed { 'M' } else { used[0] }, ts, tsname, codes: cs, epochs, blank: major < 3 && !mixed && nd::bool_(), clock: false }
}

impl ObsDoc {
    pub fn header(&self) -> String {
        let mut s = hl(&format!("{:9}           OBSERVATION DATA    {}", if self.major < 3 { "     2.11" } else { "     3.04" }, self.sys), "RINEX VERSION / TYPE");
        s += &hl("rust                verif               20240101 000000 UTC", "PGM / RUN BY / DATE");
        s += &hl("SOMEWHERE", "MARKER NAME");
        if self.major < 3 {
            let c = &self.codes[0].1;
            for (i, chunk) in c.chunks(9).enumerate() {
                let mut l = if i == 0 { format!("{:6}", c.len()) } else { " ".repeat(6) };
                for o in chunk { l += &format!("    {:2}", o); }
                s += &hl(&l, "# / TYPES OF OBSERV");
            }
        } else {
            for (c, cod) in &self.codes {
                for (i, chunk) in cod.chunks(13).enumerate() {
                    let mut l = if i == 0 { format!("{}  {:3}", c, cod.len()) } else { " ".repeat(6) };
                    for o in chunk { l += &format!(" {:3}", o); }
                    s += &hl(&l, "SYS / # / OBS TYPES");
                }
            }
        }
        let d = &self.epochs[0].date;
        s += &hl(&format!("{:6}{:6}{:6}{:6}{:6}{:5}.{:07}     {:3}", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f, self.tsname), "TIME OF FIRST OBS");
        s += &hl("", "END OF HEADER");
        s
    }
    fn obs(o: &Obs) -> String {
        match o {
            None => " ".repeat(16),
            Some((v, l, n)) => format!("{}{}{}", f14_3(*v), l.map_or(" ".into(), |x| x.to_string()), n.map_or(" ".into(), |x| x.to_string())),
        }
    }
    /// body; `trim`: trailing blanks of a V3 line are omitted
    pub fn body(&self, e: &ObsEpoch, trim: bool) -> String {
        let d = &e.date;
        let mut s = String::new();
        if self.major >= 3 {
            s += &format!("> {:04} {:02} {:02} {:02} {:02} {:2}.{:07}  {} {:2}", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f, e.flag, e.sats.len());
            // 6X, F15.12
            if let (true, Some(c)) = (self.clock, e.clock) { s += &format!("      {:>15}", format!("{}0.{:012}", if c < 0 { "-" } else { "" }, c.abs())); }
            s.push('\n');
            for (sv, obs) in &e.sats {
                let mut l = sv.clone();
                for o in obs { l += &Self::obs(o); }
                s += if trim { l.trim_end() } else { &l };
                s.push('\n');
            }
        } else {
            s += &format!(" {:02} {:2} {:2} {:2} {:2} {:2}.{:07}  {} {:2}", d.y % 100, d.m, d.d, d.hh, d.mm, d.ss, d.f, e.flag, e.sats.len());
            for (i, chunk) in e.sats.chunks(12).enumerate() {
                if i > 0 { s += &" ".repeat(32); }
                for (sv, _) in chunk { if self.blank { s += &format!(" {:>2}", sv[1..].trim_start_matches('0')); } else { s += sv; } }
                // F12.9 in columns 69 to 80 of the first line
                if let (true, 0, Some(c)) = (self.clock, i, e.clock) { s += &format!("{}{:>12}", "   ".repeat(12 - chunk.len()), format!("{}0.{:09}", if c < 0 { "-" } else { "" }, c.abs() / 1000)); }
                s.push('\n');
            }
            for (_, obs) in &e.sats {
                let lines = obs.chunks(5).count();
                for (i, chunk) in obs.chunks(5).enumerate() {
                    let l: String = chunk.iter().map(Self::obs).collect();
                    // the last line of a vehicle keeps its trailing blanks: see KNOWN_FINDINGS
                    s += if trim && i + 1 < lines { l.trim_end() } else { &l };
                    s.push('\n');
                }
            }
        }
        s
    }
    pub fn text(&self, trim: bool) -> String {
        let mut s = self.header();
        for e in &self.epochs { s += &self.body(e, trim); }
        s
    }
    /// the same, with events between epochs: special records, that are not observations
    pub fn text_events(&self, trim: bool) -> String {
        let mut s = self.header();
        for e in &self.epochs {
            if nd::bool_() {
                let flag = nd::r_u8(2, 5);
                let n = nd::r_usize(0, 3);
                let d = &e.date;
                let date = nd::bool_();
                s += &match (self.major >= 3, date) {
                    (true, true) => format!("> {:04} {:02} {:02} {:02} {:02} {:2}.{:07}  {flag} {n:2}\n", d.y, d.m, d.d, d.hh, d.mm, d.ss, d.f),
                    (true, false) => format!("> {:29}{flag} {n:2}\n", ""),
                    (false, true) => format!(" {:02} {:2} {:2} {:2} {:2} {:2}.{:07}  {flag} {n:2}\n", d.y % 100, d.m, d.d, d.hh, d.mm, d.ss, d.f),
                    (false, false) => format!("{:28}{flag} {n:2}\n", ""),
                };
                for _ in 0..n {
                    s += &match nd::r_u8(0, 2) {
                        0 => hl("A new site", "MARKER NAME"),
                        1 => hl("*** something happened ***", "COMMENT"),
                        _ => hl("        1.5000        0.0000        0.0000", "ANTENNA: DELTA H/E/N"),
                    };
                }
            }
            s += &self.body(e, trim);
        }
        s
    }
    /// parsed observations are exactly those of the document
    pub fn check(&self, rnx: &Rinex) {
        let rec = rnx.record.as_obs().expect("observation record");
        assert!(rec.len() == self.epochs.len(), "{} epochs instead of {}", rec.len(), self.epochs.len());
        for ((k, v), e) in rec.iter().zip(&self.epochs) {
            let t = e.date.epoch(self.ts);
            assert!(k.epoch == t && k.epoch.time_scale == self.ts, "epoch {:?} instead of {:?}", k.epoch, t);
            assert!(k.flag.to_string() == e.flag.to_string(), "epoch flag");
            let mut it = v.signals.iter();
            for (sv, obs) in &e.sats {
                let c = sv.chars().next().unwrap();
                let codes = &self.codes.iter().find(|(x, _)| *x == c).unwrap().1;
                for (code, o) in codes.iter().zip(obs) {
                    let Some((val, lli, snr)) = o else { continue };
                    let s = it.next().unwrap_or_else(|| panic!("missing {sv} {code}"));
                    assert!(s.sv == SV::from_str(sv).unwrap(), "{} instead of {sv} {code}", s.sv);
                    assert!(s.observable.to_string() == *code, "{sv} {} instead of {code}", s.observable);
                    let want: f64 = f14_3(*val).trim().parse().unwrap();
                    assert!(s.value.to_bits() == want.to_bits(), "{sv} {code}: {} instead of {want}", s.value);
                    assert!(s.lli.map(|l| l.bits()) == *lli, "{sv} {code}: lli {:?} instead of {lli:?}", s.lli);
                    assert!(s.snr.map(|l| format!("{l:x}")) == snr.map(|x| x.to_string()), "{sv} {code}: snr {:?} instead of {snr:?}", s.snr);
                }
            }
            assert!(it.next().is_none(), "more signals than described");
        }
    }
}

impl ObsDoc {
    /// `body` (what follows the header) holds this document in the exact columns
    /// of the standard. Vehicles without any observation may be omitted, the
    /// order of the vehicles is free.
    /// standard layout of the header that describes the observations
    pub fn check_header_text(&self, head: &str) {
        let of = |label: &str| -> Vec<String> { head.lines().filter(|l| l.len() > 60 && l[60..].trim_end() == label).map(|l| l[..60].to_string()).collect() };
        let first = head.lines().next().unwrap();
        let v = if self.major < 3 { "     2.11" } else { "     3.04" };
        assert!(first == format!("{:60}RINEX VERSION / TYPE", format!("{v}           OBSERVATION DATA    {}", &first[40..60])) && first[40..].starts_with(self.sys), "{first:?} for {}", self.sys);
        if self.major >= 3 {
            let mut seen = Vec::new();
            let lines = of("SYS / # / OBS TYPES");
            let mut i = 0;
            while i < lines.len() {
                let l = &lines[i];
                let sys = l.chars().next().unwrap();
                let (_, codes) = self.codes.iter().find(|(c, _)| *c == sys).unwrap_or_else(|| panic!("system of {l:?}"));
                assert!(l[1..6].trim() == codes.len().to_string(), "number of observables {l:?}");
                for (k, row) in codes.chunks(13).enumerate() {
                    let l = lines.get(i).unwrap_or_else(|| panic!("missing line for {sys}"));
                    assert!(k == 0 || l[..6].trim().is_empty(), "continuation {l:?}");
                    assert!(l[6..].trim_end() == row.iter().map(|c| format!(" {c}")).collect::<String>(), "observables {l:?} instead of {row:?}");
                    i += 1;
                }
                assert!(!seen.contains(&sys), "{sys} twice");
                seen.push(sys);
            }
            assert!(seen.len() == self.codes.len(), "systems {seen:?}");
        } else {
            let lines = of("# / TYPES OF OBSERV");
            let codes = &self.codes[0].1;
            assert!(lines.len() == (codes.len() + 8) / 9, "{} lines of observables", lines.len());
            for (k, row) in codes.chunks(9).enumerate() {
                let l = &lines[k];
                assert!(l[..6] == if k == 0 { format!("{:6}", codes.len()) } else { " ".repeat(6) }, "number of observables {l:?}");
                assert!(l[6..].trim_end() == row.iter().map(|c| format!("{c:>6}")).collect::<String>(), "observables {l:?} instead of {row:?}");
            }
        }
        let t = of("TIME OF FIRST OBS");
        assert!(t.len() <= 1);
        for l in &t {
            assert!(l[..30].as_bytes().chunks(6).all(|c| c[5].is_ascii_digit()) && &l[35..36] == "." && l[30..43].trim().len() >= 9 && l[43..48].trim().is_empty() && l[48..51].trim().len() == 3, "time of first observation {l:?}");
        }
    }
    pub fn check_text(&self, body: &str) {
        let mut lines = body.lines();
        let col = |l: &str, a: usize, b: usize| -> String { format!("{l:<128}")[a..b].to_string() };
        let cell = |o: &str, what: &Option<(i64, Option<u8>, Option<u8>)>, ctx: &str| {
            match what {
                None => assert!(o.trim().is_empty(), "{ctx}: {o:?} instead of a blank"),
                Some((v, l, n)) => {
                    assert!(o[..14] == f14_3(*v), "{ctx}: {:?} instead of {:?}", &o[..14], f14_3(*v));
                    assert!(o[14..15] == l.map_or(" ".to_string(), |x| x.to_string()), "{ctx}: loss of lock {:?} instead of {l:?}", &o[14..15]);
                    assert!(o[15..16] == n.map_or(" ".to_string(), |x| x.to_string()), "{ctx}: strength {:?} instead of {n:?}", &o[15..16]);
                },
            }
        };
        for e in &self.epochs {
            let d = &e.date;
            let mut want: Vec<&(String, Vec<Obs>)> = e.sats.iter().filter(|(_, o)| o.iter().any(|x| x.is_some())).collect();
            let l = lines.next().unwrap_or_else(|| panic!("missing epoch {d:?}"));
            let num = |a: usize, b: usize| col(l, a, b).trim().parse::<i64>().unwrap_or_else(|_| panic!("columns {a}..{b} of {l:?}"));
            let nb;
            if self.major >= 3 {
                assert!(l.starts_with("> ") && col(l, 21, 22) == "." && col(l, 29, 31).trim().is_empty(), "epoch line {l:?}");
                assert!([num(2, 6), num(7, 9), num(10, 12), num(13, 15), num(16, 18), num(19, 21), num(22, 29)] == [d.y as i64, d.m.into(), d.d.into(), d.hh.into(), d.mm.into(), d.ss.into(), d.f.into()], "epoch line {l:?} for {d:?}");
                assert!(num(31, 32) == e.flag as i64, "flag of {l:?}");
                nb = num(32, 35);
                for _ in 0..nb {
                    let l = lines.next().unwrap_or_else(|| panic!("missing vehicle"));
                    let sv = col(l, 0, 3);
                    let k = want.iter().position(|(s, _)| *s == sv).unwrap_or_else(|| panic!("vehicle of {l:?}"));
                    let (_, obs) = want.remove(k);
                    let l = format!("{l:<400}");
                    for (i, o) in obs.iter().enumerate() { cell(&l[3 + 16 * i..19 + 16 * i], o, &sv); }
                    assert!(l[3 + 16 * obs.len()..].trim().is_empty(), "more observations: {l:?}");
                }
            } else {
                assert!(l.starts_with(' ') && col(l, 18, 19) == "." && col(l, 26, 28).trim().is_empty(), "epoch line {l:?}");
                assert!([num(1, 3), num(4, 6), num(7, 9), num(10, 12), num(13, 15), num(16, 18), num(19, 26)] == [d.y as i64 % 100, d.m.into(), d.d.into(), d.hh.into(), d.mm.into(), d.ss.into(), d.f.into()], "epoch line {l:?} for {d:?}");
                assert!(num(28, 29) == e.flag as i64, "flag of {l:?}");
                nb = num(29, 32);
                let mut svs = Vec::new();
                let mut row = l;
                for i in 0..nb as usize {
                    if i > 0 && i % 12 == 0 {
                        assert!(col(row, 68, 128).trim().is_empty(), "more than 12 vehicles: {row:?}");
                        row = lines.next().unwrap_or_else(|| panic!("missing vehicles list"));
                        assert!(col(row, 0, 32).trim().is_empty(), "vehicles list {row:?}");
                    }
                    svs.push(col(row, 32 + 3 * (i % 12), 35 + 3 * (i % 12)));
                }
                assert!(col(row, 32 + 3 * ((nb.max(1) as usize - 1) % 12 + 1), 128).trim().is_empty(), "longer vehicles list {row:?}");
                for sv in svs {
                    let k = want.iter().position(|(s, _)| *s == sv).unwrap_or_else(|| panic!("vehicle {sv:?} of {l:?}"));
                    let (_, obs) = want.remove(k);
                    for chunk in obs.chunks(5) {
                        let l = format!("{:<80}", lines.next().unwrap_or_else(|| panic!("missing line of {sv}")));
                        assert!(l.len() == 80, "line longer than 80 columns");
                        for (i, o) in chunk.iter().enumerate() { cell(&l[16 * i..16 + 16 * i], o, &sv); }
                        assert!(l[16 * chunk.len()..].trim().is_empty(), "more observations: {l:?}");
                    }
                }
            }
            assert!(want.is_empty(), "vehicles missing: {want:?}");
        }
        assert!(lines.all(|l| l.trim().is_empty()), "text after the last epoch");
    }
}

/// same observations, whatever the order of the signals within an epoch
pub fn same_obs(a: &Rinex, b: &Rinex, what: &str) {
    let (a, b) = (a.record.as_obs().unwrap(), b.record.as_obs().unwrap());
    assert!(a.len() == b.len(), "{what}: {} epochs instead of {}", b.len(), a.len());
    for ((ka, va), (kb, vb)) in a.iter().zip(b) {
        assert!(ka == kb && ka.epoch.time_scale == kb.epoch.time_scale, "{what}: {kb:?} instead of {ka:?}");
        let mut x = va.signals.clone();
        let mut y = vb.signals.clone();
        x.sort_by(|p, q| (p.sv, &p.observable).cmp(&(q.sv, &q.observable)));
        y.sort_by(|p, q| (p.sv, &p.observable).cmp(&(q.sv, &q.observable)));
        assert!(x.len() == y.len(), "{what}: {} signals instead of {}", y.len(), x.len());
        for (p, q) in x.iter().zip(&y) {
            assert!(p == q && p.value.to_bits() == q.value.to_bits() || p.value == 0.0, "{what}: {q:?} instead of {p:?}");
        }
    }
}
