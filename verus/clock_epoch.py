"""parse_epoch (src/clock/record.rs): type, name, epoch and the (up to) six
values of a clock profile, one or two lines, each from its own place."""
import re
from extract import *
import strs

FILE = "src/clock/record.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP,
    "`version < LIMIT` -> lexicographic comparison (the derived PartialOrd)",
    "`for (i, w) in x.split_ascii_whitespace().enumerate()`, `for line in lines` -> `while let` with a counter; the items are opaque sequences of texts",
    "`\"..\".len()` -> the number; String::trim through as_str",
]
TRUSTED = strs.TRUSTED + ["parse_epoch_in_timescale, SV::from_str, ClockProfileType::from_str: functions of the text (decided by P09, P01, P02)",
                          "str::split_ascii_whitespace: left abstract (the sequence of words)"]
CONTRACTS = ["parse_epoch"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub struct Version { pub major: u8, pub minor: u8 }
pub open spec fn older(a: Version, b: Version) -> bool { a.major < b.major || (a.major == b.major && a.minor < b.minor) }
impl Version {
    pub fn older(self, b: Version) -> (r: bool) ensures r == older(self, b) { self.major < b.major || (self.major == b.major && self.minor < b.minor) }
}
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
#[derive(Clone, Copy)]
pub struct TimeScale { t: u8 }
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: u8 }
#[derive(Clone, Copy)]
pub struct ClockProfileType { t: u8 }
pub enum ClockType { SV(SV), Station(String) }
pub struct ClockKey { pub clock_type: ClockType, pub profile_type: ClockProfileType }
pub struct ClockProfile { pub bias: f64, pub bias_dev: Option<f64>, pub drift: Option<f64>, pub drift_dev: Option<f64>, pub drift_change: Option<f64>, pub drift_change_dev: Option<f64> }
pub uninterp spec fn zero() -> f64;
pub open spec fn blank() -> ClockProfile { ClockProfile { bias: zero(), bias_dev: None, drift: None, drift_dev: None, drift_change: None, drift_change_dev: None } }
impl ClockProfile {
    #[verifier::external_body]
    pub fn default() -> (r: ClockProfile) ensures r == blank() { unimplemented!() }
}
pub uninterp spec fn stamp(b: Seq<u8>, ts: TimeScale) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_epoch_in_timescale(s: &str, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(t) => stamp(s.spec_bytes(), ts) == Some(t), Err(_) => stamp(s.spec_bytes(), ts) is None }
{ unimplemented!() }

pub open spec fn old_format(v: Version) -> bool { older(v, Version { major: 3, minor: 4 }) }
/// the name: 4 columns, 9 since revision 3.04; the epoch after it
pub open spec fn name(l: Seq<u8>, v: Version) -> Seq<u8> { if old_format(v) { trim(l.subrange(3, 8)) } else { trim(l.subrange(3, 13)) } }
pub open spec fn vehicle(l: Seq<u8>, v: Version) -> Option<SV> { parsed::<SV>(if old_format(v) { trim(l.subrange(3, 8)) } else { trim(l.subrange(3, 7)) }) }
pub open spec fn date(l: Seq<u8>, v: Version) -> Seq<u8> { if old_format(v) { trim(l.subrange(8, 36)) } else { trim(l.subrange(13, 41)) } }
/// the values that follow the count
pub open spec fn data(l: Seq<u8>, v: Version) -> Seq<Seq<u8>> { words_of(l.subrange(if old_format(v) { 40 } else { 45 }, l.len() as int)) }
pub open spec fn whole(l: Seq<u8>, v: Version) -> bool { ascii(l) && l.len() >= (if old_format(v) { 40int } else { 45int }) && !prefix(l.subrange(3, l.len() as int), "    ".spec_bytes()) }

pub open spec fn num(w: Seq<Seq<u8>>, i: int) -> Option<f64> { parsed::<f64>(trim(w[i])) }
pub open spec fn nums(w: Seq<Seq<u8>>, n: int) -> bool { forall|i: int| 0 <= i < n && i < w.len() ==> (#[trigger] num(w, i)) is Some }
/// the first k words of the first line
pub open spec fn first(p: ClockProfile, w: Seq<Seq<u8>>, k: int) -> ClockProfile {
    ClockProfile { bias: if k > 0 { num(w, 0).unwrap() } else { p.bias }, bias_dev: if k > 1 { num(w, 1) } else { p.bias_dev }, ..p }
}
/// the first k words of the second line
pub open spec fn second(p: ClockProfile, w: Seq<Seq<u8>>, k: int) -> ClockProfile {
    ClockProfile {
        drift: if k > 0 { num(w, 0) } else { p.drift }, drift_dev: if k > 1 { num(w, 1) } else { p.drift_dev },
        drift_change: if k > 2 { num(w, 2) } else { p.drift_change }, drift_change_dev: if k > 3 { num(w, 3) } else { p.drift_change_dev }, ..p }
}
pub open spec fn profile(ls: Seq<Seq<u8>>, v: Version) -> ClockProfile {
    let p = first(blank(), data(ls[0], v), data(ls[0], v).len() as int);
    if ls.len() < 2 { p } else { second(p, words_of(ls[1]), words_of(ls[1]).len() as int) }
}
pub open spec fn valid(ls: Seq<Seq<u8>>, v: Version, ts: TimeScale) -> bool {
    ls.len() > 0 && whole(ls[0], v) && parsed::<ClockProfileType>(trim(ls[0].subrange(0, 3))) is Some && stamp(date(ls[0], v), ts) is Some
        && nums(data(ls[0], v), 2) && (ls.len() > 1 ==> nums(words_of(ls[1]), 4))
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "parse_epoch")
    f = s[a:e]
    f = re.sub(r"(\w+)\s*<\s*LIMIT", r"\1.older(LIMIT)", f)
    f = re.sub(r"\bcontent\.trim\(\)", "content.as_str().trim()", f)
    f = f.replace("content.as_str().trim().to_string()", "string_of(content.as_str().trim())")
    f = f.replace("map_err(|_|", "map_err(|_e|")
    f = strs.patterns(strs.cuts(f))
    n = 0
    def loop(m):
        nonlocal n
        n += 1
        w, fn, base, k, known = [
            ("all_words", "first", "blank()", 2, "all_words == data(lines_of(content.spec_bytes())[0], version),"),
            ("line_words", "second", "from", 4, "lines_of(content.spec_bytes()).len() > 1, line_words == words_of(lines_of(content.spec_bytes())[1]),"),
        ][n - 1] if n <= 2 else [None] * 5
        return f"""let mut verif_w{n} = words({m[3]});
    let mut verif_n: usize = 0;
    let ghost {w} = verif_w{n}@;
    while let Some({m[2]}) = verif_w{n}.next()
        invariant
            lines_of(content.spec_bytes()).len() > 0, {known}
            verif_n + verif_w{n}@.len() == {w}.len(), {w}.len() <= isize::MAX,
            verif_w{n}@ == {w}.subrange(verif_n as int, {w}.len() as int),
            forall|i: int| 0 <= i < {w}.len() ==> ascii(#[trigger] {w}[i]),
            profile == {fn}({base}, {w}, verif_n as int), nums({w}, min(verif_n as int, {k})),
        ensures verif_n == {w}.len(),
        decreases verif_w{n}@.len(),
    {{
        let {m[1]} = verif_n;
        verif_n += 1;
        proof {{ assert(item.spec_bytes() == {w}[index as int]); }}"""
    f = re.sub(r"for \((\w+), (\w+)\) in (\w+)\.split_ascii_whitespace\(\)\.enumerate\(\) \{", loop, f)
    if n != 2:
        raise Lost("loops over the words")
    f, n = re.subn(r"for line in lines \{", """let ghost from = profile;
    let mut verif_l: usize = 0;
    while let Some(line) = lines.next()
        invariant
            all == lines_of(content.spec_bytes()), forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
            verif_l + lines@.len() + 1 == all.len(), all.len() <= 2,
            lines@ == all.subrange(verif_l + 1, all.len() as int),
            verif_l > 0 ==> nums(words_of(all[1]), 4),
            profile == if verif_l == 0 { from } else { second(from, words_of(all[1]), words_of(all[1]).len() as int) },
        ensures lines@.len() == 0,
        decreases lines@.len(),
    {
        verif_l += 1;
        proof { assert(line.spec_bytes() == all[1]); }""", f)
    if n != 1:
        raise Lost("loop over the lines")
    f = splice(f, "parse_epoch", """    requires
        ascii(content.spec_bytes()), lines_of(content.spec_bytes()).len() <= 2,
    ensures
        r is Ok <==> valid(lines_of(content.spec_bytes()), version, ts),
        r is Ok ==> {
            let ls = lines_of(content.spec_bytes());
            let (t, key, p) = r->Ok_0;
            &&& Some(t) == stamp(date(ls[0], version), ts)
            &&& Some(key.profile_type) == parsed::<ClockProfileType>(trim(ls[0].subrange(0, 3)))
            &&& match vehicle(ls[0], version) {
                Some(sv) => key.clock_type == ClockType::SV(sv),
                None => key.clock_type is Station && encode_utf8(key.clock_type->Station_0@) == name(ls[0], version),
            }
            &&& p == profile(ls, version)
        },""", ret="r")
    f = f.replace("const LIMIT", "let ghost all = lines_of(content.spec_bytes());\n    const LIMIT", 1)
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + strs.fromstr("SV") + strs.fromstr("ClockProfileType", "ParsingError") + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
