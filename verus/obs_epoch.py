"""is_new_epoch, parse_epoch, parse_observations (src/observation/parsing.rs): the
columns of an epoch line, and the list of vehicles of a V2 epoch over its
continuation lines."""
import re
from extract import *
import strs

FILE = "src/observation/parsing.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP, strs.COLUMNS_DROP,
    "`line.chars().next()` -> `first_char(line)`, `n.into()` of a u16 -> `n as usize`, `String::len` -> `string_len`, `&String` as a &str -> `as_str()`",
    "Header: its fields version, constellation and obs.codes only; Observations: its list of signals only",
]
TRUSTED = strs.TRUSTED + [
    "Observations::with_clock_observation has no effect but its result (it takes &self)",
    "str::trim_end, str::lines (abstract), str::char_indices", "parse_epoch_in_timescale, parse_utc_epoch, EpochFlag::from_str are functions of the text (P09, P02)",
    "parse_signals_v2, parse_signals_v3 append a sequence that is a function of their arguments (the units obs_v2 and obs_v3 prove which)",
]
CONTRACTS = ["is_new_epoch", "parse_epoch", "parse_observations"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub struct Version { pub major: u8, pub minor: u8 }
#[derive(Clone, Copy)]
pub enum Constellation { GPS, Glonass, BeiDou, QZSS, Galileo, IRNSS, SBAS, Mixed, Other(u8) }
#[derive(Clone, Copy)]
pub struct TimeScale { t: u8 }
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
pub struct SignalObservation { t: u64 }
pub struct Codes { t: u64 }
pub struct ObsFields { pub codes: Codes }
pub struct Header { pub version: Version, pub constellation: Option<Constellation>, pub obs: Option<ObsFields> }
pub struct Observations { pub signals: Vec<SignalObservation> }
#[derive(Clone, Copy)]
pub enum EpochFlag { Ok, PowerFailure, AntennaBeingMoved, NewSiteOccupation, HeaderInformationFollows, ExternalEvent, CycleSlip }
pub struct ObsKey { pub epoch: Epoch, pub flag: EpochFlag }
#[derive(Clone, Copy)]
pub struct ClockObservation { t: u8 }
impl ClockObservation {
    #[verifier::external_body]
    pub fn default() -> ClockObservation { unimplemented!() }
    #[verifier::external_body]
    pub fn with_offset_s(&self, e: Epoch, o: f64) -> ClockObservation { unimplemented!() }
}
impl Observations {
    #[verifier::external_body]
    pub fn with_clock_observation(&self, c: ClockObservation) -> Observations { unimplemented!() }
}
pub uninterp spec fn utc(b: Seq<u8>) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_utc_epoch(s: &str) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(t) => utc(s.spec_bytes()) == Some(t), Err(_) => utc(s.spec_bytes()) is None }
{ unimplemented!() }
pub uninterp spec fn stamp(b: Seq<u8>, ts: TimeScale) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_epoch_in_timescale(s: &str, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(t) => stamp(s.spec_bytes(), ts) == Some(t), Err(_) => stamp(s.spec_bytes(), ts) is None }
{ unimplemented!() }
pub uninterp spec fn signals_v2(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, ls: Seq<Seq<u8>>) -> Seq<SignalObservation>;
pub uninterp spec fn signals_v3(codes: Codes, ls: Seq<Seq<u8>>) -> Seq<SignalObservation>;
#[verifier::external_body]
pub fn parse_signals_v2(systems_str: &str, systems_str_len: usize, head: Option<Constellation>, codes: &Codes, lines: Lines<'_>, signals: &mut Vec<SignalObservation>)
    requires systems_str_len == systems_str.spec_bytes().len(), ascii(systems_str.spec_bytes()),
    ensures final(signals)@ == old(signals)@ + signals_v2(systems_str.spec_bytes(), head, *codes, lines@)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_signals_v3(codes: &Codes, lines: Lines<'_>, signals: &mut Vec<SignalObservation>)
    ensures final(signals)@ == old(signals)@ + signals_v3(*codes, lines@)
{ unimplemented!() }
#[verifier::external_body]
pub fn first_char(s: &str) -> (r: Option<char>)
    ensures r is Some <==> s.spec_bytes().len() > 0, (r == Some('>')) == (s.spec_bytes().len() > 0 && s.spec_bytes()[0] == 62)
{ s.chars().next() }
#[verifier::external_body]
pub fn string_len(s: &String) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= isize::MAX { s.len() }
pub trait VMin { fn vmin(self, b: usize) -> usize; }
impl VMin for usize { fn vmin(self, b: usize) -> (r: usize) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }

pub open spec fn flag_of(b: Seq<u8>) -> Option<EpochFlag> { parsed::<EpochFlag>(trim(b)) }
pub open spec fn event(f: EpochFlag) -> bool {
    f == EpochFlag::AntennaBeingMoved || f == EpochFlag::NewSiteOccupation || f == EpochFlag::HeaderInformationFollows || f == EpochFlag::ExternalEvent
}
/// an epoch starts on this line
pub open spec fn starts_epoch(l: Seq<u8>, v: Version) -> bool {
    if v.major < 3 {
        l.len() >= 30 && ascii(l) && match flag_of(l.subrange(26, 29)) {
            None => false,
            Some(f) => if trim(l.subrange(0, 26)).len() > 0 { utc(l.subrange(0, 26)) is Some } else { event(f) },
        }
    } else { l.len() > 0 && l[0] == 62 }
}
/// the vehicles that a continuation line adds
pub open spec fn part(l: Seq<u8>) -> Seq<u8> { if l.len() >= 32 && trim(cols(l, 0, 32)).len() == 0 { rtrim(from(l, 32)) } else { trim(l) } }
/// the list of n vehicles, over as many lines as needed
pub open spec fn systems(s: Seq<u8>, ls: Seq<Seq<u8>>, n: int) -> Option<(Seq<u8>, Seq<Seq<u8>>)> decreases ls.len() {
    if s.len() as int / 3 >= n { Some((s, ls)) } else if ls.len() == 0 { None } else { systems(s + part(ls[0]), ls.subrange(1, ls.len() as int), n) }
}
/// the observations of an epoch of n vehicles
pub open spec fn observations(h: Header, n: int, rem: Seq<u8>, ls: Seq<Seq<u8>>) -> Option<Seq<SignalObservation>> {
    if h.version.major < 3 {
        match systems(cols(rtrim(rem), 0, 36), ls, n) { Some((s, rest)) => Some(signals_v2(s, h.constellation, h.obs.unwrap().codes, rest)), None => None }
    } else { Some(signals_v3(h.obs.unwrap().codes, ls)) }
}
/// the epoch line, without its marker
pub open spec fn line0(ls: Seq<Seq<u8>>) -> Seq<u8> { if ls[0].len() > 0 && ls[0][0] == 62 { from(ls[0], 1) } else { ls[0] } }
pub open spec fn width(v: Version) -> int { if v.major > 2 { 28 } else { 26 } }
pub open spec fn epoch_key(b: Seq<u8>, v: Version, ts: TimeScale) -> Option<(ObsKey, int)> {
    if !ascii(b) || lines_of(b).len() == 0 { None } else {
        let (l, at) = (line0(lines_of(b)), width(v));
        match (stamp(cols(l, 0, at), ts), flag_of(cols(l, at, at + 3)), parsed::<u16>(trim(cols(l, at + 3, at + 6)))) {
            (Some(epoch), Some(flag), Some(n)) => Some((ObsKey { epoch, flag }, n as int)),
            _ => None,
        }
    }
}
pub open spec fn tail(b: Seq<u8>) -> Seq<Seq<u8>> { lines_of(b).subrange(1, lines_of(b).len() as int) }
pub open spec fn result(h: Header, b: Seq<u8>, ts: TimeScale) -> Option<(ObsKey, Seq<SignalObservation>)> {
    match epoch_key(b, h.version, ts) {
        None => None,
        Some((k, n)) => if event(k.flag) { None } else {
            match observations(h, n, from(line0(lines_of(b)), width(h.version) + 6), tail(b)) { Some(s) => Some((k, s)), None => None }
        },
    }
}
"""


def common(f):
    f = re.sub(r"\|_\|", "|_e|", f)
    f = re.sub(r"(\w+)\.chars\(\)\.next\(\)", r"first_char(\1)", f)
    f = re.sub(r"(\w+)\.into\(\)", r"(\1 as usize)", f).replace(".min(", ".vmin(")
    f = strs.cuts(f)
    f = re.sub(r"\b(\w+(?:\.cut\([^()]*\))?(?:\.trim\(\))?)\.is_empty\(\)", r"is_empty_str(\1)", f)
    f = strs.patterns(f)
    f = re.sub(r"\bsystems_str\.len\(\)", "string_len(&systems_str)", f)
    f = re.sub(r"&systems_str,", "systems_str.as_str(),", f)
    return f


def get(s, name):
    a, b, e = find_fn(s, name)
    return common(s[a:e])


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    n = splice(get(s, "is_new_epoch"), "is_new_epoch", "    ensures r == starts_epoch(line.spec_bytes(), v),", ret="r")
    o = get(s, "parse_observations")
    o = o.replace("let rem = rem.trim_end();", "let ghost rem0 = rem; let ghost lines0 = lines@; let rem = rem.trim_end();", 1)
    o, k = re.subn(r"while ([^{]*)\{", r"""let ghost start = (encode_utf8(systems_str@), lines@);
        while \1
            invariant
                systems_str_len == encode_utf8(systems_str@).len(), ascii(encode_utf8(systems_str@)), systems_str_len <= isize::MAX,
                forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
                start.0 == cols(rtrim(rem0.spec_bytes()), 0, 36), start.1 == lines0, header.version.major < 3,
                systems(start.0, start.1, num_sat as int) == systems(encode_utf8(systems_str@), lines@, num_sat as int),
            decreases lines@.len(),
        {""", o)
    if k != 1:
        raise Lost("loop over the continuation lines")
    o = splice(o, "parse_observations", """    requires
        header.obs is Some, ascii(rem.spec_bytes()), forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
    ensures
        r is Ok <==> observations(*header, num_sat as int, rem.spec_bytes(), lines@) is Some,
        r is Ok ==> final(signals)@ == old(signals)@ + observations(*header, num_sat as int, rem.spec_bytes(), lines@).unwrap(),""", ret="r")
    o = "#[verifier::loop_isolation(false)]\n" + o
    e = splice(get(s, "parse_epoch"), "parse_epoch", """    requires
        header.obs is Some,
    ensures
        r is Ok <==> result(*header, content.spec_bytes(), ts) is Some,
        r is Ok ==> {
            let (k, s) = result(*header, content.spec_bytes(), ts).unwrap();
            r->Ok_0 == k && final(observations).signals@ == old(observations).signals@ + s
        },""", ret="r")
    return strs.prelude_columns() + strs.enum(n + o + e, "ParsingError") + strs.columns(repo) + MODEL + strs.fromstr("EpochFlag", "ParsingError") + n + "\n" + o + "\n" + e + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
