"""parse_epoch, parse_observations (src/doris/parsing.rs): the columns of the
epoch line, the station of each line, and the columns of every measurement."""
import re
from extract import *
import strs

FILE = "src/doris/parsing.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP, strs.COLUMNS_DROP,
    "Header: its field `doris` only, with its observables and stations; Station: its key, and the rest",
    "`stations.iter().find(|s| s.key == k)` -> `find_station(stations, k)` (verified)",
    "`for line in lines` -> `while let`",
    "texts of less than 2^60 bytes",
]
TRUSTED = strs.TRUSTED + ["the date is a function of the text (decided by P09)", "ClockObservation::with_offset_s is a function of its arguments", "HashMap::insert", "Clone for Station and Observable"]
CONTRACTS = ["parse_epoch", "parse_observations", "Columns::split_columns"]
CANARIES = ["canary"]

MODEL = r"""
global size_of usize == 8;
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
#[derive(Clone, Copy)]
pub struct EpochFlag { t: u8 }
pub enum TimeScale { TAI, UTC, GPST, GST, BDT, QZSST }
pub struct Observable { pub c: u8 }
impl Observable {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Observable) ensures r == *self { unimplemented!() }
}
pub struct Station { pub key: u16, pub rest: u8 }
impl Station {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Station) ensures r == *self { unimplemented!() }
}
pub struct ClockObservation { c: u8 }
pub uninterp spec fn no_clock() -> ClockObservation;
pub uninterp spec fn clock_at(c: ClockObservation, t: Epoch, v: f64) -> ClockObservation;
impl ClockObservation {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == no_clock() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_offset_s(&self, t: Epoch, v: f64) -> (r: Self) ensures r == clock_at(*self, t, v) { unimplemented!() }
}
pub struct SignalKey { pub observable: Observable, pub station: Station }
pub struct SignalObservation { pub m1: Option<u8>, pub m2: Option<u8>, pub value: f64 }
/// behind HashMap
#[verifier::external_body]
pub struct Signals { c: u8 }
impl View for Signals { type V = Map<SignalKey, SignalObservation>; uninterp spec fn view(&self) -> Map<SignalKey, SignalObservation>; }
impl Signals {
    #[verifier::external_body]
    pub fn insert(&mut self, k: SignalKey, v: SignalObservation) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
pub struct Observations { pub clock: ClockObservation, pub clock_extrapolated: bool, pub signals: Signals }
impl Observations {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.clock == no_clock(), !r.clock_extrapolated, r.signals@ == Map::<SignalKey, SignalObservation>::empty() { unimplemented!() }
}
pub struct DorisKey { pub epoch: Epoch, pub flag: EpochFlag }
pub struct HeaderFields { pub observables: Vec<Observable>, pub stations: Vec<Station> }
pub struct Header { pub doris: Option<HeaderFields> }
pub uninterp spec fn date(b: Seq<u8>, ts: TimeScale) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_epoch_in_timescale(s: &str, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(t) => date(s.spec_bytes(), ts) == Some(t), Err(_) => date(s.spec_bytes(), ts) is None }
{ unimplemented!() }

/// the first station of that key
pub open spec fn station_of(v: Seq<Station>, key: u16) -> Option<Station> decreases v.len() {
    if v.len() == 0 { None } else if v[0].key == key { Some(v[0]) } else { station_of(v.subrange(1, v.len() as int), key) }
}
pub fn find_station<'a>(v: &'a Vec<Station>, key: u16) -> (r: Option<&'a Station>)
    ensures match r { Some(s) => station_of(v@, key) == Some(*s), None => station_of(v@, key) is None }
{
    let mut i: usize = 0;
    proof { assert(v@.subrange(0, v@.len() as int) =~= v@); }
    while i < v.len()
        invariant i <= v@.len(), station_of(v@, key) == station_of(v@.subrange(i as int, v@.len() as int), key),
        decreases v@.len() - i,
    {
        proof { assert(v@.subrange(i as int, v@.len() as int).subrange(1, v@.len() - i) =~= v@.subrange(i + 1, v@.len() as int)); }
        if v[i].key == key { return Some(&v[i]); }
        i += 1;
    }
    None
}

pub type Measures = Map<SignalKey, SignalObservation>;
/// the n first fields of a line (without its three first columns)
pub open spec fn fields(m: Measures, l: Seq<u8>, s: Station, codes: Seq<Observable>, at: int, n: int) -> Measures decreases n {
    if n <= 0 { m } else {
        let (m, k) = (fields(m, l, s, codes, at, n - 1), 16 * (n - 1));
        match parsed::<f64>(trim(cols(l, k, k + 14))) {
            Some(value) => m.insert(
                SignalKey { observable: codes[at + n - 1], station: s },
                SignalObservation { m1: parsed::<u8>(cols(l, k + 14, k + 15)), m2: parsed::<u8>(cols(l, k + 15, k + 16)), value }),
            None => m,
        }
    }
}
/// number of fields of a line that starts at observable `at`
pub open spec fn count(codes: Seq<Observable>, at: int) -> int { if at + 5 < codes.len() { 5 } else if at < codes.len() { codes.len() - at } else { 0 } }
pub open spec fn is_station(l: Seq<u8>) -> bool { l.len() > 0 && l[0] == 'D' as u8 }
/// the lines of the stations; None: a damaged station
pub open spec fn measures(m: Measures, ls: Seq<Seq<u8>>, s: Option<Station>, at: int, codes: Seq<Observable>, stations: Seq<Station>) -> Option<Measures> decreases ls.len() {
    if ls.len() == 0 { Some(m) } else {
        let (l, rest) = (ls[0], ls.subrange(1, ls.len() as int));
        let key = parsed::<u16>(trim(cols(l, 1, 3)));
        if is_station(l) && key is None { None } else {
            let (s, at) = if is_station(l) { (station_of(stations, key.unwrap()), 0) } else { (s, at) };
            let m = if s is Some { fields(m, from(l, 3), s.unwrap(), codes, at, count(codes, at)) } else { m };
            measures(m, rest, s, at + 5, codes, stations)
        }
    }
}
pub struct Stamp { pub epoch: Epoch, pub flag: EpochFlag, pub clock: ClockObservation, pub extrapolated: bool }
/// the epoch line
pub open spec fn stamp(l: Seq<u8>) -> Option<Stamp> {
    let c = trim(cols(l, 37, 56));
    match (date(trim(cols(l, 2, 31)), TimeScale::TAI), parsed::<EpochFlag>(trim(cols(l, 31, 34))), parsed::<f64>(c)) {
        (Some(epoch), Some(flag), v) => if c.len() > 0 && v is None { None } else {
            Some(Stamp { epoch, flag, clock: if c.len() > 0 { clock_at(no_clock(), epoch, v.unwrap()) } else { no_clock() }, extrapolated: trim(from(l, 56)) == "1".spec_bytes() })
        },
        _ => None,
    }
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    s = re.sub(r"^\s*//[^\n]*\n", "\n", s, flags=re.M)
    def get(name):
        a, b, e = find_fn(s, name)
        f = re.sub(r"\|_\|", "|_e|", s[a:e])
        f = re.sub(r"\b(\w+)\.trim\(\)\.eq\((\"[^\"]*\")\)", r"same(\1.trim(), \2)", f)
        f = re.sub(r"\b(\w+)\.is_empty\(\)", r"is_empty_str(\1)", f)
        f = re.sub(r"&\[(\w+)\]", r"&Vec<\1>", f)
        f = re.sub(r"(\w+)\s*\.iter\(\)\s*\.find\(\|(\w+)\| \2\.key == (\w+)\)", r"find_station(\1, \3)", f)
        return strs.patterns(strs.cuts(f))
    o = get("parse_observations")
    o, n = re.subn(r"(while )(offset < NUM_OBS_PER_LINE && obs_ptr \+ offset < observables\.len\(\)) \{", r"""let ghost start = observations.signals@;
    \1\2
        invariant
            offset <= NUM_OBS_PER_LINE, obs_ptr <= usize::MAX - 16, offset == 0 || obs_ptr + offset <= observables@.len(),
            observations.clock == old(observations).clock, observations.clock_extrapolated == old(observations).clock_extrapolated,
            ascii(line.spec_bytes()) ==> {
                &&& ascii(rem.spec_bytes()) && rem.spec_bytes() == from(line.spec_bytes(), 16 * offset)
                &&& observations.signals@ == fields(start, line.spec_bytes(), *station, observables@, obs_ptr as int, offset as int)
            },
        decreases 5 - offset,
    {""", o)
    if n != 1:
        raise Lost("loop over the fields")
    o = "#[verifier::loop_isolation(false)]\n" + splice(strs.opaque_columns(o), "parse_observations", """    requires obs_ptr <= usize::MAX - 16,
    ensures
        final(observations).clock == old(observations).clock, final(observations).clock_extrapolated == old(observations).clock_extrapolated,
        ascii(line.spec_bytes()) ==> final(observations).signals@ == fields(old(observations).signals@, line.spec_bytes(), *station, observables@, obs_ptr as int, count(observables@, obs_ptr as int)),""")
    f = get("parse_epoch")
    f, n = re.subn(r"for line in lines \{", """let ghost ok = ascii(content.spec_bytes());
    let ghost seen = stamp(line.spec_bytes()).unwrap();
    let ghost want = measures(Map::empty(), lines@, None, 0, observables@, stations@);
    while let Some(line) = lines.next()
        invariant
            lines@.len() < 0x1000_0000_0000_0000, (obs_ptr as int) + 5 * lines@.len() <= 0x5000_0000_0000_0000,
            ok ==> {
                &&& forall|i: int| 0 <= i < lines@.len() ==> ascii(#[trigger] lines@[i])
                &&& measures(observations.signals@, lines@, match station { Some(s) => Some(*s), None => None }, obs_ptr as int, observables@, stations@) == want
                &&& observations.clock == seen.clock && observations.clock_extrapolated == seen.extrapolated
            },
        decreases lines@.len(),
    {""", f)
    if n != 1:
        raise Lost("loop over the lines")
    f = "#[verifier::loop_isolation(false)]\n" + splice(strs.opaque_columns(f), "parse_epoch", """    requires content.spec_bytes().len() < 0x1000_0000_0000_0000,
    ensures ascii(content.spec_bytes()) ==> ({
        let ls = lines_of(content.spec_bytes());
        let st = if ls.len() > 0 { stamp(ls[0]) } else { None };
        let m = match header.doris { Some(d) => if ls.len() > 0 { measures(Map::empty(), ls.subrange(1, ls.len() as int), None, 0, d.observables@, d.stations@) } else { None }, None => None };
        &&& r is Ok <==> st is Some && m is Some
        &&& r is Ok ==> {
            &&& r->Ok_0.0 == (DorisKey { epoch: st.unwrap().epoch, flag: st.unwrap().flag })
            &&& r->Ok_0.1.clock == st.unwrap().clock && r->Ok_0.1.clock_extrapolated == st.unwrap().extrapolated
            &&& r->Ok_0.1.signals@ == m.unwrap()
        }
    }),""", ret="r")
    return strs.prelude_columns("_any") + strs.columns(repo) + strs.enum(o + f, "ParsingError") + MODEL + strs.fromstr("EpochFlag", "ParsingError") + o + "\n" + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
