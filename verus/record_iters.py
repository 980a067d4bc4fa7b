"""The iterators over the records (src/observation/rinex, src/meteo/rinex,
src/ionex/rinex, src/iterators.rs) and the sampling statistics (src/sampling.rs):
each keeps exactly the items it names, in order."""
import re
from extract import *

OBS = "src/observation/rinex/mod.rs"
FEAT = "src/observation/rinex/feature.rs"
MET = "src/meteo/rinex/feature.rs"
ITER = "src/iterators.rs"
SAMP = "src/sampling.rs"
ION = "src/ionex/rinex/feature.rs"
DROPS = [
    "`Box<dyn Iterator<Item = T> + '_>`, `Box::new(..)` -> an iterator type whose view is the sequence of its items",
    "`|pattern| body` -> `|x: T| -> (out: ..) ensures .. { let pattern = x; body }`",
    "`a == Observable::X` -> eq_obs(&a, &Observable::X); `a == Self::X` of EpochFlag -> a match; `a | b` of LliFlags -> union; `a - b`, `a > b` of dates and durations -> minus, longer",
    "derive attributes, doc comments",
]
TRUSTED = [
    "the iterator adaptors filter_map, filter, zip, skip, next, last, count of std: their documented sequences",
    "the iterators over the whole record (signal_observations_iter, observations_iter, meteo_observations_iter, doris_ground_station_signals_iter, ionex_tec_maps_iter, epoch_iter, sampling_histogram): sequences of the record (decided by the native search of P18)",
    "bitflags (union, intersects, contains, is_empty, bits) and the derived PartialEq, hifitime (difference and order of dates, TimeSeries::inclusive)",
]

MODEL = r"""
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
/// what an option holds, in order
pub open spec fn kept<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(b) => kept(o.drop_last()).push(b), None => kept(o.drop_last()) } }
}
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn skipped<A>(s: Seq<A>, n: int) -> Seq<A> { if n <= s.len() { s.subrange(n, s.len() as int) } else { Seq::empty() } }
pub open spec fn picks<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> { kept(s.map_values(g)) }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<B>| (forall|i: int, o: Option<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o == g(self@[i])) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<T>| (forall|i: int, o: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), o) ==> g(self@[i]) == if o { Some(self@[i]) } else { None }) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@ == zipped(self@, o@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r@ == skipped(self@, n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<T>) ensures r == if self@.len() == 0 { None } else { Some(self@[0]) } { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == if self@.len() == 0 { None } else { Some(self@.last()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub fn boxed<T>(t: It<T>) -> (r: It<T>) ensures r == t { t }
#[verifier::external_body]
pub fn nothing<T>() -> (r: It<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }

#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy)]
pub struct Duration { pub ns: i128 }
#[verifier::external_body]
pub fn minus(a: Epoch, b: Epoch) -> (r: Duration) ensures r.ns == a.ns - b.ns { unimplemented!() }
pub fn longer(a: Duration, b: Duration) -> (r: bool) ensures r == (a.ns > b.ns) { a.ns > b.ns }
pub struct TimeSeries { t: u8 }
pub uninterp spec fn inclusive(a: Epoch, b: Epoch, d: Duration) -> TimeSeries;
impl TimeSeries {
    #[verifier::external_body]
    pub fn inclusive(a: Epoch, b: Epoch, d: Duration) -> (r: TimeSeries) ensures r == inclusive(a, b, d) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: u8 }
pub struct SNR { s: u8 }
#[derive(Clone, Copy)]
pub struct ClockObservation { pub offset_s: f64 }
#[derive(Clone, Copy)]
pub struct LliFlags { pub bits: u8 }
impl LliFlags {
    CONSTANTS
    pub fn intersects(self, o: LliFlags) -> (r: bool) ensures r == (self.bits & o.bits != 0) { self.bits & o.bits != 0 }
    pub fn contains(self, o: LliFlags) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }
    pub fn union(self, o: LliFlags) -> (r: LliFlags) ensures r.bits == self.bits | o.bits, forall|x: u8| (#[trigger] (x & r.bits) != 0) == (x & self.bits != 0 || x & o.bits != 0)
    { proof { let a = self.bits; let b = o.bits; assert(forall|x: u8| (#[trigger] (x & (a | b)) != 0) == (x & a != 0 || x & b != 0)) by (bit_vector); } LliFlags { bits: self.bits | o.bits } }
    pub fn is_empty(self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
    pub fn bits(self) -> (r: u8) ensures r == self.bits { self.bits }
}
#[derive(Clone, Copy)]
pub struct ObsKey { pub epoch: Epoch, pub flag: EpochFlag }
pub struct SignalObservation { pub sv: SV, pub value: f64, pub observable: Observable, pub lli: Option<LliFlags>, pub snr: Option<SNR> }
pub struct Observations { pub clock: Option<ClockObservation>, pub signals: Vec<SignalObservation> }
pub struct MeteoKey { pub epoch: Epoch, pub observable: Observable }
#[derive(Clone, Copy)]
pub struct DorisKey { pub epoch: Epoch, pub flag: EpochFlag }
pub struct SignalKey { pub observable: Observable, pub station: u8 }
pub struct DorisSignal { pub value: f64 }
#[derive(Clone, Copy)]
pub struct IonexKey { pub epoch: Epoch, pub coordinates: u64 }
pub struct TEC { pub rms: Option<f64> }
impl TEC {
    pub uninterp spec fn rms(&self) -> Option<f64>;
    #[verifier::external_body]
    pub fn rms_tec(&self) -> (r: Option<f64>) ensures r == self.rms() { unimplemented!() }
}
#[verifier::external_body]
pub fn eq_obs(a: &Observable, b: &Observable) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }

pub struct Linspace { pub start: f64, pub end: f64, pub spacing: f64 }
pub struct Grid { pub latitude: Linspace, pub longitude: Linspace, pub height: Linspace }
pub struct IonexHeader { pub grid: Grid }
pub struct Header { pub sampling_interval: Option<Duration>, pub ionex: Option<IonexHeader> }
pub struct Rinex { pub header: Header }
impl Rinex {
    pub uninterp spec fn signals<'a>(&'a self) -> Seq<(ObsKey, &'a SignalObservation)>;
    pub uninterp spec fn observations<'a>(&'a self) -> Seq<(&'a ObsKey, &'a Observations)>;
    pub uninterp spec fn keys<'a>(&'a self) -> Seq<&'a ObsKey>;
    pub uninterp spec fn meteo<'a>(&'a self) -> Seq<(&'a MeteoKey, &'a f64)>;
    pub uninterp spec fn doris(&self) -> Seq<(DorisKey, SignalKey, DorisSignal)>;
    pub uninterp spec fn maps<'a>(&'a self) -> Seq<(IonexKey, &'a TEC)>;
    pub uninterp spec fn epochs(&self) -> Seq<Epoch>;
    pub uninterp spec fn histogram(&self) -> Seq<(Duration, usize)>;
    pub uninterp spec fn dominant(&self) -> Option<Duration>;
    pub uninterp spec fn met(&self) -> bool;
    pub uninterp spec fn dor(&self) -> bool;
    pub uninterp spec fn flat(&self) -> bool;
    #[verifier::external_body]
    pub fn signal_observations_iter(&self) -> (r: It<(ObsKey, &SignalObservation)>) ensures r@ == self.signals() { unimplemented!() }
    #[verifier::external_body]
    pub fn observations_iter(&self) -> (r: It<(&ObsKey, &Observations)>) ensures r@ == self.observations() { unimplemented!() }
    #[verifier::external_body]
    pub fn observation_keys(&self) -> (r: It<&ObsKey>) ensures r@ == self.keys() { unimplemented!() }
    #[verifier::external_body]
    pub fn meteo_observations_iter(&self) -> (r: It<(&MeteoKey, &f64)>) ensures r@ == self.meteo() { unimplemented!() }
    #[verifier::external_body]
    pub fn doris_ground_station_signals_iter(&self) -> (r: It<(DorisKey, SignalKey, DorisSignal)>) ensures r@ == self.doris() { unimplemented!() }
    #[verifier::external_body]
    pub fn ionex_tec_maps_iter(&self) -> (r: It<(IonexKey, &TEC)>) ensures r@ == self.maps() { unimplemented!() }
    #[verifier::external_body]
    pub fn epoch_iter(&self) -> (r: It<Epoch>) ensures r@ == self.epochs() { unimplemented!() }
    #[verifier::external_body]
    pub fn sampling_histogram(&self) -> (r: It<(Duration, usize)>) ensures r@ == self.histogram() { unimplemented!() }
    #[verifier::external_body]
    pub fn dominant_sampling_interval(&self) -> (r: Option<Duration>) ensures r == self.dominant() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_meteo_rinex(&self) -> (r: bool) ensures r == self.met() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_doris(&self) -> (r: bool) ensures r == self.dor() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ionex_2d(&self) -> (r: bool) ensures r == self.flat() { unimplemented!() }
    /// the limit of data_gaps
    pub open spec fn limit(&self, tolerance: Option<Duration>) -> Option<Duration> {
        if tolerance is Some { tolerance } else if self.dominant() is Some { self.dominant() } else { self.header.sampling_interval }
    }
}
pub type Sig<'a> = (ObsKey, &'a SignalObservation);
pub open spec fn ok(k: ObsKey) -> bool { k.flag == EpochFlag::Ok }
pub open spec fn lost(s: &SignalObservation, m: u8) -> bool { s.lli matches Some(l) && l.bits & m != 0 }
pub open spec fn stamped<'a>(x: Sig<'a>) -> (Epoch, &'a SignalObservation) { (x.0.epoch, x.1) }
pub open spec fn of(x: (&MeteoKey, &f64), o: Observable) -> Option<(Epoch, f64)> { if x.0.observable == o { Some((x.0.epoch, *x.1)) } else { None } }
pub open spec fn from_station(x: (DorisKey, SignalKey, DorisSignal), o: Observable) -> Option<(Epoch, f64)> { if x.1.observable == o { Some((x.0.epoch, x.2.value)) } else { None } }
pub open spec fn gap(x: (Epoch, Epoch), limit: int) -> Option<(Epoch, Duration)> { if x.1.ns - x.0.ns > limit { Some((x.0, Duration { ns: (x.1.ns - x.0.ns) as i128 })) } else { None } }
/// an epoch and the next
pub open spec fn pairs(s: Seq<Epoch>) -> Seq<(Epoch, Epoch)> { zipped(s, skipped(s, 1)) }
"""

SIG = "Sig<'_>"
MKEY = "(&MeteoKey, &f64)"
# function -> (file, type of the items, type of the results, [what is kept], postcondition)
L = {"is_pseudo_range": "PseudoRange", "is_phase_range": "PhaseRange", "is_doppler": "Doppler", "is_ssi": "SSI"}
SPEC = {}


def sig(name, file, cond, out="x", base="self.signals()"):
    SPEC[name] = (file, [(SIG, "_", f"if {cond} {{ Some({out}) }} else {{ None }}")], f"r@ == picks({base}, |x: Sig<'_>| if {cond} {{ Some({out}) }} else {{ None }})")


for fn, var in [("pseudo_range_observations_iter", "PseudoRange"), ("phase_range_observations_iter", "PhaseRange"), ("doppler_observations_iter", "Doppler"), ("ssi_observations_iter", "SSI")]:
    sig(fn, OBS, f"x.1.observable is {var}")
SPEC["clock_observations_iter"] = (OBS, [("(&ObsKey, &Observations)", "(ObsKey, ClockObservation)", "match x.1.clock { Some(c) => Some((*x.0, c)), None => None }")],
                                   "r@ == picks(self.observations(), |x: (&ObsKey, &Observations)| match x.1.clock { Some(c) => Some((*x.0, c)), None => None })")
sig("signal_observations_sampling_ok_iter", FEAT, "ok(x.0)", "stamped(x)")
AT = "(Epoch, &SignalObservation)"
OKS = "picks(self.signals(), |x: Sig<'_>| if ok(x.0) { Some(stamped(x)) } else { None })"


def at(name, cond, base):
    SPEC[name] = (FEAT, [(AT, "_", f"if {cond} {{ Some(x) }} else {{ None }}")], f"r@ == picks({base}, |x: {AT}| if {cond} {{ Some(x) }} else {{ None }})")


at("pseudo_range_sampling_ok_iter", "x.1.observable is PseudoRange", OKS)
at("phase_range_sampling_ok_iter", "x.1.observable is PhaseRange", OKS)
at("phase_range_tracking_ok_iter", "!(lost(x.1, 1) || lost(x.1, 2))", f"picks({OKS}, |x: {AT}| if x.1.observable is PhaseRange {{ Some(x) }} else {{ None }})")
sig("phase_cycle_slip_events", FEAT, "x.1.observable is PhaseRange && lost(x.1, 1)")
sig("phase_half_full_cycle_slip_events", FEAT, "(lost(x.1, 1) || lost(x.1, 2))", base="picks(self.signals(), |x: Sig<'_>| if x.1.observable is PhaseRange { Some(x) } else { None })")
SPEC["epoch_anomalies"] = (FEAT, [("&&ObsKey", "bool", "!ok(**x)")], "r@ == picks(self.keys(), |x: &ObsKey| if ok(*x) { None } else { Some(x) })")
for fn, var in [("wind_speed_iter", "WindSpeed"), ("wind_direction_iter", "WindDirection"), ("accumulated_rain_iter", "RainIncrement"), ("zenith_total_delay_iter", "ZenithTotalDelay"), ("zenith_dry_delay_iter", "ZenithDryDelay"), ("zenith_wet_delay_iter", "ZenithWetDelay")]:
    SPEC[fn] = (MET, [(MKEY, "_", f"of(x, Observable::{var})")], f"r@ == picks(self.meteo(), |x: {MKEY}| of(x, Observable::{var}))")
D3 = "(DorisKey, SignalKey, DorisSignal)"
for fn, var in [("temperature_iter", "Temperature"), ("pressure_iter", "Pressure"), ("moisture_rate_iter", "HumidityRate")]:
    SPEC[fn] = (ITER, [(MKEY, "_", f"of(x, Observable::{var})"), (D3, "_", f"from_station(x, Observable::{var})")],
                f"r@ == if self.met() {{ picks(self.meteo(), |x: {MKEY}| of(x, Observable::{var})) }} else if self.dor() {{ picks(self.doris(), |x: {D3}| from_station(x, Observable::{var})) }} else {{ Seq::empty() }}")
SPEC["ionex_rms_tec_maps_iter"] = (ION, [("(IonexKey, &TEC)", "(IonexKey, f64)", "match x.1.rms() { Some(v) => Some((x.0, v)), None => None }")],
                                   "r@ == picks(self.maps(), |x: (IonexKey, &TEC)| match x.1.rms() { Some(v) => Some((x.0, v)), None => None })")
SPEC["ionex_2d_fixed_altitude_km"] = (ION, [], "r == match self.header.ionex { Some(h) if self.flat() => Some(h.grid.height.start), _ => None }")
SPEC["ionex_altitude_range_km"] = (ION, [], "r == match self.header.ionex { Some(h) => Some((h.grid.height.start, h.grid.height.end)), _ => None }")
SPEC["tec_map_borders"] = (ION, [], "r == match self.header.ionex { Some(h) => Some(((h.grid.latitude.start, h.grid.latitude.end), (h.grid.longitude.start, h.grid.longitude.end))), _ => None }")
SPEC["first_epoch"] = (SAMP, [], "r == if self.epochs().len() == 0 { None } else { Some(self.epochs()[0]) }")
SPEC["last_epoch"] = (SAMP, [], "r == if self.epochs().len() == 0 { None } else { Some(self.epochs().last()) }")
SPEC["duration"] = (SAMP, [], "r is Some <==> self.epochs().len() > 0, r matches Some(d) ==> d.ns == self.epochs().last().ns - self.epochs()[0].ns")
SPEC["timeseries"] = (SAMP, [], "r == if self.epochs().len() == 0 || self.dominant() is None { None } else { Some(inclusive(self.epochs()[0], self.epochs().last(), self.dominant().unwrap())) }")
SPEC["sampling_interval"] = (SAMP, [], "r == self.header.sampling_interval")
SPEC["steady_sampling"] = (SAMP, [], "r == (self.histogram().len() == 1)")
SPEC["data_gaps"] = (SAMP, [("(Epoch, Epoch)", "(Epoch, Duration)", "gap(x, sample_rate.ns as int)")],
                     "r@ == match self.limit(tolerance) { Some(d) => picks(pairs(self.epochs()), |x: (Epoch, Epoch)| gap(x, d.ns as int)), None => Seq::empty() }")
CONTRACTS = list(SPEC) + ["is_pseudo_range_observable", "is_phase_range_observable", "is_doppler_observable", "is_ssi_observable", "is_ok"]
CANARIES = ["canary"]


def bare(s):
    s = re.sub(r"^\s*//.*\n", "", s, flags=re.M)
    return re.sub(r"^\s*#\[[^\]]*\]\n", "", s, flags=re.M)


def close(s, i):
    """index of the parenthesis closing the one at s[i]"""
    d = 0
    while True:
        if s[i] in "({[":
            d += 1
        elif s[i] in ")}]":
            d -= 1
            if d == 0:
                return i
        i += 1


def closures(f, specs):
    out, i, n = "", 0, 0
    for m in re.finditer(r"\.(filter_map|filter)\(\s*(?:move\s+)?\|([^|]*)\|", f):
        if n >= len(specs):
            raise Lost("closures")
        end = close(f, f.index("(", m.start()))
        ty, res, what = specs[n]
        n += 1
        body = f[m.end():end].strip().rstrip(",")
        if m[1] == "filter":
            if res != "bool":
                raise Lost("filter")
            kind = "bool"
        else:
            if res == "bool":
                raise Lost("filter_map")
            kind = f"Option<{res}>" if res != "_" else "Option<_>"
        pat = m[2].strip()
        out += f[i:m.start()] + f".{m[1]}(|verif_x: {ty}| -> (out: {kind}) ensures out == ({{ let x = verif_x; {what} }}) {{ let {pat} = verif_x; {body} }})"
        i = end + 1
    if n != len(specs):
        raise Lost("closures")
    return out + f[i:]


def unit(repo):
    R = lambda p: strip_tests(open(f"{repo}/{p}").read())
    lli = R("src/observation/lli.rs")
    consts = re.findall(r"const (\w+) = (0x[0-9a-fA-F]+|\d+|0b[01]+|1 << \d)\s*;", lli)
    if len(consts) < 3:
        raise Lost("LliFlags")
    text = MODEL.replace("CONSTANTS", "\n    ".join(f"pub const {n}: LliFlags = LliFlags {{ bits: {v} }};" for n, v in consts))
    flag, obs = bare(R("src/observation/flag.rs")), bare(R("src/observable.rs"))
    text += "#[derive(Clone, Copy)]\n" + find_item(flag, r"pub enum EpochFlag") + "\n" + find_item(obs, r"pub enum Observable") + "\n"
    a, b, e = find_fn(flag, "is_ok")
    f = flag[a:e]
    f = re.sub(r"\*?self == (?:Self|EpochFlag)::(\w+)", r"(match self { EpochFlag::\1 => true, _ => false })", f)
    text += "impl EpochFlag {\n" + splice(f, "is_ok", "        ensures r == (self == EpochFlag::Ok),", ret="r") + "\n}\nimpl Observable {\n"
    for k, v in L.items():
        a, b, e = find_fn(obs, k + "_observable")
        text += splice(obs[a:e], k + "_observable", f"        ensures r == (self is {v}),", ret="r") + "\n"
    text += "}\nimpl Rinex {\n"
    src = {}
    for name, (file, specs, post) in SPEC.items():
        s = src.setdefault(file, bare(R(file)))
        a, b, e = find_fn(s, name)
        f = s[a:e]
        f = re.sub(r"Box<\s*dyn Iterator<Item = (.*?)>\s*\+ '_>", r"It<\1>", f, flags=re.S)
        f = re.sub(r"Box::new\(\s*(?:\[\]|Vec::<[^;]*?>::new\(\))\.into_iter\(\),?\s*\)", "nothing()", f)
        f = f.replace("Box::new(", "boxed(")
        f = re.sub(r"([\w.]+) == (Observable::\w+)", r"eq_obs(&\1, &\2)", f)
        f = re.sub(r"(LliFlags::\w+) \| (LliFlags::\w+)", r"\1.union(\2)", f)
        if file == SAMP:
            f = re.sub(r"\b([a-z]\w*) - ([a-z]\w*)\b", r"minus(\1, \2)", f)
            f = re.sub(r"\b(?!if\b)([a-z]\w*) (>=|>|<=|<) ([a-z]\w*)\b", lambda m: {">": f"longer({m[1]}, {m[3]})", "<": f"longer({m[3]}, {m[1]})", ">=": f"!longer({m[3]}, {m[1]})", "<=": f"!longer({m[1]}, {m[3]})"}[m[2]], f)
        f = closures(f, specs)
        text += splice(f, name, f"        ensures {post},", ret="r") + "\n"
    return text + "}\nfn canary(r: &Rinex) { let i = r.phase_range_observations_iter(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
