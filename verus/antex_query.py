"""The queries over the antennas of an ANTEX file (src/lib.rs,
src/antex/antenna/mod.rs): which calibrations are valid at a date, and the
phase centre offset of an antenna at a frequency."""
import re
from extract import *
from record_iters import bare, close, closures

LIB = "src/lib.rs"
ANT = "src/antex/antenna/mod.rs"
DROPS = [
    "`Box<dyn Iterator<Item = T> + '_>`, `Box::new(..)` -> an iterator type whose view is the sequence of its items; HashMap<Carrier, FrequencyDependentData> -> a map type whose view is a map",
    "String -> a type with a lower case form; `a == Some(b)` of options of them -> eq_some(a, b)",
    "`|pattern| body` -> `|x: T| -> (out: ..) ensures .. { let pattern = x; body }`; comparisons of dates -> comparisons of their nanoseconds",
    "the fields of Antenna that no query reads; derive attributes, doc comments",
]
TRUSTED = [
    "the iterator adaptors filter_map, reduce and next, HashMap::get of std: their documented results",
    "antennas: the sequence of the antennas of the file (decided by the native search of P17)",
    "String::to_lowercase (a function of the string), the derived PartialEq of SV and Carrier, the order of hifitime dates",
]
MODEL = r"""
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn kept<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(b) => kept(o.drop_last()).push(b), None => kept(o.drop_last()) } }
}
pub open spec fn picks<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> { kept(s.map_values(g)) }
pub open spec fn first<B>(s: Seq<B>) -> Option<B> { if s.len() == 0 { None } else { Some(s[0]) } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<B>| (forall|i: int, o: Option<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o == g(self@[i])) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<T>| (forall|i: int, o: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), o) ==> g(self@[i]) == if o { Some(self@[i]) } else { None }) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce<F: Fn(T, T) -> T>(self, f: F) -> (r: Option<T>)
        requires forall|a: T, b: T| #[trigger] f.requires((a, b)),
        ensures (forall|a: T, b: T, o: T| #[trigger] f.ensures((a, b), o) ==> o == a) ==> r == first(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<T>) ensures r == first(self@) { unimplemented!() }
}
pub fn boxed<T>(t: It<T>) -> (r: It<T>) ensures r == t { t }
#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SV { pub prn: u8, pub constellation: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Carrier { pub c: u8 }
#[verifier::external_body]
pub struct Text { s: String }
impl Text {
    pub uninterp spec fn low(&self) -> Text;
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: Text) ensures r == self.low() { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(&self, o: &Text) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
#[verifier::external_body]
pub fn eq_some(a: Option<&Text>, b: &Text) -> (r: bool) ensures r == (a matches Some(x) && *x == *b) { unimplemented!() }
pub struct FrequencyDependentData { pub apc_eccentricity: (f64, f64, f64) }
#[verifier::external_body]
pub struct Freqs { t: u8 }
impl View for Freqs { type V = Map<Carrier, FrequencyDependentData>; uninterp spec fn view(&self) -> Map<Carrier, FrequencyDependentData>; }
impl Freqs {
    #[verifier::external_body]
    pub fn get(&self, c: &Carrier) -> (r: Option<&FrequencyDependentData>)
        ensures r is Some <==> self@.contains_key(*c), r matches Some(d) ==> *d == self@[*c]
    { unimplemented!() }
}
pub struct Calibration { pub validity_period: Option<(Epoch, Epoch)> }
pub struct SvAntenna { pub sv: SV, pub igs_type: Text }
pub enum AntennaSpecific { RxAntenna(RxAntenna), SvAntenna(SvAntenna) }
pub struct Antenna { pub specific: AntennaSpecific, pub calibration: Calibration }
pub struct Rinex { r: u8 }
pub open spec fn valid(a: Antenna, now: Epoch) -> bool { a.calibration.validity_period matches Some(p) ==> p.0.ns <= now.ns <= p.1.ns }
/// the offset at this frequency
pub open spec fn apc(f: &Freqs, c: Carrier) -> Option<(f64, f64, f64)> { if f@.contains_key(c) { Some(f@[c].apc_eccentricity) } else { None } }
pub open spec fn lowered(m: AntennaMatcher) -> AntennaMatcher { match m { AntennaMatcher::IGSCode(c) => AntennaMatcher::IGSCode(c.low()), AntennaMatcher::SerialNumber(c) => AntennaMatcher::SerialNumber(c.low()) } }
pub open spec fn is_sv(a: &Antenna, sv: SV) -> bool { a.specific matches AntennaSpecific::SvAntenna(s) && s.sv == sv }
/// the receiver antenna of this type or serial number
pub open spec fn is_rx(a: &Antenna, m: AntennaMatcher) -> bool {
    a.specific matches AntennaSpecific::RxAntenna(s) && match m {
        AntennaMatcher::IGSCode(c) => s.igs_type.low() == c.low(),
        AntennaMatcher::SerialNumber(c) => s.serial_number matches Some(n) && n.low() == c.low(),
    }
}
pub type A<'a> = (&'a Antenna, &'a Freqs);
impl Rinex {
    pub uninterp spec fn all<'a>(&'a self) -> Seq<&'a (Antenna, Freqs)>;
    pub open spec fn usable<'a>(&'a self, now: Epoch) -> Seq<A<'a>> { picks(self.all(), |x: &(Antenna, Freqs)| if valid(x.0, now) { Some((&x.0, &x.1)) } else { None }) }
    #[verifier::external_body]
    pub fn antennas(&self) -> (r: It<&(Antenna, Freqs)>) ensures r@ == self.all() { unimplemented!() }
}
"""
CONTRACTS = ["is_valid", "AntennaMatcher::to_lowercase", "antex_valid_calibrations", "sv_antenna_apc_offset", "rx_antenna_apc_offset"]
CANARIES = ["canary"]


def unit(repo):
    R = lambda p: bare(strip_tests(open(f"{repo}/{p}").read()))
    ant, lib = R(ANT), bare(open(f"{repo}/{LIB}").read())
    text = MODEL
    for what in (r"pub enum AntennaMatcher", r"pub struct RxAntenna\b"):
        text += find_item(ant, what).replace("String", "Text") + "\n"
    im = ant[ant.index("impl Antenna {"):]
    f = im[find_fn(im, "is_valid")[0]:find_fn(im, "is_valid")[2]]
    f = re.sub(r"\b(now|from|until|[a-z]\w*) (>=|<=|<|>) (now|from|until|[a-z]\w*)\b", r"\1.ns \2 \3.ns", f)
    text += "impl Antenna {\n" + splice(f, "is_valid", "        ensures r == valid(*self, now),", ret="r") + "\n}\n"
    im = ant[ant.index("impl AntennaMatcher {"):]
    f = im[find_fn(im, "to_lowercase")[0]:find_fn(im, "to_lowercase")[2]].replace("pub(crate)", "pub")
    text += "impl AntennaMatcher {\n" + splice(f, "to_lowercase", "        ensures r == lowered(*self),", ret="r") + "\n}\nimpl Rinex {\n"
    CL = {
        "antex_valid_calibrations": [("&(Antenna, Freqs)", "_", "if valid(x.0, now) { Some((&x.0, &x.1)) } else { None }")],
        "sv_antenna_apc_offset": [("A<'_>", "(f64, f64, f64)", "if is_sv(x.0, sv) { apc(x.1, freq) } else { None }")],
        "rx_antenna_apc_offset": [("A<'_>", "(f64, f64, f64)", "if is_rx(x.0, matcher) { apc(x.1, freq) } else { None }")],
    }
    POST = {
        "antex_valid_calibrations": "r@ == self.usable(now)",
        "sv_antenna_apc_offset": "r == first(picks(self.usable(now), |x: A<'_>| if is_sv(x.0, sv) { apc(x.1, freq) } else { None }))",
        "rx_antenna_apc_offset": "r == first(picks(self.usable(now), |x: A<'_>| if is_rx(x.0, matcher) { apc(x.1, freq) } else { None }))",
    }
    for name in POST:
        f = lib[find_fn(lib, name)[0]:find_fn(lib, name)[2]]
        f = re.sub(r"//.*", "", f)
        f = re.sub(r"HashMap<\s*Carrier,\s*FrequencyDependentData\s*>", "Freqs", f)
        f = re.sub(r"Box<\s*dyn Iterator<Item = (.*?)>\s*\+ '_>", r"It<\1>", f, flags=re.S)
        f = f.replace("Box::new(", "boxed(")
        # options compared with Some(..)
        m = re.search(r"if ([^{}]*?) == Some\((\w+)\)\s*\{", f)
        if m:
            f = f[:m.start()] + f"if eq_some({m[1]}, {m[2]}) {{" + f[m.end():]
        f = closures(f, CL[name])
        f = re.sub(r"\.map\(\s*\|(\w+)\| (\w+\.to_lowercase\(\))\s*\)", r".map(|\1: &Text| -> (out: Text) ensures out == \1.low() { \2 })", f)
        f = re.sub(r"\.map\(\s*\|(\w+)\| (\w+\.apc_eccentricity)\s*\)", r".map(|\1: &FrequencyDependentData| -> (out: (f64, f64, f64)) ensures out == \1.apc_eccentricity { \2 })", f)
        f = re.sub(r"\.reduce\(\|(\w+), (\w+)\| (\w+)\)", lambda m: f".reduce(|verif_a: (f64, f64, f64), verif_b: (f64, f64, f64)| -> (out: (f64, f64, f64)) ensures out == verif_a {{ let {m[1]} = verif_a; let {m[2]} = verif_b; {m[3]} }})", f)
        text += splice(f, name, f"        ensures {POST[name]},", ret="r") + "\n"
    return text + "}\nfn canary(r: &Rinex, now: Epoch) { let i = r.antex_valid_calibrations(now); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
