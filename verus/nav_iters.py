"""The iterators over the frames of a navigation record
(src/navigation/rinex, src/navigation/frame.rs): each gives the frames of one
kind, in order, and none of them panics on a record whose keys tell the kind
of their frames."""
import re
from extract import *
from record_iters import bare, close
from obs_format import once

MOD = "src/navigation/rinex/mod.rs"
FEAT = "src/navigation/rinex/feature.rs"
FRM = "src/navigation/frame.rs"
EPH = "src/navigation/ephemeris/mod.rs"
DROPS = [
    "`Box<dyn Iterator<Item = T> + '_>`, `Box::new(..)` -> an iterator type whose view is the sequence of its items; BTreeMap<NavKey, NavFrame> -> a map type whose view is the sequence of its items",
    "`|pattern| body` -> `|x: T| -> (out: ..) ensures .. { let pattern = x; body }`; the fields of the frames that no iterator reads",
    "derive attributes, doc comments",
]
TRUSTED = [
    "the iterator adaptors filter_map and map of std, BTreeMap::iter, Record::as_nav: their documented results",
    "the frame of a key is of the kind the key tells (decided by the native search of P16: what the parser stores)",
    "the derived PartialEq of NavFrameType",
]
MODEL = r"""
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn kept<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(b) => kept(o.drop_last()).push(b), None => kept(o.drop_last()) } }
}
pub open spec fn picks<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> { kept(s.map_values(g)) }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<B>| (forall|i: int, o: Option<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o == g(self@[i])) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }
}
pub fn boxed<T>(t: It<T>) -> (r: It<T>) ensures r == t { t }
#[verifier::external_body]
pub fn nothing<T>() -> (r: It<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: u8 }
#[derive(Clone, Copy)]
pub struct NavMessageType { pub c: u8 }
pub struct SystemTime { c: u8 }
pub struct EarthOrientation { c: u8 }
pub struct KbModel { c: u8 }
pub struct NgModel { c: u8 }
pub struct BdModel { c: u8 }
pub struct Ephemeris { pub clock_bias: f64, pub clock_drift: f64, pub clock_drift_rate: f64 }
pub enum IonosphereModel { Klobuchar(KbModel), NequickG(NgModel), Bdgim(BdModel) }
#[derive(Clone, Copy)]
pub struct NavKey { pub epoch: Epoch, pub sv: SV, pub msgtype: NavMessageType, pub frmtype: NavFrameType }
pub type Item<'a> = (&'a NavKey, &'a NavFrame);
#[verifier::external_body]
pub struct NavRecord { s: u8 }
impl NavRecord {
    pub uninterp spec fn items<'a>(&'a self) -> Seq<Item<'a>>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<Item<'_>>) ensures r@ == self.items() { unimplemented!() }
}
#[verifier::external_body]
pub struct Record { s: u8 }
impl Record {
    pub uninterp spec fn nav<'a>(&'a self) -> Option<&'a NavRecord>;
    #[verifier::external_body]
    pub fn as_nav(&self) -> (r: Option<&NavRecord>) ensures r == self.nav() { unimplemented!() }
}
pub struct Rinex { pub record: Record }
/// the key tells the kind of the frame
pub open spec fn told(x: Item<'_>) -> bool {
    &&& x.0.frmtype == NavFrameType::Ephemeris ==> x.1 is EPH
    &&& x.0.frmtype == NavFrameType::EarthOrientation ==> x.1 is EOP
    &&& x.0.frmtype == NavFrameType::IonosphereModel ==> x.1 is ION
    &&& x.0.frmtype == NavFrameType::SystemTimeOffset ==> x.1 is STO
}
impl Rinex {
    pub open spec fn all<'a>(&'a self) -> Seq<Item<'a>> { match self.record.nav() { Some(r) => r.items(), None => Seq::empty() } }
    pub open spec fn sound(&self) -> bool { forall|i: int| 0 <= i < self.all().len() ==> told(#[trigger] self.all()[i]) }
}
impl View for Rinex { type V = int; uninterp spec fn view(&self) -> int; }
pub proof fn picks_none<A, B>(g: spec_fn(A) -> Option<B>) ensures #[trigger] picks(Seq::<A>::empty(), g) =~= Seq::<B>::empty() { assert(Seq::<A>::empty().map_values(g) =~= Seq::empty()); }
"""
KINDS = [("nav_ephemeris_frames_iter", "Ephemeris", "EPH", "Ephemeris", "as_ephemeris"), ("nav_earth_orientation_frames_iter", "EarthOrientation", "EOP", "EarthOrientation", "as_earth_orientation"), ("nav_ionosphere_models_iter", "IonosphereModel", "ION", "IonosphereModel", "as_ionosphere_model"), ("nav_system_time_frames_iter", "SystemTimeOffset", "STO", "SystemTime", "as_system_time")]
MODELS = [("nav_klobuchar_models_iter", "Klobuchar", "KbModel"), ("nav_bdgim_models_iter", "Bdgim", "BdModel"), ("nav_nequickg_models_iter", "NequickG", "NgModel")]
CONTRACTS = ["NavFrame::" + k[4] for k in KINDS] + [k[0] for k in KINDS] + [m[0] for m in MODELS] + ["nav_message_types_iter", "nav_sv_clock_iter", "Ephemeris::sv_clock"]
CANARIES = ["canary"]


def one(f, name, ty, out, what, req=None):
    """annotate the only closure given to `name`"""
    ms = list(re.finditer(r"\.%s\(\s*(?:move\s+)?\|([^|]*)\|" % name, f))
    if len(ms) != 1:
        raise Lost(name)
    m = ms[0]
    end = close(f, f.index("(", m.start()))
    body = f[m.end():end].strip().rstrip(",")
    r = f"requires {req} " if req else ""
    return f[:m.start()] + f".{name}(|verif_x: {ty}| -> (out: {out}) {r}ensures out == ({{ let x = verif_x; {what} }}) {{ let {m[1].strip()} = verif_x; {body} }})" + f[end + 1:]


def unit(repo):
    R = lambda p: bare(strip_tests(open(f"{repo}/{p}").read()))
    mod, feat, frm, eph = R(MOD), R(FEAT), R(FRM), R(EPH)
    text = MODEL + "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + find_item(frm, r"pub enum NavFrameType\b") + "\n" + find_item(frm, r"pub enum NavFrame\b") + "\nimpl NavFrame {\n"
    for it, kind, var, ty, acc in KINDS:
        text += splice(frm[find_fn(frm, acc)[0]:find_fn(frm, acc)[2]], acc, f"        ensures r == match *self {{ NavFrame::{var}(ref e) => Some(e), _ => None }},".replace("(ref e) => Some(e), _ => None }", "(e) => r matches Some(p) && *p == e, _ => r is None }").replace("r == match", "match"), ret="r") + "\n"
    text += "}\nimpl Ephemeris {\n" + splice(eph[find_fn(eph, "sv_clock")[0]:find_fn(eph, "sv_clock")[2]], "sv_clock", "        ensures r == (self.clock_bias, self.clock_drift, self.clock_drift_rate),", ret="r") + "\n}\nimpl Rinex {\n"

    def fn(s, name):
        f = s[find_fn(s, name)[0]:find_fn(s, name)[2]]
        f = re.sub(r"//.*", "", f)
        f = re.sub(r"Box<\s*dyn Iterator<Item = (.*?)>\s*\+ '_>", r"It<\1>", f, flags=re.S)
        f = re.sub(r"Box::new\(\s*(?:\[\]|Vec::<[^;]*?>::new\(\))\.into_iter\(\),?\s*\)", "nothing()", f)
        return f.replace("Box::new(", "boxed(")

    def begin(f, proof):
        a = f.index("{")
        return f[:a] + "{ proof { " + proof + " } " + f[a + 1:]
    for it, kind, var, ty, acc in KINDS:
        g = f"|x: Item<'_>| if x.0.frmtype == NavFrameType::{kind} {{ match *x.1 {{ NavFrame::{var}(e) => Some((x.0, &e)), _ => None }} }} else {{ None }}"
        f = one(fn(mod, it), "filter_map", "Item<'_>", f"Option<(&NavKey, &{ty})>", f"if x.0.frmtype == NavFrameType::{kind} {{ match *x.1 {{ NavFrame::{var}(e) => Some((x.0, &e)), _ => None }} }} else {{ None }}", "told(verif_x)")
        f = begin(f, f"let g = {g}; picks_none(g); match self.record.nav() {{ Some(r) => {{ assert(self.all() == r.items()); assert forall|i: int| 0 <= i < r.items().len() implies told(#[trigger] r.items()[i]) by {{ assert(told(self.all()[i])); }} }} None => {{}} }}")
        text += splice(f, it, f"        requires self.sound(),\n        ensures r@ == picks(self.all(), {g}),", ret="r") + "\n"
    ion = "picks(self.all(), |x: Item<'_>| if x.0.frmtype == NavFrameType::IonosphereModel { match *x.1 { NavFrame::ION(e) => Some((x.0, &e)), _ => None } } else { None })"
    for it, var, ty in MODELS:
        w = f"match *x.1 {{ IonosphereModel::{var}(m) => Some((x.0, &m)), _ => None }}"
        f = one(fn(feat, it), "filter_map", "(&NavKey, &IonosphereModel)", f"Option<(&NavKey, &{ty})>", w)
        text += splice(f, it, f"        requires self.sound(),\n        ensures r@ == picks({ion}, |x: (&NavKey, &IonosphereModel)| {w}),", ret="r") + "\n"
    f = one(fn(mod, "nav_message_types_iter"), "map", "Item<'_>", "(Epoch, SV, NavMessageType)", "(x.0.epoch, x.0.sv, x.0.msgtype)")
    text += splice(f, "nav_message_types_iter", "        ensures r@ =~= self.all().map_values(|x: Item<'_>| (x.0.epoch, x.0.sv, x.0.msgtype)),", ret="r") + "\n"
    f = one(fn(mod, "nav_sv_clock_iter"), "map", "(&NavKey, &Ephemeris)", "(NavKey, (f64, f64, f64))", "(*x.0, (x.1.clock_bias, x.1.clock_drift, x.1.clock_drift_rate))")
    e = ion.replace("IonosphereModel", "Ephemeris").replace("ION", "EPH")
    f = once(f, r"self\s*\.nav_ephemeris_frames_iter\(\)", "verif_i", "nav_sv_clock_iter")
    a = f.index("{")
    f = f[:a] + "{ let verif_i = self.nav_ephemeris_frames_iter(); let ghost verif_s = verif_i@; " + f[a + 1:]
    f = re.sub(r"\}\s*$", "", f).rstrip()
    a = f.index("boxed(")
    f = f[:a] + "let verif_r = " + f[a:] + "; assert(verif_r@.len() == verif_s.len()); assert forall|i: int| 0 <= i < verif_s.len() implies verif_r@[i] == (*(#[trigger] verif_s[i]).0, (verif_s[i].1.clock_bias, verif_s[i].1.clock_drift, verif_s[i].1.clock_drift_rate)) by { let y = verif_r@[i]; }; verif_r }"
    text += splice(f, "nav_sv_clock_iter", f"        requires self.sound(),\n        ensures ({{ let s = {e}; r@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> r@[i] == (*(#[trigger] s[i]).0, (s[i].1.clock_bias, s[i].1.clock_drift, s[i].1.clock_drift_rate)) }}),", ret="r") + "\n"
    return text + "}\nfn canary(r: &Rinex) requires r.sound() { let i = r.nav_ephemeris_frames_iter(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
