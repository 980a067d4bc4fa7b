"""The queries over the profiles of a clock file (src/lib.rs,
src/clock/record.rs): the profiles of the satellites, and those of the
stations."""
import re
from extract import *
from record_iters import bare, close, closures

LIB = "src/lib.rs"
REC = "src/clock/record.rs"
DROPS = [
    "`Box<dyn Iterator<Item = T> + '_>`, `Box::new(..)` -> an iterator type whose view is the sequence of its items; BTreeMap<ClockKey, ClockProfile> -> a map type whose view is the sequence of its items",
    "`|pattern| body` -> `|x: T| -> (out: ..) ensures .. { let pattern = x; body }`; String, ClockProfile -> types whose clone is equal",
    "derive attributes, doc comments",
]
TRUSTED = [
    "the iterator adaptors filter_map and flat_map of std: their documented sequences",
    "precise_clock: the sequence of the epochs of the file (decided by the native search of P19)",
    "the derived Clone of ClockProfileType and ClockProfile, String::clone",
]
MODEL = r"""
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn kept<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(b) => kept(o.drop_last()).push(b), None => kept(o.drop_last()) } }
}
pub open spec fn picks<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> { kept(s.map_values(g)) }
/// the items of each, one after the other
pub open spec fn flat<A, B>(s: Seq<A>, g: spec_fn(A) -> Seq<B>) -> Seq<B> { s.map_values(g).flatten() }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter_map<B, F: Fn(T) -> Option<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<B>| (forall|i: int, o: Option<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o == g(self@[i])) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flat_map<B, F: Fn(T) -> It<B>>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures forall|g: spec_fn(T) -> Seq<B>| (forall|i: int, o: It<B>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o@ == g(self@[i])) ==> r@ == #[trigger] flat(self@, g)
    { unimplemented!() }
}
pub fn boxed<T>(t: It<T>) -> (r: It<T>) ensures r == t { t }
#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: u8 }
#[verifier::external_body]
pub struct Text { s: String }
impl Text { #[verifier::external_body] pub fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct ClockProfile { s: u8 }
impl ClockProfile { #[verifier::external_body] pub fn clone(&self) -> (r: ClockProfile) ensures r == *self { unimplemented!() } }
impl ClockProfileType { #[verifier::external_body] pub fn clone(&self) -> (r: ClockProfileType) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Profiles { s: u8 }
pub type Item<'a> = (&'a ClockKey, &'a ClockProfile);
impl Profiles {
    pub uninterp spec fn items<'a>(&'a self) -> Seq<Item<'a>>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<Item<'_>>) ensures r@ == self.items() { unimplemented!() }
}
pub open spec fn sv_item(t: Epoch, x: Item<'_>) -> Option<(Epoch, SV, ClockProfileType, ClockProfile)> { match x.0.clock_type { ClockType::SV(s) => Some((t, s, x.0.profile_type, *x.1)), _ => None } }
pub open spec fn station_item(t: Epoch, x: Item<'_>) -> Option<(Epoch, Text, ClockProfileType, ClockProfile)> { match x.0.clock_type { ClockType::Station(s) => Some((t, s, x.0.profile_type, *x.1)), _ => None } }
pub struct Rinex { r: u8 }
pub type Day<'a> = (&'a Epoch, &'a Profiles);
impl Rinex {
    pub uninterp spec fn all<'a>(&'a self) -> Seq<Day<'a>>;
    #[verifier::external_body]
    pub fn precise_clock(&self) -> (r: It<Day<'_>>) ensures r@ == self.all() { unimplemented!() }
}
"""
CONTRACTS = ["ClockType::as_sv", "ClockType::as_station", "precise_sv_clock", "precise_station_clock"]
CANARIES = ["canary"]


def unit(repo):
    rec = bare(strip_tests(open(f"{repo}/{REC}").read()))
    lib = bare(open(f"{repo}/{LIB}").read())
    text = MODEL
    for what in (r"pub enum ClockType\b", r"pub enum ClockProfileType\b", r"pub struct ClockKey\b"):
        text += find_item(rec, what).replace("String", "Text") + "\n"
    im = rec[rec.index("impl ClockType {"):]
    text += "impl ClockType {\n"
    for name, var in (("as_sv", "SV"), ("as_station", "Station")):
        f = im[find_fn(im, name)[0]:find_fn(im, name)[2]].replace("String", "Text")
        text += splice(f, name, f"        ensures r == match *self {{ ClockType::{var}(s) => Some(s), _ => None }},", ret="r") + "\n"
    text += "}\nimpl Rinex {\n"
    for name, item, out, arg in (("precise_sv_clock", "sv_item", "(Epoch, SV, ClockProfileType, ClockProfile)", "SV"), ("precise_station_clock", "station_item", "(Epoch, Text, ClockProfileType, ClockProfile)", "Text")):
        f = lib[find_fn(lib, name)[0]:find_fn(lib, name)[2]].replace("String", "Text")
        f = re.sub(r"//.*", "", f)
        f = re.sub(r"Box<\s*dyn Iterator<Item = (.*?)>\s*\+ '_>", r"It<\1>", f, flags=re.S)
        f = f.replace("Box::new(", "boxed(")
        m = re.search(r"flat_map\(\s*(?:move\s+)?\|\((\w+), (\w+)\)\|", f)
        if not m:
            raise Lost("flat_map")
        f = closures(f, [("Item<'_>", out, f"{item}(*{m[1]}, x)")])
        # the innermost closure: what the profile becomes
        g = re.search(r"\.map\(\s*(?:move\s+)?\|(\w+)\|", f)
        if g:
            end = close(f, f.index("(", g.start()))
            body = f[g.end():end].strip().rstrip(",")
            f = f[:g.start()] + f".map(|{g[1]}: {arg}| -> (out: {out}) ensures out == (*{m[1]}, {g[1]}, verif_x.0.profile_type, *verif_x.1) {{ {body} }})" + f[end + 1:]
        m = re.search(r"flat_map\(\s*(?:move\s+)?\|(\(\w+, \w+\))\|", f)
        end = close(f, f.index("(", m.start()))
        body = f[m.end():end].strip().rstrip(",")
        f = f[:m.start()] + f"flat_map(|verif_d: Day<'_>| -> (out: It<{out}>) ensures out@ == picks(verif_d.1.items(), |x: Item<'_>| {item}(*verif_d.0, x)) {{ let {m[1]} = verif_d; {body} }})" + f[end + 1:]
        post = f"r@ == flat(self.all(), |d: Day<'_>| picks(d.1.items(), |x: Item<'_>| {item}(*d.0, x)))"
        text += splice(f, name, f"        ensures {post},", ret="r") + "\n"
    return text + "}\nfn canary(r: &Rinex) { let i = r.precise_sv_clock(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
