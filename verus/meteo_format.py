"""meteo::formatting::format (src/meteo/formatting.rs): what is written, over
any number of epochs and observables."""
import re
from extract import *
from obs_format import writes, once

FILE = "src/meteo/formatting.rs"
DROPS = [
    "`write!(w, FORMAT, a)?` -> `w.put1(FORMAT, &a)?`, whose result is the text of `w` followed by an opaque function of the format and its argument; `'\\n'` -> `w.newline()?`; a format without argument -> `w.lit(..)?`",
    "`&mut BufWriter<W>` -> an opaque sink, whose errors are those of the library",
    "`record.keys().map(|k| k.epoch).unique().sorted()` -> a function of the record; the loops over it and over the observables -> loops over the indexes",
    "BTreeMap<MeteoKey, f64> -> an opaque finite map with the same `get`",
]
TRUSTED = [
    "what a format produces is a function of the format and of its arguments (P20 samples that every cell has the width of the standard)",
    "BTreeMap::{keys, get}, Iterator::{unique, sorted}, Observable::clone",
]
CONTRACTS = ["meteo::formatting::format"]
CANARIES = ["canary"]
MODEL = r"""use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
#[verifier::external_body]
pub struct Observable { c: u8 }
impl Observable { #[verifier::external_body] pub fn clone(&self) -> (r: Observable) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct Epoch { e: u8 }
pub struct MeteoKey { pub epoch: Epoch, pub observable: Observable }
pub enum RinexType { MeteoData }
pub enum FormattingError { UndefinedObservables, Other }
#[verifier::external_body]
pub struct Record { c: u8 }
impl Record {
    pub uninterp spec fn spec_get(&self, k: MeteoKey) -> Option<f64>;
    /// its epochs, each once and in order
    pub uninterp spec fn dates(&self) -> Seq<Epoch>;
    #[verifier::external_body]
    pub fn epochs(&self) -> (r: Vec<Epoch>) ensures r@ == self.dates() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &MeteoKey) -> (r: Option<&f64>) ensures match r { Some(v) => self.spec_get(*k) == Some(*v), None => self.spec_get(*k) is None } { unimplemented!() }
}
pub struct HeaderFields { pub codes: Vec<Observable> }
pub struct Version { pub major: u8 }
pub struct Header { pub meteo: Option<HeaderFields>, pub version: Version }
pub uninterp spec fn date(e: Epoch, v: int) -> Seq<char>;
#[verifier::external_body]
pub fn format_epoch(e: Epoch, t: RinexType, v: u8) -> (r: String) ensures r@ == date(e, v as int) { unimplemented!() }
pub enum Item { F64(f64), Str(Seq<char>) }
pub trait ToItem { spec fn item(&self) -> Item; }
impl ToItem for f64 { open spec fn item(&self) -> Item { Item::F64(*self) } }
impl ToItem for str { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl ToItem for String { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl<T: ToItem + ?Sized> ToItem for &T { open spec fn item(&self) -> Item { (**self).item() } }
pub uninterp spec fn r1(f: Seq<char>, a: Item) -> Seq<u8>;
#[verifier::external_body]
pub struct Out { o: u8 }
impl View for Out { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Out {
    #[verifier::external_body]
    pub fn newline(&mut self) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + nl() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn put1<A: ToItem>(&mut self, f: &str, a: &A) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + r1(f@, a.item()) { unimplemented!() }
}
pub open spec fn nl() -> Seq<u8> { seq![10u8] }
pub open spec fn cell(r: Record, t: Epoch, o: Observable) -> Seq<u8> {
    match r.spec_get(MeteoKey { epoch: t, observable: o }) { Some(v) => r1("{:7.1}"@, Item::F64(v)), None => "       ".spec_bytes() }
}
/// a new line after 8 cells, then after every 10
pub open spec fn row(r: Record, t: Epoch, c: Seq<Observable>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { row(r, t, c, n - 1) + (if n == 9 || (n > 9 && (n - 9) % 10 == 0) { "\n    ".spec_bytes() } else { Seq::empty() }) + cell(r, t, c[n - 1]) }
}
pub open spec fn line(r: Record, v: int, t: Epoch, c: Seq<Observable>) -> Seq<u8> { r1(" {}"@, Item::Str(date(t, v))) + row(r, t, c, c.len() as int) + nl() }
pub open spec fn body(r: Record, v: int, c: Seq<Observable>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { body(r, v, c, n - 1) + line(r, v, r.dates()[n - 1], c) }
}
"""
CANARY = r"""
fn canary(w: &mut Out, r: &Record, h: &Header) {
    let x = format(w, r, h);
    if x.is_ok() { assert(false); }
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "format")
    f = re.sub(r"(?m)^\s*//.*\n", "", s[a:e])
    f = once(f, r"<W: Write>", "", "writer")
    f = once(f, r"&mut BufWriter<W>", "&mut Out", "writer")
    m = re.search(r"let (\w+) = &?header\s*\.meteo\s*\.as_ref\(\)\s*\.ok_or\(FormattingError::UndefinedObservables\)\?;", f)
    if not m:
        raise Lost("observables")
    obs = m[1]
    f = f.replace(m[0], f"let {obs} = header.meteo.as_ref().ok_or(FormattingError::UndefinedObservables)?;")
    m = re.search(r"for (\w+) in record\s*\.keys\(\)\s*\.map\(\|(\w+)\| \2\.epoch\)\s*\.unique\(\)\s*\.sorted\(\)\s*\{", f)
    if not m:
        raise Lost("loop over the epochs")
    f = f.replace(m[0], f"""let verif_e = record.epochs();
    let ghost verif_w = w@;
    let ghost verif_m = header.version.major as int;
    for verif_k in 0..verif_e.len()
        invariant verif_e@ == record.dates(), header.meteo matches Some(h) && h == *{obs}, verif_m == header.version.major,
            w@ =~= verif_w + body(*record, verif_m, {obs}.codes@, verif_k as int),
    {{ let {m[1]} = verif_e[verif_k]; let ghost verif_t = {m[1]};""")
    m2 = re.search(r"for \((\w+), (\w+)\) in %s\.codes\.iter\(\)\.enumerate\(\)\s*\{" % obs, f)
    if not m2:
        raise Lost("loop over the observables")
    f = f.replace(m2[0], f"""let ghost verif_l = w@;
        for {m2[1]} in 0..{obs}.codes.len()
            invariant w@ =~= verif_l + row(*record, verif_t, {obs}.codes@, {m2[1]} as int), {m[1]} == verif_t,
        {{ let {m2[2]} = &{obs}.codes[{m2[1]}];""")
    f = writes(f)
    f = splice(f, "format", """    ensures r is Ok ==> (header.meteo matches Some(h) && final(w)@ == old(w)@ + body(*record, header.version.major as int, h.codes@, record.dates().len() as int)),""", ret="r")
    return MODEL + f + CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
