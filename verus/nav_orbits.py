"""parse_orbits (src/navigation/ephemeris/parsing.rs): the n-th word of the
message is the n-th field of the definition, read from its own 19 columns."""
import re
from extract import *
import strs

FILE = "src/navigation/ephemeris/parsing.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP,
    "`for (n, line) in lines.enumerate()` -> `while let Some(line) = rest.next()` with a counter, `for w in 0..n` -> `while` with a counter (Verus has no `continue` in for), `Lines` being an opaque sequence of texts",
    "`HashMap<String, OrbitItem>` -> an opaque map with the same `new` and `insert`; std::cmp::min -> shim",
    "NavHelper: its field `items` only",
]
TRUSTED = strs.TRUSTED + ["OrbitItem::new, closest_nav_standards, Constellation::is_sbas: functions of their arguments", "HashMap::insert replaces the value of the key"]
CONTRACTS = ["parse_orbits"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub enum Constellation { GPS, SBAS, Other(u8) }
pub uninterp spec fn sbas(c: Constellation) -> bool;
impl Constellation {
    #[verifier::external_body]
    pub fn is_sbas(&self) -> (r: bool) ensures r == sbas(*self) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Version { pub major: u8, pub minor: u8 }
#[derive(Clone, Copy)]
pub enum NavMessageType { Other(u8) }
pub struct OrbitItem { v: u8 }
pub uninterp spec fn item(ty: Seq<char>, content: Seq<u8>, c: Constellation) -> Option<OrbitItem>;
impl OrbitItem {
    #[verifier::external_body]
    pub fn new(ty: &str, content: &str, c: Constellation) -> (r: Result<OrbitItem, u8>)
        ensures match r { Ok(v) => item(ty@, content.spec_bytes(), c) == Some(v), Err(_) => item(ty@, content.spec_bytes(), c) is None }
    { unimplemented!() }
}
pub struct NavHelper { pub items: Vec<(&'static str, &'static str)> }
pub uninterp spec fn standards(c: Constellation, v: Version, m: NavMessageType) -> Option<&'static NavHelper>;
#[verifier::external_body]
pub fn closest_nav_standards(c: Constellation, v: Version, m: NavMessageType) -> (r: Option<&'static NavHelper>)
    ensures r == standards(c, v, m)
{ unimplemented!() }
#[verifier::external_body]
pub struct Orbits { c: u8 }
impl View for Orbits { type V = Map<Seq<char>, OrbitItem>; uninterp spec fn view(&self) -> Map<Seq<char>, OrbitItem>; }
impl Orbits {
    #[verifier::external_body]
    pub fn new() -> (r: Orbits) ensures r@ == Map::<Seq<char>, OrbitItem>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: OrbitItem) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
}
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == min(a as int, b as int) { if a < b { a } else { b } }

/// word w of a line: 19 columns
pub open spec fn word(l: Seq<u8>, first: int, w: int) -> Seq<u8> { trim(cols(l, first + 19 * w, first + 19 * w + 19)) }
/// omitted, or zero: the field is unknown
pub open spec fn unknown(w: Seq<u8>) -> bool {
    w.len() == 0 || prefix(w, "0.000000000000E+00".spec_bytes()) || prefix(w, "0.000000000000D+00".spec_bytes())
}
/// adds word n of the message, that reads w
pub open spec fn with_word(m: Map<Seq<char>, OrbitItem>, fields: Seq<(&'static str, &'static str)>, c: Constellation, n: int, w: Seq<u8>) -> Map<Seq<char>, OrbitItem> {
    if unknown(w) || n >= fields.len() || has(fields[n].0.spec_bytes(), "spare".spec_bytes()) { m } else {
        match item(fields[n].1@, w, c) { Some(v) => m.insert(fields[n].0@, v), None => m }
    }
}
/// the first n words of the message
pub open spec fn orbits(ls: Seq<Seq<u8>>, fields: Seq<(&'static str, &'static str)>, c: Constellation, first: int, n: int) -> Map<Seq<char>, OrbitItem>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        with_word(orbits(ls, fields, c, first, n - 1), fields, c, n - 1, word(ls[(n - 1) / 4], first, (n - 1) % 4))
    }
}
pub open spec fn normal(c: Constellation) -> Constellation { if sbas(c) { Constellation::SBAS } else { c } }
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "parse_orbits")
    f = s[a:e]
    f = f.replace("HashMap<String, OrbitItem>", "Orbits").replace("HashMap::new()", "Orbits::new()")
    f = strs.patterns(strs.cuts(f.replace("std::cmp::min(", "vmin(")))
    f, n = re.subn(r"for \(nth_line, line\) in lines\.enumerate\(\) \{", """let mut rest = lines;
    let mut verif_n: usize = 0;
    while let Some(line) = rest.next()
        invariant
            WORD_SIZE == 19, WORDS_PER_LINE == 4, offset == 3 || offset == 4,
            rest@.len() + verif_n == lines@.len(), lines@.len() < usize::MAX / 8,
            rest@ == lines@.subrange(verif_n as int, lines@.len() as int),
            forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
            map@ == orbits(lines@, fields@, constell, offset as int, 4 * verif_n),
        ensures rest@.len() == 0,
        decreases rest@.len(),
    {
        let nth_line = verif_n;
        verif_n += 1;
        proof { assert(line.spec_bytes() == lines@[nth_line as int]); }""", f)
    if n != 1:
        raise Lost("loop over the lines")
    f, n = re.subn(r"(for nth_word in 0\.\.WORDS_PER_LINE) \{", r"""let mut verif_w: usize = 0;
        while verif_w < WORDS_PER_LINE
            invariant
                verif_w <= 4,
                WORD_SIZE == 19, WORDS_PER_LINE == 4, offset == 3 || offset == 4,
                nth_line < lines@.len(), lines@.len() < usize::MAX / 8,
                line.spec_bytes() == lines@[nth_line as int], ascii(line.spec_bytes()),
                map@ == orbits(lines@, fields@, constell, offset as int, 4 * nth_line + verif_w),
            decreases WORDS_PER_LINE - verif_w,
        {
            let nth_word = verif_w;
            verif_w += 1;
            proof {
                assert((4 * nth_line + nth_word) / 4 == nth_line && (4 * nth_line + nth_word) % 4 == nth_word) by (nonlinear_arith) requires 0 <= nth_word < 4, nth_line >= 0;
                assert(trim(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
            }""", f)
    if n != 1:
        raise Lost("loop over the words")
    f = splice(f, "parse_orbits", """    requires
        forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
        lines@.len() < usize::MAX / 8,
    ensures
        match standards(normal(constell), version, msgtype) {
            None => r is Err,
            Some(std) => r is Ok && r->Ok_0@ == orbits(lines@, std.items@, normal(constell), if version.major < 3 { 3 } else { 4 }, 4 * lines@.len() as int),
        },""", ret="r")
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
