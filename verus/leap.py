"""Leap::from_str (src/leap.rs): the words of a leap second record."""
import re
from extract import *
import strs

FILE = "src/leap.rs"
DROPS = [
    strs.METHOD_DROP,
    "`s.split_ascii_whitespace().collect::<Vec<_>>()` -> `word_list(s)`, `items.get(4).copied().unwrap_or(\"\")` -> `word_at(&items, 4)`, `.or(Err(x))` -> `.map_err(|_e| x)`",
    "`day.find(|c: char| !c.is_ascii_digit())` -> `find_non_digit(day)`, `system.eq(\"\")` -> `is_empty_str(system)`",
]
TRUSTED = strs.TRUSTED + ["str::split_ascii_whitespace: left abstract (the sequence of words)", "#[derive(Default)] of Leap: 0 and None", "TimeScale::from_str is a function of the text (hifitime)"]
CONTRACTS = ["Leap::from_str"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub struct TimeScale { t: u8 }
impl Leap {
    #[verifier::external_body]
    pub fn default() -> (r: Leap)
        ensures r.leap == 0, r.delta_tls is None, r.week is None, r.day is None, r.timescale is None
    { unimplemented!() }
}
#[verifier::external_body]
pub fn word_list<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == words_of(s.spec_bytes()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).spec_bytes() == words_of(s.spec_bytes())[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn word_at<'a>(v: &Vec<&'a str>, i: usize) -> (r: &'a str)
    ensures r.spec_bytes() == (if i < v@.len() { v@[i as int].spec_bytes() } else { Seq::empty() })
{ unimplemented!() }
/// length of the digits the text starts with
pub open spec fn digits(b: Seq<u8>) -> int decreases b.len() {
    if b.len() > 0 && 48 <= b[0] <= 57 { 1 + digits(b.subrange(1, b.len() as int)) } else { 0 }
}
pub proof fn digits_in(b: Seq<u8>) ensures 0 <= digits(b) <= b.len() decreases b.len() {
    if b.len() > 0 { digits_in(b.subrange(1, b.len() as int)); }
}
#[verifier::external_body]
pub fn find_non_digit(s: &str) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < s.spec_bytes().len() && i == digits(s.spec_bytes()) && is_char_boundary(s.spec_bytes(), i as int),
        None => s.spec_bytes().len() == digits(s.spec_bytes()),
    }
{ unimplemented!() }

/// the system of the record: after the day, with or without a blank
pub open spec fn system(w: Seq<Seq<u8>>) -> Seq<u8> {
    if digits(w[3]) < w[3].len() { w[3].subrange(digits(w[3]), w[3].len() as int) } else if w.len() > 4 { w[4] } else { Seq::empty() }
}
pub open spec fn day(w: Seq<Seq<u8>>) -> Seq<u8> { w[3].subrange(0, digits(w[3])) }
pub open spec fn valid(w: Seq<Seq<u8>>) -> bool {
    &&& w.len() > 0 && parsed::<u32>(w[0]) is Some
    &&& w.len() > 2 ==> {
        &&& parsed::<u32>(w[1]) is Some && parsed::<u32>(w[2]) is Some
        &&& w.len() > 3 && parsed::<u32>(day(w)) is Some
        &&& system(w).len() == 0 || parsed::<TimeScale>(system(w)) is Some
    }
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    st = strs.plain(s, r"pub struct Leap\b")
    f = strs.method(s, r"impl (?:[\w:]*::)?FromStr for Leap\b", "from_str", "Leap")
    f = re.sub(r"(\w+)\.split_ascii_whitespace\(\)\s*\.collect::<Vec<(?:_|&str)>>\(\)", r"word_list(\1)", f)
    f = re.sub(r"\.or\(Err\(([\w:]+)\)\)", r".map_err(|_e| \1)", f)
    f = re.sub(r"(\w+)\.get\((\d+)\)\.copied\(\)\s*\.unwrap_or(?:_default\(\)|\(\"\"\))", r"word_at(&\1, \2)", f)
    f = re.sub(r"(\w+)\.find\(\|c: char\| !c\.is_ascii_digit\(\)\)", r"find_non_digit(\1)", f)
    f = re.sub(r"(\w+)\.eq\(\"\"\)|(\w+)\.is_empty\(\)", lambda m: f"is_empty_str({m[1] or m[2]})", f)
    f, n = re.subn(r"(let (\w+) = word_list\((\w+)\);)", r"\1\n        let ghost verif_w = words_of(\3.spec_bytes());\n        proof { if verif_w.len() > 3 { assert(verif_w[3] == \2@[3].spec_bytes()); digits_in(verif_w[3]); if digits(verif_w[3]) == verif_w[3].len() { assert(day(verif_w) =~= verif_w[3]); } } }", f)
    f = splice(f, "from_str", """    ensures
        r is Ok <==> valid(words_of(s.spec_bytes())),
        r is Ok ==> {
            let w = words_of(s.spec_bytes());
            &&& Some(r->Ok_0.leap) == parsed::<u32>(w[0])
            &&& r->Ok_0.delta_tls == (if w.len() > 2 { parsed::<u32>(w[1]) } else { None })
            &&& r->Ok_0.week == (if w.len() > 2 { parsed::<u32>(w[2]) } else { None })
            &&& r->Ok_0.day == (if w.len() > 2 { parsed::<u32>(day(w)) } else { None })
            &&& r->Ok_0.timescale == (if w.len() > 2 && system(w).len() > 0 { parsed::<TimeScale>(system(w)) } else { None })
        },""", ret="r")
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + strs.fromstr("TimeScale", "ParsingError") + st + "impl Leap {\n" + f + "\n}\n" + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
