"""ProductionAttributes::from_str (src/production/mod.rs): the fields of both
layouts of a file name, from their columns."""
import re
from extract import *
import strs

FILE = "src/production/mod.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP, strs.METHOD_DROP, strs.MATCH_DROP,
    "`fname.to_uppercase()` -> `upper(fname)` (the same text as a &str), `fname.chars().nth(n)` -> `nth_char(fname, n)`",
]
TRUSTED = strs.TRUSTED + ["str::to_uppercase: left abstract (the text in upper case)", "a text of n digits denotes less than 10^n",
                          "PPU, FFU and DataSource::from_str are functions of the text (decided by P11)"]
CONTRACTS = ["ProductionAttributes::from_str"]
CANARIES = ["canary"]

MODEL = r"""
pub uninterp spec fn upper_of(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn upper<'a>(s: &'a str) -> (r: &'a str) ensures r.spec_bytes() == upper_of(s.spec_bytes()) { unimplemented!() }
#[verifier::external_body]
pub fn nth_char(s: &str, n: usize) -> (r: Option<char>)
    requires ascii(s.spec_bytes())
    ensures n < s.spec_bytes().len() ==> r == Some(s.spec_bytes()[n as int] as char), n >= s.spec_bytes().len() ==> r is None
{ unimplemented!() }
/// two digits denote less than 100
pub axiom fn bound2(b: Seq<u8>)
    ensures b.len() == 2 ==> (match parsed::<u32>(b) { Some(v) => v < 100, None => true });
pub struct PPU { p: u8 }
pub struct FFU { p: u8 }
pub struct DataSource { p: u8 }

/// NNNNDDDS.YYT
pub open spec fn short(u: Seq<u8>) -> bool {
    &&& ascii(u) && u.len() == 12 && index_of(u, 46) == 8
    &&& parsed::<u32>(u.subrange(9, 11)) is Some && parsed::<u32>(u.subrange(4, 7)) is Some
}
pub open spec fn ionex(u: Seq<u8>) -> bool { u.subrange(11, 12) == "I".spec_bytes() }
/// SSSSMRCCC_S_YYYYDDDHHMM_PPU_FFU_TT.ext
pub open spec fn long(u: Seq<u8>) -> bool {
    &&& ascii(u) && u.len() >= 13 && 30 <= index_of(u, 46) < u.len()
    &&& parsed::<u8>(u.subrange(4, 6)) is Some && parsed::<DataSource>(u.subrange(10, 11)) is Some
    &&& parsed::<u32>(u.subrange(12, 16)) is Some && parsed::<u32>(u.subrange(16, 19)) is Some
    &&& parsed::<u8>(u.subrange(19, 21)) is Some && parsed::<u8>(u.subrange(21, 23)) is Some
    &&& parsed::<PPU>(u.subrange(24, 27)) is Some
    &&& index_of(u, 46) == 34 ==> parsed::<FFU>(u.subrange(28, 32)) is Some
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    st = strs.plain(s, r"pub struct ProductionAttributes\b") + strs.plain(s, r"pub struct DetailedProductionAttributes\b")
    f = strs.method(s, r"impl (?:[\w:]*::)?FromStr for ProductionAttributes\b", "from_str", "ProductionAttributes")
    f = re.sub(r"(\w+)\.to_uppercase\(\)", r"upper(\1)", f)
    f = re.sub(r"(\w+)\.chars\(\)\.nth\((\d+)\)", r"nth_char(\1, \2)", f)
    f = strs.match_text(strs.patterns(strs.cuts(f)))
    f, n = re.subn(r"(let (\w+) = upper\((\w+)\);)", r"\1\n        let ghost verif_u = \2.spec_bytes();\n        proof { if verif_u.len() == 12 { bound2(verif_u.subrange(9, 11)); } }", f)
    f = splice(f, "from_str", """    ensures ({
        let u = upper_of(fname.spec_bytes());
        &&& r is Ok <==> short(u) || long(u)
        &&& r is Ok && short(u) ==> {
            let y = parsed::<u32>(u.subrange(9, 11)).unwrap();
            &&& r->Ok_0.year == (if y < 80 { 2000 + y } else { 1900 + y })
            &&& encode_utf8(r->Ok_0.name@) == (if ionex(u) { u.subrange(0, 3) } else { u.subrange(0, 4) })
            &&& Some(r->Ok_0.doy) == parsed::<u32>(u.subrange(4, 7))
            &&& r->Ok_0.region == (if ionex(u) { Some(u[3] as char) } else { None })
            &&& r->Ok_0.v3_details is None
        }
        &&& r is Ok && long(u) ==> {
            &&& Some(r->Ok_0.year) == parsed::<u32>(u.subrange(12, 16))
            &&& encode_utf8(r->Ok_0.name@) == u.subrange(0, 4)
            &&& Some(r->Ok_0.doy) == parsed::<u32>(u.subrange(16, 19))
            &&& r->Ok_0.region is None
            &&& r->Ok_0.v3_details is Some
            &&& {
                let d = r->Ok_0.v3_details.unwrap();
                &&& Some(d.batch) == parsed::<u8>(u.subrange(4, 6))
                &&& encode_utf8(d.country@) == u.subrange(6, 9)
                &&& Some(d.data_src) == parsed::<DataSource>(u.subrange(10, 11))
                &&& Some(d.hh) == parsed::<u8>(u.subrange(19, 21))
                &&& Some(d.mm) == parsed::<u8>(u.subrange(21, 23))
                &&& Some(d.ppu) == parsed::<PPU>(u.subrange(24, 27))
                &&& d.ffu == (if index_of(u, 46) == 34 { parsed::<FFU>(u.subrange(28, 32)) } else { None })
            }
        }
    }),""", ret="r")
    return strs.PRELUDE + strs.enum(f, "Error") + MODEL + "".join(strs.fromstr(t, "Error") for t in ("PPU", "FFU", "DataSource")) + st + "impl ProductionAttributes {\n" + f + "\n}\n" + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
