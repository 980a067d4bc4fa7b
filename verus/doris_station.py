"""Station::from_str (src/doris/station.rs): every field from its columns."""
import re
from extract import *
import strs

FILE = "src/doris/station.rs"
DROPS = [strs.DROP, strs.PATTERN_DROP, strs.METHOD_DROP]
TRUSTED = strs.TRUSTED + ["DOMES::from_str is a function of the text (its fields: P13)"]
CONTRACTS = ["Station::from_str"]
CANARIES = ["canary"]

MODEL = r"""
pub struct DOMES { d: u8 }
/// the columns of a station
pub open spec fn valid(b: Seq<u8>) -> bool {
    &&& b.len() >= 56 && ascii(b)
    &&& parsed::<u16>(trim(cols(b, 1, 5))) is Some
    &&& parsed::<DOMES>(trim(cols(b, 40, 50))) is Some
    &&& parsed::<u8>(trim(cols(b, 50, 53))) is Some
    &&& parsed::<i8>(trim(cols(b, 53, 56))) is Some
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    st = strs.plain(s, r"pub struct Station\b")
    f = strs.patterns(strs.cuts(strs.method(s, r"impl (?:[\w:]*::)?FromStr for Station\b", "from_str", "Station")))
    f = splice(f, "from_str", """    ensures
        r is Ok <==> valid(content.spec_bytes()),
        r is Ok ==> {
            let b = content.spec_bytes();
            &&& Some(r->Ok_0.key) == parsed::<u16>(trim(cols(b, 1, 5)))
            &&& encode_utf8(r->Ok_0.label@) == trim(cols(b, 5, 10))
            &&& encode_utf8(r->Ok_0.site@) == trim(cols(b, 10, 40))
            &&& Some(r->Ok_0.domes) == parsed::<DOMES>(trim(cols(b, 40, 50)))
            &&& Some(r->Ok_0.gen) == parsed::<u8>(trim(cols(b, 50, 53)))
            &&& Some(r->Ok_0.k_factor) == parsed::<i8>(trim(cols(b, 53, 56)))
        },""", ret="r")
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + strs.fromstr("DOMES", "ParsingError") + st + "impl Station {\n" + f + "\n}\n" + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
