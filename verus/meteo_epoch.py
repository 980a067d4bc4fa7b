"""parse_epoch (src/meteo/parsing.rs): the i-th observable is read from its own
seven columns, eight on the first line and ten on the following ones."""
import re
from extract import *
import strs

FILE = "src/meteo/parsing.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP,
    "Header: its fields `version` and `meteo` only",
    "`content.lines()` -> an opaque sequence of texts",
]
TRUSTED = strs.TRUSTED + ["parse_utc_epoch is a function of the text (decided by P09)", "Clone for Observable"]
CONTRACTS = ["parse_epoch"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub struct Version { pub major: u8, pub minor: u8 }
pub struct Observable { c: u8 }
impl Observable {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Observable) ensures r == *self { unimplemented!() }
}
pub struct HeaderFields { pub codes: Vec<Observable> }
pub struct Header { pub version: Version, pub meteo: Option<HeaderFields> }
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
pub struct MeteoKey { pub epoch: Epoch, pub observable: Observable }
pub uninterp spec fn utc(b: Seq<u8>) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_utc_epoch(s: &str) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(t) => utc(s.spec_bytes()) == Some(t), Err(_) => utc(s.spec_bytes()) is None }
{ unimplemented!() }
pub trait VMin { fn vmin(self, b: usize) -> usize; }
impl VMin for usize { fn vmin(self, b: usize) -> (r: usize) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }

/// the text of the i-th observable; `first` is the column of the first one
pub open spec fn text(ls: Seq<Seq<u8>>, first: int, i: int) -> Seq<u8> {
    if i < 8 { cols(ls[0], first + 7 * i, first + 7 * i + 7) } else {
        let n = 1 + (i - 8) / 10;
        let at = 4 + 7 * ((i - 8) % 10);
        if n < ls.len() { cols(ls[n], at, at + 7) } else { Seq::empty() }
    }
}
/// the values of the first n observables; a blank is none
pub open spec fn values(ls: Seq<Seq<u8>>, epoch: Epoch, codes: Seq<Observable>, first: int, n: int) -> Seq<(MeteoKey, f64)> decreases n {
    if n <= 0 { Seq::empty() } else {
        match parsed::<f64>(trim(text(ls, first, n - 1))) {
            Some(v) => values(ls, epoch, codes, first, n - 1).push((MeteoKey { epoch, observable: codes[n - 1] }, v)),
            None => values(ls, epoch, codes, first, n - 1),
        }
    }
}
pub open spec fn first(v: Version) -> int { if v.major > 2 { 20 } else { 18 } }
/// the epoch of the line, if it has one
pub open spec fn stamp(ls: Seq<Seq<u8>>, v: Version) -> Option<Epoch> {
    if ls.len() == 0 || ls[0].len() < first(v) { None } else { utc(ls[0].subrange(0, first(v))) }
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "parse_epoch")
    f = s[a:e]
    f = strs.patterns(strs.cuts(f.replace(".min(", ".vmin(")))
    f, n = re.subn(r"for code in codes\.iter\(\) \{", """let ghost all = lines_of(content.spec_bytes());
    let ghost first = offset as int;
    let mut verif_i: usize = 0;
    while verif_i < codes.len()
        invariant
            verif_i <= codes@.len(), ascii(line.spec_bytes()), all.len() > 0,
            first == 18 || first == 20, codes@.len() < 0xFFFF,
            forall|k: int| 0 <= k < lines@.len() ==> ascii(#[trigger] lines@[k]),
            verif_i <= 8 ==> remaining == 8 - verif_i && line.spec_bytes() == all[0] && lines@ == all.subrange(1, all.len() as int) && offset == first + 7 * verif_i,
            verif_i > 8 ==> {
                let n = 1 + (verif_i - 9) / 10;
                &&& remaining == 9 - (verif_i - 9) % 10
                &&& offset == 11 + 7 * ((verif_i - 9) % 10)
                &&& (if n < all.len() { line.spec_bytes() == all[n] && lines@ == all.subrange(n + 1, all.len() as int) } else { line.spec_bytes() =~= Seq::<u8>::empty() && lines@.len() == 0 })
            },
            ret@ == values(all, epoch, codes@, first, verif_i as int),
        decreases codes@.len() - verif_i,
    {
        let code = &codes[verif_i];
        verif_i += 1;""", f)
    if n != 1:
        raise Lost("loop over the codes")
    f, n = re.subn(r"(let slice = [^;]*;)", r"\1\n        proof { assert(slice.spec_bytes() =~= text(all, first, verif_i - 1)); }", f)
    if n != 1:
        raise Lost("text of a value")
    f = splice(f, "parse_epoch", """    requires
        ascii(content.spec_bytes()),
        header.meteo is Some ==> header.meteo.unwrap().codes@.len() < 0xFFFF,
    ensures
        r is Ok <==> stamp(lines_of(content.spec_bytes()), header.version) is Some && header.meteo is Some,
        r is Ok ==> r->Ok_0@ == values(lines_of(content.spec_bytes()), stamp(lines_of(content.spec_bytes()), header.version).unwrap(),
            header.meteo.unwrap().codes@, first(header.version), header.meteo.unwrap().codes@.len() as int),""", ret="r")
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
