"""parse_in_timescale, parse_utc, parse_ionex_utc (src/epoch.rs): six fields,
two digit years, and a fraction of any number of digits."""
import re
from extract import *
import strs

FILE = "src/epoch.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP,
    "`for (i, w) in x.split_ascii_whitespace().enumerate()` -> `while let` with a counter, over an opaque sequence of words",
    "`10_u64.pow(n)` -> `pow10(n)`",
    "`Epoch::from_gregorian_str(&format!(\"{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}\", ..))` -> `Epoch::from_fields(..)` (this exact format)",
]
TRUSTED = strs.TRUSTED + ["hifitime: Epoch::{maybe_from_gregorian_utc, maybe_from_gregorian_tai, from_gregorian_str} are functions of the fields and the time system (compared to an independent calendar by the native search)",
                          "str::split_ascii_whitespace: left abstract (the sequence of words)", "u64::pow; a text of n digits denotes less than 10^n"]
CONTRACTS = ["parse_in_timescale", "parse_utc", "parse_ionex_utc"]
CANARIES = ["canary"]

MODEL = r"""
use vstd::arithmetic::power::pow;
#[derive(Clone, Copy)]
pub enum TimeScale { UTC, TAI, Other(u8) }
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
pub struct Fields { pub y: i32, pub m: u8, pub d: u8, pub hh: u8, pub mm: u8, pub ss: u8, pub ns: u64 }
/// the instant of a calendar date of a time system, if it exists
pub uninterp spec fn instant(f: Fields, ts: TimeScale) -> Option<Epoch>;
impl Epoch {
    #[verifier::external_body]
    pub fn maybe_from_gregorian_utc(y: i32, m: u8, d: u8, hh: u8, mm: u8, ss: u8, ns: u32) -> (r: Result<Epoch, u8>)
        ensures match r { Ok(t) => instant(Fields { y, m, d, hh, mm, ss, ns: ns as u64 }, TimeScale::UTC) == Some(t), Err(_) => instant(Fields { y, m, d, hh, mm, ss, ns: ns as u64 }, TimeScale::UTC) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn maybe_from_gregorian_tai(y: i32, m: u8, d: u8, hh: u8, mm: u8, ss: u8, ns: u32) -> (r: Result<Epoch, u8>)
        ensures match r { Ok(t) => instant(Fields { y, m, d, hh, mm, ss, ns: ns as u64 }, TimeScale::TAI) == Some(t), Err(_) => instant(Fields { y, m, d, hh, mm, ss, ns: ns as u64 }, TimeScale::TAI) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_fields(y: i32, m: u8, d: u8, hh: u8, mm: u8, ss: u8, ns: u64, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
        ensures match r { Ok(t) => instant(Fields { y, m, d, hh, mm, ss, ns }, ts) == Some(t), Err(_) => instant(Fields { y, m, d, hh, mm, ss, ns }, ts) is None }
    { unimplemented!() }
}
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
#[verifier::external_body]
pub fn pow10(n: u32) -> (r: u64) requires n <= 19 ensures r == p10(n as int) { 10_u64.pow(n) }
/// n digits denote less than 10^n
pub axiom fn bound10(b: Seq<u8>) ensures parsed::<u64>(b) is Some ==> parsed::<u64>(b).unwrap() < p10(b.len() as int);
proof fn p10_add(a: int, b: int) requires a >= 0, b >= 0 ensures p10(a) * p10(b) == p10(a + b), p10(a) >= 1 decreases a {
    if a > 0 { p10_add(a - 1, b); assert(10 * p10(a - 1) * p10(b) == 10 * (p10(a - 1) * p10(b))) by (nonlinear_arith); }
}
pub trait VMin { fn vmin(self, b: usize) -> usize; }
impl VMin for usize { fn vmin(self, b: usize) -> (r: usize) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }

/// years 80-99 are 1980-1999, up to 79 2000-2079
pub open spec fn year(y: int) -> int { if 79 < y <= 99 { y + 1900 } else if y <= 79 { y + 2000 } else { y } }
pub open spec fn first_dot(w: Seq<u8>, i: int) -> bool { 0 <= i < w.len() && w[i] == 46 && forall|k: int| 0 <= k < i ==> (#[trigger] w[k]) != 46 }
pub open spec fn has_dot(w: Seq<u8>) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]) == 46 }
/// the digits after the dot, nine at most
pub open spec fn fraction(w: Seq<u8>, i: int) -> Seq<u8> { let f = trim(w.subrange(i + 1, w.len() as int)); f.subrange(0, min(9, f.len() as int)) }
/// the seconds and nanoseconds that the word w reads
pub open spec fn seconds(w: Seq<u8>, ss: u8, ns: u64) -> bool {
    if has_dot(w) {
        exists|i: int| #[trigger] first_dot(w, i) && parsed::<u8>(trim(w.subrange(0, i))) == Some(ss)
            && parsed::<u64>(fraction(w, i)) is Some && ns == parsed::<u64>(fraction(w, i)).unwrap() * p10(9 - fraction(w, i).len())
    } else { parsed::<u8>(trim(w)) == Some(ss) && ns == 0 }
}
/// the first n words read the fields f
pub open spec fn reads(w: Seq<Seq<u8>>, f: Fields, n: int) -> bool {
    &&& (if n > 0 { parsed::<i32>(w[0]) is Some && f.y == year(parsed::<i32>(w[0]).unwrap() as int) } else { f.y == 0 })
    &&& (if n > 1 { parsed::<u8>(w[1]) == Some(f.m) } else { f.m == 0 })
    &&& (if n > 2 { parsed::<u8>(w[2]) == Some(f.d) } else { f.d == 0 })
    &&& (if n > 3 { parsed::<u8>(w[3]) == Some(f.hh) } else { f.hh == 0 })
    &&& (if n > 4 { parsed::<u8>(w[4]) == Some(f.mm) } else { f.mm == 0 })
    &&& (if n > 5 { seconds(w[5], f.ss, f.ns) } else { f.ss == 0 && f.ns == 0 })
}
proof fn unique(w: Seq<Seq<u8>>, f: Fields, g: Fields)
    requires reads(w, f, 6), reads(w, g, 6)
    ensures f == g
{
    if has_dot(w[5]) {
        let i = choose|i: int| #[trigger] first_dot(w[5], i) && parsed::<u8>(trim(w[5].subrange(0, i))) == Some(f.ss)
            && parsed::<u64>(fraction(w[5], i)) is Some && f.ns == parsed::<u64>(fraction(w[5], i)).unwrap() * p10(9 - fraction(w[5], i).len());
        let j = choose|i: int| #[trigger] first_dot(w[5], i) && parsed::<u8>(trim(w[5].subrange(0, i))) == Some(g.ss)
            && parsed::<u64>(fraction(w[5], i)) is Some && g.ns == parsed::<u64>(fraction(w[5], i)).unwrap() * p10(9 - fraction(w[5], i).len());
        assert(i == j) by { if i < j { assert(w[5][i] == 46); } if j < i { assert(w[5][j] == 46); } }
    }
}
/// same for the layout of IONEX: plain integers, four digit years
pub open spec fn reads_ionex(w: Seq<Seq<u8>>, f: Fields, n: int) -> bool {
    &&& (if n > 0 { parsed::<i32>(trim(w[0])) == Some(f.y) } else { f.y == 0 })
    &&& (if n > 1 { parsed::<u8>(trim(w[1])) == Some(f.m) } else { f.m == 0 })
    &&& (if n > 2 { parsed::<u8>(trim(w[2])) == Some(f.d) } else { f.d == 0 })
    &&& (if n > 3 { parsed::<u8>(trim(w[3])) == Some(f.hh) } else { f.hh == 0 })
    &&& (if n > 4 { parsed::<u8>(trim(w[4])) == Some(f.mm) } else { f.mm == 0 })
    &&& (if n > 5 { parsed::<u8>(trim(w[5])) == Some(f.ss) } else { f.ss == 0 }) && f.ns == 0
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    fs = []
    for name in CONTRACTS:
        a, b, e = find_fn(s, name)
        f = s[a:e].replace("map_err(|_|", "map_err(|_e|").replace(".min(", ".vmin(").replace("10_u64.pow(", "pow10(")
        f = re.sub(r'Epoch::from_gregorian_str\(&format!\(\s*"\{:04\}-\{:02\}-\{:02\}T\{:02\}:\{:02\}:\{:02\}\.\{:09\} \{\}",\s*([^)]*)\)\)', r"Epoch::from_fields(\1)", f)
        if "format!" in f:
            raise Lost("layout of a date")
        f = strs.cuts(f)
        if name == "parse_in_timescale":
            f = f.replace("content.split_ascii_whitespace().count()", "words(content).count()")
            f = strs.words_loop(f, "w", "ascii(content.spec_bytes()), reads(w, Fields { y, m, d, hh, mm, ss, ns }, verif_n as int), w.len() >= 6, ns < 1_000_000_000,")
            m, k = re.search(r"if let Some\((\w+)\) = \w+\.find\('\.'\)", f), re.search(r"let (\w+) = [^;]*\.vmin\(9\)[^;]*;", f)
            if not m or not k:
                raise Lost("fraction of seconds")
            dot, digits = m[1], k[1]
            f = f.replace(k[0], f"""{k[0]}
                    proof {{ reveal_with_fuel(p10, 11); p10_add({digits} as int, 9 - {digits}); bound10(fraction(w[5], {dot} as int)); assert(first_dot(w[5], {dot} as int)); }}""")
            f = re.sub(r"(ns \*= [^;]*;)", rf"""proof {{
                        let k = p10(9 - {digits});
                        p10_add(9 - {digits}, 0);
                        assert(fraction(w[5], {dot} as int).len() == {digits});
                        assert(ns as int * k < p10({digits} as int) * k) by (nonlinear_arith) requires (ns as int) < p10({digits} as int), k >= 1;
                        reveal_with_fuel(p10, 11);
                    }}
                    \1""", f)
            f = re.sub(r"(match ts \{)", r"""proof {
        let me = Fields { y, m, d, hh, mm, ss, ns };
        let w0 = words_of(content.spec_bytes());
        assert(reads(w0, me, 6));
        assert forall|g: Fields| #[trigger] reads(w0, g, 6) implies g == me by { unique(w0, me, g); }
    }
    \1""", f)
            f = splice(f, name, """    requires ascii(content.spec_bytes()),
    ensures
        r is Ok ==> words_of(content.spec_bytes()).len() >= 6,
        match r {
            Ok(t) => exists|f: Fields| #[trigger] reads(words_of(content.spec_bytes()), f, 6) && f.y != 0 && instant(f, ts) == Some(t),
            Err(_) => words_of(content.spec_bytes()).len() >= 6 ==> forall|f: Fields| #[trigger] reads(words_of(content.spec_bytes()), f, 6) && f.y != 0 ==> instant(f, ts) is None,
        },""", ret="r")
        elif name == "parse_ionex_utc":
            f = strs.words_loop(f, "w", "ascii(s.spec_bytes()), reads_ionex(w, Fields { y, m, d, hh, mm, ss, ns: 0 }, verif_n as int),")
            f = splice(f, name, """    requires ascii(s.spec_bytes()),
    ensures
        match r {
            Ok(t) => exists|f: Fields| #[trigger] reads_ionex(words_of(s.spec_bytes()), f, words_of(s.spec_bytes()).len() as int) && instant(f, TimeScale::UTC) == Some(t),
            Err(_) => forall|f: Fields| #[trigger] reads_ionex(words_of(s.spec_bytes()), f, words_of(s.spec_bytes()).len() as int) ==> instant(f, TimeScale::UTC) is None,
        },""", ret="r")
        else:
            f = splice(f, name, """    requires ascii(s.spec_bytes()),
    ensures
        match r {
            Ok(t) => exists|f: Fields| #[trigger] reads(words_of(s.spec_bytes()), f, 6) && f.y != 0 && instant(f, TimeScale::UTC) == Some(t),
            Err(_) => words_of(s.spec_bytes()).len() >= 6 ==> forall|f: Fields| #[trigger] reads(words_of(s.spec_bytes()), f, 6) && f.y != 0 ==> instant(f, TimeScale::UTC) is None,
        },""", ret="r")
        fs.append(strs.patterns(f))
    f = "\n".join(fs)
    return strs.PRELUDE + strs.enum(f, "ParsingError") + MODEL + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
