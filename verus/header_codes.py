"""src/header/parsing.rs: fixed columns, the lists of observables of a header,
and the date of TIME OF FIRST/LAST OBS."""
import re
from extract import *
import strs

FILE = "src/header/parsing.rs"
DROPS = [
    strs.PATTERN_DROP, strs.MATCH_DROP, strs.COLUMNS_DROP,
    "`lazy_static! { static ref X: T = [..]; }` -> `let X: T = [..];`, `for c in X.iter()` over an array -> a loop with an index",
    "`vec![x]` -> `vec_of(x)`",
    "`for w in x.split_ascii_whitespace()` -> `while let`, over an opaque sequence of words",
    "`Epoch::from_str(&format!(\"{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:0<7} {}\", ..))` -> `Epoch::from_fields(..)` (this exact format)",
    "`impl Header`: the functions under contract only; MeteoHeader, ObservationHeader, DorisHeader: their lists of observables only",
]
TRUSTED = strs.TRUSTED + [
    "HashMap: get_mut and insert of the codes of a constellation", "str::char_indices: the n-th character of an ASCII text is its n-th byte",
    "Observable, Constellation and TimeScale::from_str are functions of the text (P03, gnss-rs, hifitime)", "Epoch::from_str(\"Y-M-DTh:m:s.f ts\") is a function of the fields (hifitime)",
]
CONTRACTS = ["split_columns", "parse_v2_observables", "parse_v3_observables", "parse_doris_observables", "parse_time_of_obs_default"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub enum Constellation { GPS, Glonass, BeiDou, QZSS, Galileo, IRNSS, SBAS, Mixed, Other(u8) }
#[derive(Clone, Copy)]
pub enum TimeScale { TAI, UTC, GPST, GST, BDT, QZSST, Other(u8) }
pub struct Observable { c: u8 }
impl Observable {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Observable) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_of(o: Observable) -> (r: Vec<Observable>) ensures r@ == Seq::<Observable>::empty().push(o) { vec![o] }
/// the observables of each constellation (behind HashMap<Constellation, Vec<Observable>>)
#[verifier::external_body]
pub struct Codes { c: u8 }
impl View for Codes { type V = Map<Constellation, Vec<Observable>>; uninterp spec fn view(&self) -> Map<Constellation, Vec<Observable>>; }
impl Codes {
    #[verifier::external_body]
    pub fn get_mut(&mut self, c: &Constellation) -> (r: Option<&mut Vec<Observable>>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*c) && *v == old(self)@[*c] && final(self)@ == old(self)@.insert(*c, *final(v)),
            None => !old(self)@.dom().contains(*c) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, c: Constellation, v: Vec<Observable>) ensures final(self)@ == old(self)@.insert(c, v) { unimplemented!() }
}
pub struct ObservationHeader { pub codes: Codes }
pub struct MeteoHeader { pub codes: Vec<Observable> }
pub struct DorisHeader { pub observables: Vec<Observable> }

pub type Lists = spec_fn(Constellation) -> Option<Seq<Observable>>;
pub open spec fn lists(m: Map<Constellation, Vec<Observable>>) -> Lists { |c: Constellation| if m.dom().contains(c) { Some(m[c]@) } else { None } }
/// o becomes the last observable of the constellations of `to`
pub open spec fn added(l: Lists, to: spec_fn(Constellation) -> bool, o: Observable) -> Lists {
    |c: Constellation| if to(c) { Some((match l(c) { Some(s) => s, None => Seq::empty() }).push(o)) } else { l(c) }
}
/// same for each word that is an observable
pub open spec fn adds(l: Lists, to: spec_fn(Constellation) -> bool, w: Seq<Seq<u8>>, n: int) -> Lists decreases n {
    if n <= 0 { l } else { match parsed::<Observable>(w[n - 1]) { Some(o) => added(adds(l, to, w, n - 1), to, o), None => adds(l, to, w, n - 1) } }
}
pub open spec fn same_lists(a: Lists, b: Lists) -> bool { forall|c: Constellation| #[trigger] at(c) ==> a(c) == b(c) }
pub open spec fn at(c: Constellation) -> bool { true }
pub open spec fn appended(l: Seq<Observable>, w: Seq<Seq<u8>>, n: int) -> Seq<Observable> decreases n {
    if n <= 0 { l } else { match parsed::<Observable>(w[n - 1]) { Some(o) => appended(l, w, n - 1).push(o), None => appended(l, w, n - 1) } }
}
/// the constellations of V2
pub open spec fn v2(c: Constellation) -> bool { c == Constellation::GPS || c == Constellation::SBAS || c == Constellation::Glonass || c == Constellation::Galileo }
pub open spec fn targets(c: Option<Constellation>) -> spec_fn(Constellation) -> bool {
    |k: Constellation| match c { Some(Constellation::Mixed) => v2(k), Some(c) => k == c, None => false }
}
pub open spec fn targets3(c: Constellation) -> spec_fn(Constellation) -> bool { |k: Constellation| k == c }
pub open spec fn prefix_of(a: Seq<Constellation>, n: int) -> spec_fn(Constellation) -> bool { |k: Constellation| exists|i: int| 0 <= i < n && #[trigger] a[i] == k }

pub proof fn prefix_step(a: Seq<Constellation>, i: int)
    requires 0 <= i < a.len(), forall|j: int, k: int| 0 <= j < k < a.len() ==> a[j] != a[k],
    ensures !prefix_of(a, i)(a[i]), forall|c: Constellation| #[trigger] at(c) ==> (prefix_of(a, i + 1)(c) <==> prefix_of(a, i)(c) || c == a[i]),
{
    assert forall|c: Constellation| #[trigger] at(c) implies (prefix_of(a, i + 1)(c) <==> prefix_of(a, i)(c) || c == a[i]) by {
        if prefix_of(a, i)(c) { let k = choose|k: int| 0 <= k < i && #[trigger] a[k] == c; assert(a[k] == c && k < i + 1); }
        if c == a[i] { assert(a[i] == c && i < i + 1); }
    }
}
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
pub uninterp spec fn instant(y: int, m: u8, d: u8, hh: u8, mm: u8, ss: u8, f: Seq<u8>, ts: TimeScale) -> Option<Epoch>;
impl Epoch {
    #[verifier::external_body]
    pub fn from_fields(y: u32, m: u8, d: u8, hh: u8, mm: u8, ss: u8, f: &str, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
        ensures match r { Ok(e) => instant(y as int, m, d, hh, mm, ss, f.spec_bytes(), ts) == Some(e), Err(_) => instant(y as int, m, d, hh, mm, ss, f.spec_bytes(), ts) is None }
    { unimplemented!() }
}
/// two digit years: 79-99 are 1979-1999
pub open spec fn year(y: int) -> int { if 79 <= y <= 99 { y + 1900 } else if y < 79 { y + 2000 } else { y } }
pub open spec fn system(b: Seq<u8>, default_ts: TimeScale) -> Option<TimeScale> {
    if b.len() == 0 { Some(default_ts) }
    else if b == "DOR".spec_bytes() { Some(TimeScale::TAI) }
    else if b == "GLO".spec_bytes() { Some(TimeScale::UTC) }
    else if b == "QZS".spec_bytes() { Some(TimeScale::QZSST) }
    else { parsed::<TimeScale>(b) }
}
pub open spec fn date(b: Seq<u8>, default_ts: TimeScale) -> Option<Epoch> {
    match (parsed::<u32>(trim(cols(b, 2, 6))), parsed::<u8>(trim(cols(b, 6, 12))), parsed::<u8>(trim(cols(b, 12, 18))), parsed::<u8>(trim(cols(b, 18, 24))),
        parsed::<u8>(trim(cols(b, 24, 30))), parsed::<u8>(trim(cols(b, 30, 35))), parsed::<u32>(trim(cols(b, 36, 43))), system(trim(from(b, 43)), default_ts)) {
        (Some(y), Some(m), Some(d), Some(hh), Some(mm), Some(ss), Some(_), Some(ts)) => instant(year(y as int), m, d, hh, mm, ss, trim(cols(b, 36, 43)), ts),
        _ => None,
    }
}
"""


def method(s, name):
    a, b, e = find_fn(s, name)
    f = re.sub(r"vec!\[([^\[\]]*)\]", r"vec_of(\1)", s[a:e])
    return re.sub(r"\|_\|", "|_e|", f).replace("pub(crate)", "pub")


def added_word(f):
    """ghost code: the lists before and after a word"""
    f, n = re.subn(r"(proof \{ assert\((\w+)\.spec_bytes\(\) == w\[verif_n\]\); verif_n = verif_n \+ 1; \})", r"\1\n        let ghost l0 = lists(observation.codes@);", f)
    if n != 1:
        raise Lost("loop over the words")
    return f


def unit(repo):
    s = open(f"{repo}/{FILE}").read()
    i = s.rfind("#[cfg(test)]\nmod")
    s = s[:i] if i > 0 else s

    v2 = method(s, "parse_v2_observables")
    m = re.search(r"lazy_static! \{.*?static ref (\w+): ([^=]*)= (\[.*?\]);\s*\}", v2, re.S)
    if not m:
        raise Lost("constellations of V2")
    name = m[1]
    v2 = v2.replace(m[0], f"let {name}: {m[2]}= {m[3]};")
    v2 = added_word(strs.words_for(v2, "w", f"""tidy(line.spec_bytes()) ==> same_lists(lists(observation.codes@), adds(start, targets(constell), w, verif_n)),
            tidy(line.spec_bytes()) ==> meteo.codes@ == (if constell is None {{ appended(old(meteo).codes@, w, verif_n) }} else {{ old(meteo).codes@ }}),
            (forall|c: Constellation| #[trigger] at(c) ==> (v2(c) <==> prefix_of({name}@, 4)(c))),
            (forall|i: int, j: int| 0 <= i < j < 4 ==> {name}@[i] != {name}@[j]),"""))
    v2, n = re.subn(r"for (\w+) in %s\.iter\(\) \{" % name, rf"""let mut verif_i: usize = 0;
                        while verif_i < 4
                            invariant
                                0 <= verif_i <= 4,
                                (forall|i: int, j: int| 0 <= i < j < 4 ==> {name}@[i] != {name}@[j]),
                                same_lists(lists(observation.codes@), added(l0, prefix_of({name}@, verif_i as int), obs)),
                            decreases 4 - verif_i,
                        {{
                            let \1 = &{name}[verif_i];
                            verif_i += 1;
                            proof {{ assert({name}@[verif_i - 1] == *\1); prefix_step({name}@, verif_i - 1); }}""", v2)
    if n != 1:
        raise Lost("loop over the constellations")
    v2, n = re.subn(r"(let mut verif_w)", rf"""let ghost start = lists(observation.codes@);
        proof {{
            let a = {name}@;
            assert(a.len() == 4);
            assert(prefix_of(a, 4)(a[0]) && prefix_of(a, 4)(a[1]) && prefix_of(a, 4)(a[2]) && prefix_of(a, 4)(a[3]));
        }}
        \1""", v2)
    v2 = splice(v2, "parse_v2_observables", """    ensures tidy(line.spec_bytes()) ==> ({
        let w = words_of(from(line.spec_bytes(), 6));
        &&& same_lists(lists(final(observation).codes@), adds(lists(old(observation).codes@), targets(constell), w, w.len() as int))
        &&& final(meteo).codes@ == (if constell is None { appended(old(meteo).codes@, w, w.len() as int) } else { old(meteo).codes@ })
    }),""")

    v3 = added_word(strs.words_for(re.sub(r"(\w+)\.is_empty\(\)", r"is_empty_str(\1)", method(s, "parse_v3_observables")), "w", """same_lists(lists(observation.codes@), adds(start, targets3(*constell), w, verif_n)),"""))
    v3 = v3.replace("let mut verif_w", "let ghost start = lists(observation.codes@);\n            let mut verif_w", 1)
    v3 = splice(v3, "parse_v3_observables", """    ensures ascii(line.spec_bytes()) && line.spec_bytes().len() > 0 ==> ({
        let w = words_of(from(line.spec_bytes(), 6));
        &&& *final(current_constell) == (match parsed::<Constellation>(cols(line.spec_bytes(), 0, 1)) { Some(c) => Some(c), None => *old(current_constell) })
        &&& match *final(current_constell) {
            Some(c) => same_lists(lists(final(observation).codes@), adds(lists(old(observation).codes@), targets3(c), w, w.len() as int)),
            None => final(observation).codes@ == old(observation).codes@,
        }
    }),""")

    d = strs.words_for(method(s, "parse_doris_observables"), "w", "doris.observables@ == appended(old(doris).observables@, w, verif_n),")
    d = splice(d, "parse_doris_observables", """    ensures tidy(line.spec_bytes()) ==> final(doris).observables@ == appended(old(doris).observables@, words_of(from(line.spec_bytes(), 6)), words_of(from(line.spec_bytes(), 6)).len() as int),""")

    t = method(s, "parse_time_of_obs_default")
    t = re.sub(r'Epoch::from_str\(&format!\(\s*"\{:04\}-\{:02\}-\{:02\}T\{:02\}:\{:02\}:\{:02\}\.\{:0<7\} \{\}",\s*([^)]*)\)\)', r"Epoch::from_fields(\1)", t)
    if "format!" in t:
        raise Lost("layout of a date")
    t = strs.opaque_columns(strs.match_text(t))
    t = splice(t, "parse_time_of_obs_default", """    ensures ascii(content.spec_bytes()) ==> match date(content.spec_bytes(), default_ts) {
        Some(e) => r == Ok::<Epoch, ParsingError>(e),
        None => r is Err,
    },""", ret="r")
    return (strs.prelude_columns() + strs.enum(t, "ParsingError") + MODEL + strs.columns(repo)
            + strs.fromstr("Observable", "ParsingError") + strs.fromstr("Constellation", "ParsingError") + strs.fromstr("TimeScale", "ParsingError")
            + "impl ObservationHeader {\n" + v2 + "\n" + v3 + "\n" + d + "\n" + t + "\n}\n" + strs.CANARY + "fn main() {}\n}\n")


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
