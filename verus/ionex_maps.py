"""parse_grid_specs, parse_tec_map, parse_rms_map (src/ionex/parsing.rs): the
columns of a grid line, and the point of the grid of every value of a map."""
import re
from extract import *
import strs

FILE = "src/ionex/parsing.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP,
    "`for line in lines`, `for item in map_values(line)` -> `while let` and a loop with an index",
    "`(0..n).step_by(k).map(|i| BODY).collect()`, `v.iter().all(|x| BODY)` -> loops over BODY",
    "`s.contains(char::is_whitespace)`, `s.split_ascii_whitespace().collect()` -> `has_white(s)`, `all_words(s)`",
    "`const KEYWORD: &str = \"..\"` -> `let keyword: &str = \"..\"`, `item != keyword` -> `!same(item, keyword)`",
    "`(a, ..) = parse_grid_specs(..)?` -> `let g = parse_grid_specs(..)?; a = g.0; ..`", "`long += long_spacing` -> `long = fadd(long, long_spacing)`", "`s.is_char_boundary(60)` -> `boundary(s, 60)`",
]
TRUSTED = strs.TRUSTED + [
    "f64 addition, Quantized::new, TEC::{from_quantized, set_quantized_rms}: functions of their arguments (their values are compared by the native search)",
    "BTreeMap: insert, get_mut", "str::lines: left abstract",
]
CONTRACTS = ["map_values", "parse_grid_specs", "parse_tec_map", "parse_rms_map"]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub struct Epoch { t: u64 }
#[derive(Clone, Copy)]
pub struct Quantized { t: u64 }
#[derive(Clone, Copy)]
pub struct TEC { t: u64 }
#[derive(Clone, Copy)]
pub struct QuantizedCoordinates { pub latitude: Quantized, pub longitude: Quantized, pub altitude: Quantized }
#[derive(Clone, Copy)]
pub struct IonexKey { pub epoch: Epoch, pub coordinates: QuantizedCoordinates }
pub uninterp spec fn quantized(v: f64, e: i8) -> Quantized;
pub uninterp spec fn tec_of(v: i64, e: i8) -> TEC;
pub uninterp spec fn with_rms(t: TEC, v: i64, e: i8) -> TEC;
pub uninterp spec fn sum(a: f64, b: f64) -> f64;
impl Quantized {
    #[verifier::external_body]
    pub fn new(v: f64, e: i8) -> (r: Quantized) ensures r == quantized(v, e) { unimplemented!() }
}
impl QuantizedCoordinates {
    #[verifier::external_body]
    pub fn from_quantized(latitude: Quantized, longitude: Quantized, altitude: Quantized) -> (r: QuantizedCoordinates)
        ensures r == (QuantizedCoordinates { latitude, longitude, altitude })
    { unimplemented!() }
}
impl TEC {
    #[verifier::external_body]
    pub fn from_quantized(v: i64, e: i8) -> (r: TEC) ensures r == tec_of(v, e) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_quantized_rms(&mut self, v: i64, e: i8) ensures *final(self) == with_rms(*old(self), v, e) { unimplemented!() }
}
#[verifier::external_body]
pub fn fadd(a: f64, b: f64) -> (r: f64) ensures r == sum(a, b) { a + b }
#[verifier::external_body]
pub fn boundary(s: &str, n: usize) -> (r: bool) ensures r == (n <= s.spec_bytes().len() && is_char_boundary(s.spec_bytes(), n as int)) { s.is_char_boundary(n) }
/// behind BTreeMap<IonexKey, TEC>
#[verifier::external_body]
pub struct Record { c: u8 }
impl View for Record { type V = Map<IonexKey, TEC>; uninterp spec fn view(&self) -> Map<IonexKey, TEC>; }
impl Record {
    #[verifier::external_body]
    pub fn insert(&mut self, k: IonexKey, v: TEC) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &IonexKey) -> (r: Option<&mut TEC>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
}
/// the n first fields of five columns
pub open spec fn column(b: Seq<u8>, i: int) -> Seq<u8> { trim(cols(b, 5 * i, 5 * i + 5)) }
pub open spec fn fields_of(b: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(((b.len() + 4) / 5) as nat, |i: int| column(b, i)) }
pub open spec fn one_word(b: Seq<u8>) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> !white(#[trigger] b[i]) }
/// the values of a line: columns of five, or words
pub open spec fn values_of(l: Seq<u8>) -> Seq<Seq<u8>> {
    let f = fields_of(rtrim(l));
    if forall|i: int| 0 <= i < f.len() ==> one_word(#[trigger] f[i]) { f } else { words_of(rtrim(l)) }
}
pub open spec fn texts(v: Seq<&str>, w: Seq<Seq<u8>>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> (#[trigger] v[i]).spec_bytes() == w[i] }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
pub fn has_white(s: &str) -> (r: bool) ensures ascii(s.spec_bytes()) ==> r == exists|i: int| 0 <= i < s.spec_bytes().len() && white(#[trigger] s.spec_bytes()[i]) { s.contains(char::is_whitespace) }
#[verifier::external_body]
pub fn all_words<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@, words_of(s.spec_bytes())) { s.split_ascii_whitespace().collect() }

/// a grid line: latitude, first longitude, (last longitude), step, altitude
pub struct Row { pub lat: f64, pub long: f64, pub step: f64, pub alt: f64 }
pub open spec fn grid(b: Seq<u8>) -> Option<Row> {
    if !ascii(b) || b.len() < 32 { None } else {
        match (parsed::<f64>(trim(cols(b, 2, 8))), parsed::<f64>(trim(cols(b, 8, 14))), parsed::<f64>(trim(cols(b, 20, 26))), parsed::<f64>(trim(cols(b, 26, 32)))) {
            (Some(lat), Some(long), Some(step), Some(alt)) => Some(Row { lat, long, step, alt }),
            _ => None,
        }
    }
}
/// the scales of the maps
pub struct Scales { pub lat: i8, pub long: i8, pub alt: i8, pub tec: i8, pub epoch: Epoch }
pub open spec fn key(s: Scales, r: Row, long: f64) -> IonexKey {
    IonexKey { epoch: s.epoch, coordinates: QuantizedCoordinates { latitude: quantized(r.lat, s.lat), longitude: quantized(long, s.long), altitude: quantized(r.alt, s.alt) } }
}
/// longitude of the n-th value from `long` on
pub open spec fn longitude(long: f64, step: f64, n: int) -> f64 decreases n { if n <= 0 { long } else { sum(longitude(long, step, n - 1), step) } }
pub open spec fn value(w: Seq<u8>) -> Option<i64> { if w == "9999".spec_bytes() { None } else { parsed::<i64>(w) } }
/// one value of a map of TEC, or of RMS
pub open spec fn put(rms: bool, m: Map<IonexKey, TEC>, s: Scales, k: IonexKey, v: Option<i64>) -> Map<IonexKey, TEC> {
    match v {
        None => m,
        Some(v) => if !rms { m.insert(k, tec_of(v, s.tec)) } else if m.dom().contains(k) { m.insert(k, with_rms(m[k], v, s.tec)) } else { m },
    }
}
/// the n first values of a line
pub open spec fn puts(rms: bool, m: Map<IonexKey, TEC>, s: Scales, r: Row, w: Seq<Seq<u8>>, n: int) -> Map<IonexKey, TEC> decreases n {
    if n <= 0 { m } else { put(rms, puts(rms, m, s, r, w, n - 1), s, key(s, r, longitude(r.long, r.step, n - 1)), value(w[n - 1])) }
}
pub open spec fn labelled(l: Seq<u8>) -> bool { l.len() > 60 && is_char_boundary(l, 60) }
pub open spec fn label(l: Seq<u8>, p: &str) -> bool { labelled(l) && has(l.subrange(60, l.len() as int), p.spec_bytes()) }
/// lines that hold no value, and no grid
pub open spec fn skipped(rms: bool, l: Seq<u8>) -> bool { label(l, "EXPONENT") || (!rms && label(l, "EPOCH OF CURRENT MAP")) || label(l, "START OF") }
pub open spec fn grid_line(l: Seq<u8>) -> bool { label(l, "LAT/LON1/LON2/DLON/H") }
pub open spec fn last(rms: bool, l: Seq<u8>) -> bool { if rms { label(l, "END OF RMS MAP") } else { label(l, "END OF TEC MAP") } }
/// the lines of a map; None: a damaged grid
pub open spec fn map_of(rms: bool, m: Map<IonexKey, TEC>, s: Scales, r: Row, ls: Seq<Seq<u8>>) -> Option<Map<IonexKey, TEC>> decreases ls.len() {
    if ls.len() == 0 { Some(m) } else {
        let (l, rest) = (ls[0], ls.subrange(1, ls.len() as int));
        if rms && last(rms, l) { Some(m) }
        else if skipped(rms, l) { map_of(rms, m, s, r, rest) }
        else if grid_line(l) { match grid(l.subrange(0, 60)) { Some(r) => map_of(rms, m, s, r, rest), None => None } }
        else if last(rms, l) { Some(m) }
        else {
            let w = values_of(l);
            map_of(rms, puts(rms, m, s, r, w, w.len() as int), s, Row { long: longitude(r.long, r.step, w.len() as int), ..r }, rest)
        }
    }
}
"""


def common(f):
    f = re.sub(r"\|_\|", "|_e|", f)
    f = re.sub(r"(\w+)\.is_char_boundary\(", r"boundary(\1, ", f)
    f = re.sub(r"\bconst (\w+): &(?:'static )?str =", r"let \1: &str =", f)
    f = re.sub(r"\b(\w+) != ([A-Z_]{4,})\b", r"!same(\1, \2)", f)
    def many(m):
        return "let verif_g = parse_grid_specs(content)?;\n" + "\n".join(f"{x.strip()} = verif_g.{i};" for i, x in enumerate(m.group(1).split(",")))
    f = re.sub(r"\(([\w, ]+)\) = parse_grid_specs\(content\)\?;", many, f)
    f = re.sub(r"\blong \+= long_spacing;", "long = fadd(long, long_spacing);", f)
    f = re.sub(r"(\w+)\[(\w+)\.\.\]\.split_at", r"\1.cut_from(\2).split_at", f)
    return strs.patterns(strs.cuts(f))


def values(f):
    f, n = re.subn(r"let fields: Vec<&str> = \(0\.\.line\.len\(\)\)\s*\.step_by\((\w+)\)\s*\.map\(\|i\| \{(.*?)\}\)\s*\.collect\(\);", r"""let mut fields: Vec<&str> = Vec::new();
    let mut i: usize = 0;
    let ghost b = line.spec_bytes();
    let ghost mut k: int = 0;
    while i < line.len()
        invariant
            b == line.spec_bytes(), k >= 0, i == 5 * k, k == 0 || 5 * (k - 1) < b.len(), fields@.len() == k,
            ascii(b) ==> forall|j: int| 0 <= j < k ==> (#[trigger] fields@[j]).spec_bytes() == column(b, j) && ascii(column(b, j)),
        decreases line.len() + 5 - i,
    {
        let verif_x = {\2};
        fields.push(verif_x);
        i += \1;
        proof { k = k + 1; }
    }
    let ghost w = fields_of(b);
    proof { if ascii(b) { assert(k == w.len()); assert(texts(fields@, w)); assert forall|j: int| 0 <= j < w.len() implies ascii(#[trigger] w[j]) by { assert(fields@[j].spec_bytes() == column(b, j)); } } }""", f, flags=re.S)
    if n != 1:
        raise Lost("fields of a line")
    f, n = re.subn(r"if fields\s*\.iter\(\)\s*\.all\(\|field\| (.*?)\)\s*\{", r"""let mut verif_all = true;
    let mut verif_j: usize = 0;
    while verif_all && verif_j < fields.len()
        invariant
            verif_j <= fields@.len(), ascii(b) ==> texts(fields@, w) && forall|j: int| 0 <= j < w.len() ==> ascii(#[trigger] w[j]),
            ascii(b) && verif_all ==> forall|j: int| 0 <= j < verif_j ==> one_word(#[trigger] w[j]),
            ascii(b) && !verif_all ==> exists|j: int| 0 <= j < w.len() && !one_word(#[trigger] w[j]),
        decreases fields@.len() - verif_j + (if verif_all { 1int } else { 0 }),
    {
        let field = fields[verif_j];
        verif_all = \1;
        proof { if ascii(b) { assert(field.spec_bytes() == w[verif_j as int]); } }
        verif_j += 1;
    }
    if verif_all {""", f, flags=re.S)
    if n != 1:
        raise Lost("kind of the fields")
    f = re.sub(r"(\w+)\.contains\(char::is_whitespace\)", r"has_white(\1)", f)
    f = re.sub(r"(\w+)\.split_ascii_whitespace\(\)\.collect\(\)", r"all_words(\1)", f)
    f = re.sub(r"(\w+)\.is_empty\(\)", r"is_empty_str(\1)", f)
    f = re.sub(r"std::cmp::min\(", "min_usize(", f)
    f = re.sub(r"(\w+)\.get\((.+?)\.\.(.+?)\)\.unwrap_or_default\(\)", r"or_empty(\1.get_cut(\2, \3))", f)
    return "#[verifier::loop_isolation(false)]\n" + splice(f, "map_values", "    ensures ascii(line.spec_bytes()) ==> texts(r@, values_of(line.spec_bytes())),", ret="r")


def maps(f, name, rms):
    R = "true" if rms else "false"
    zero = "Row { lat: fixed_lat, long, step: long_spacing, alt: fixed_alt }"
    f, n = re.subn(r"for line in lines \{", f"""let mut lines = lines;
    let ghost sc = Scales {{ lat: lat_exponent, long: long_exponent, alt: alt_exponent, tec: tec_exponent, epoch }};
    let ghost ok = ascii(content.spec_bytes());
    let ghost want = map_of({R}, record@, sc, {zero}, lines@);
    while let Some(line) = lines.next()
        invariant
            ok ==> map_of({R}, record@, sc, {zero}, lines@) == want && forall|i: int| 0 <= i < lines@.len() ==> ascii(#[trigger] lines@[i]),
        decreases lines@.len(),
    {{""", f)
    if n != 1:
        raise Lost("loop over the lines")
    f, n = re.subn(r"for item in map_values\((\w+)\) \{", rf"""let verif_v = map_values(\1);
        let mut verif_i: usize = 0;
        let ghost row = {zero};
        let ghost m0 = record@;
        let ghost w = values_of(\1.spec_bytes());
        while verif_i < verif_v.len()
            invariant
                verif_i <= verif_v@.len(),
                ok ==> {{
                    &&& texts(verif_v@, w)
                    &&& row.lat == fixed_lat && row.step == long_spacing && row.alt == fixed_alt && long == longitude(row.long, row.step, verif_i as int)
                    &&& record@ == puts({R}, m0, sc, row, w, verif_i as int)
                }},
            decreases verif_v@.len() - verif_i,
        {{
            let item: &str = verif_v[verif_i];
            verif_i += 1;
            proof {{ if ok {{ assert(item.spec_bytes() == w[verif_i - 1]); }} }}""", f)
    if n != 1:
        raise Lost("loop over the values")
    return "#[verifier::loop_isolation(false)]\n" + splice(f, name, f"""    ensures ascii(content.spec_bytes()) ==> ({{
        let sc = Scales {{ lat: lat_exponent, long: long_exponent, alt: alt_exponent, tec: tec_exponent, epoch }};
        let want = map_of({R}, old(record)@, sc, Row {{ lat: 0.0, long: 0.0, step: 0.0, alt: 0.0 }}, lines_of(content.spec_bytes()));
        &&& r is Ok <==> want is Some
        &&& r is Ok ==> want == Some(final(record)@)
    }}),""", ret="r")


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    s = re.sub(r"^\s*//[^\n]*\n", "\n", s, flags=re.M)
    def get(name):
        a, b, e = find_fn(s, name)
        return common(s[a:e])
    g = splice(get("parse_grid_specs"), "parse_grid_specs", """    ensures match grid(line.spec_bytes()) {
        Some(g) => r is Ok && r->Ok_0 == (g.lat, g.long, g.step, g.alt),
        None => r is Err,
    },""", ret="r")
    v = values(get("map_values"))
    t, m = maps(get("parse_tec_map"), "parse_tec_map", False), maps(get("parse_rms_map"), "parse_rms_map", True)
    return strs.PRELUDE + strs.enum(g + t + m, "ParsingError") + MODEL + g + "\n" + v + "\n" + t + "\n" + m + "\n" + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
