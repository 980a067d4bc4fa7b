"""Header::parse (src/header/parsing.rs): the blocks of the common fields of a
header, each one as a function of its own, and the setters they use
(src/hardware.rs)."""
import re
from extract import *
import strs

FILE = "src/header/parsing.rs"
DROPS = [
    strs.PATTERN_DROP, strs.MATCH_DROP, strs.METHOD_DROP, strs.COLUMNS_DROP,
    "Header::parse: the block of each label under contract -> a function of the text of the block, from the variables that the block assigns to the same variables; a `continue` of the loop over the lines -> a return; which block a label selects is left to the native search",
    "`x.split_ascii_whitespace().collect()` -> `word_list(x)`; `f64::from_str(x)` -> `x.parse::<f64>()`; `.or(Err(x))` -> `.map_err(|_e| x)`; `text.eq(\"..\")`, `text == \"..\"` -> `same(text, \"..\")`; `String::from(\"..\")` -> `string_of(\"..\")`; `text.len() > 0` -> `!is_empty_str(text)`",
    "`for _ in 0..n.min(9)` -> a loop with a counter",
]
TRUSTED = strs.TRUSTED + [
    "str::char_indices: the n-th character of an ASCII text is its n-th byte", "Clone and Default of Antenna (derived)",
    "HashMap::insert of the slots", "f64, Version, Type, Constellation, SV, ClockProfileType, Leap::from_str are functions of the text",
]
CANARIES = ["canary"]

MODEL = r"""
#[derive(Clone, Copy)]
pub enum Constellation { GPS, Glonass, BeiDou, QZSS, Galileo, IRNSS, SBAS, Mixed, Other(u8) }
#[derive(Clone, Copy)]
pub struct SV { p: u8 }
#[derive(Clone, Copy)]
pub struct Leap { l: u8 }
#[derive(Clone, Copy)]
pub struct ClockProfileType { l: u8 }
pub struct ClockHeader { pub codes: Vec<ClockProfileType> }
/// behind HashMap<SV, i8>
#[verifier::external_body]
pub struct Slots { c: u8 }
impl View for Slots { type V = Map<SV, i8>; uninterp spec fn view(&self) -> Map<SV, i8>; }
impl Slots {
    #[verifier::external_body]
    pub fn insert(&mut self, k: SV, v: i8) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn word_list<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == words_of(s.spec_bytes()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).spec_bytes() == words_of(s.spec_bytes())[i] && (ascii(s.spec_bytes()) ==> ascii(r@[i].spec_bytes()) && trim(r@[i].spec_bytes()) == r@[i].spec_bytes())
{ unimplemented!() }
pub open spec fn bytes(s: String) -> Seq<u8> { encode_utf8(s@) }
pub open spec fn text(s: Option<String>) -> Option<Seq<u8>> { match s { Some(t) => Some(bytes(t)), None => None } }
/// the field holds the text, unless it is blank
pub open spec fn or_text(b: Seq<u8>, old: Option<String>) -> Option<Seq<u8>> { if b.len() > 0 { Some(b) } else { text(old) } }
/// an omitted name
pub open spec fn or_unknown(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 { b } else { "Unknown".spec_bytes() } }
/// the slots of a line: three columns of a vehicle, four of its channel
pub open spec fn slots_of(m: Map<SV, i8>, b: Seq<u8>) -> Map<SV, i8> decreases b.len() {
    if trim(b).len() == 0 || b.len() == 0 { m } else {
        let rest = from(b, 7);
        match (parsed::<SV>(cols(b, 0, 3)), parsed::<i8>(trim(cols(b, 3, 7)))) {
            (Some(sv), Some(n)) => slots_of(m.insert(sv, n), rest),
            _ => slots_of(m, rest),
        }
    }
}
/// the types of n fields of six columns
pub open spec fn types_of(c: Seq<ClockProfileType>, b: Seq<u8>, n: int) -> Seq<ClockProfileType> decreases n {
    if n <= 0 { c } else {
        match parsed::<ClockProfileType>(trim(cols(b, 6 * n, 6 * n + 6))) { Some(t) => types_of(c, b, n - 1).push(t), None => types_of(c, b, n - 1) }
    }
}
pub open spec fn number(b: Seq<u8>) -> Option<f64> { parsed::<f64>(b) }
pub trait VMin { fn vmin(self, b: u8) -> u8; }
impl VMin for u8 { fn vmin(self, b: u8) -> (r: u8) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }
impl Antenna {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Antenna) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Antenna)
        ensures r.model@.len() == 0, r.sn@.len() == 0, r.coords is None, r.height is None, r.eastern is None, r.northern is None
    { unimplemented!() }
}
impl Receiver {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Receiver) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn antenna_or_default(a: Option<Antenna>) -> (r: Antenna)
    ensures a is Some ==> r == a.unwrap(), a is None ==> r.coords is None && r.height is None && r.eastern is None && r.northern is None
{ unimplemented!() }
pub open spec fn coords(a: Option<Antenna>) -> Option<(f64, f64, f64)> { match a { Some(a) => a.coords, None => None } }
pub open spec fn height(a: Option<Antenna>) -> Option<f64> { match a { Some(a) => a.height, None => None } }
pub open spec fn eastern(a: Option<Antenna>) -> Option<f64> { match a { Some(a) => a.eastern, None => None } }
pub open spec fn northern(a: Option<Antenna>) -> Option<f64> { match a { Some(a) => a.northern, None => None } }
pub open spec fn model(a: Option<Antenna>) -> Seq<u8> { match a { Some(a) => bytes(a.model), None => Seq::empty() } }
pub open spec fn sn(a: Option<Antenna>) -> Seq<u8> { match a { Some(a) => bytes(a.sn), None => Seq::empty() } }
"""

# setters of src/hardware.rs: the field that they set
SETTERS = {
    "with_model": "bytes(r.model) == m.spec_bytes() && r == (Antenna { model: r.model, ..*self })",
    "with_serial_number": "bytes(r.sn) == sn.spec_bytes() && r == (Antenna { sn: r.sn, ..*self })",
    "with_base_coordinates": "r == (Antenna { coords: Some(coords), ..*self })",
    "with_height": "r == (Antenna { height: Some(h), ..*self })",
    "with_eastern_component": "r == (Antenna { eastern: Some(e), ..*self })",
    "with_northern_component": "r == (Antenna { northern: Some(n), ..*self })",
}

L, C = "l: &str", "content: &str"
# label: (name, text of the line, variables, contract over the text b, the
# variables before (v0) and after (v))
S = "Option<String>"
BLOCKS = [
    ("PGM / RUN BY / DATE", "program", "line", {"program": S, "run_by": S, "date": S}, """
        r is Ok, text(r->Ok_0.0) == or_text(trim(cols(b, 0, 20)), program0), text(r->Ok_0.1) == or_text(trim(cols(b, 20, 40)), run_by0), text(r->Ok_0.2) == or_text(trim(cols(b, 40, 60)), date0)"""),
    ("OBSERVER / AGENCY", "observer", "content", {"observer": S, "agency": S}, """
        r is Ok, text(r->Ok_0.0) == or_text(trim(cols(b, 0, 20)), observer0), text(r->Ok_0.1) == or_text(trim(from(b, 20)), agency0)"""),
    ("DOI", "doi", "content", {"doi": S}, "r is Ok, text(r->Ok_0.0) == or_text(trim(b), doi0)"),
    ("STATION INFORMATION", "station", "content", {"station_url": S}, "r is Ok, text(r->Ok_0.0) == or_text(trim(b), station_url0)"),
    ("LICENSE OF USE", "license", "content", {"license": S}, "r is Ok, text(r->Ok_0.0) == or_text(trim(b), license0)"),
    ("LEAP SECOND", "leap", "content", {"leap": "Option<Leap>"}, """
        r is Ok <==> parsed::<Leap>(trim(cols(b, 0, 40))) is Some, r is Ok ==> r->Ok_0.0 == parsed::<Leap>(trim(cols(b, 0, 40)))"""),
    ("GLONASS SLOT / FRQ #", "slots", "content", {"glo_channels": "Slots"}, "r is Ok, r->Ok_0.0@ == slots_of(glo_channels0@, from(b, 4))"),
    ("# / TYPES OF DATA", "types", "content", {"clock": "ClockHeader"}, """
        r is Ok <==> parsed::<u8>(trim(cols(b, 0, 6))) is Some,
        r is Ok ==> r->Ok_0.0.codes@ == types_of(clock0.codes@, b, min(parsed::<u8>(trim(cols(b, 0, 6))).unwrap() as int, 9))"""),
    ("ANT # / TYPE", "antenna", "content", {"rcvr_antenna": "Option<Antenna>"}, """
        r is Ok, r->Ok_0.0 is Some, sn(r->Ok_0.0) == trim(cols(b, 0, 20)), model(r->Ok_0.0) == trim(cols(b, 20, 40)),
        coords(r->Ok_0.0) == coords(rcvr_antenna0), height(r->Ok_0.0) == height(rcvr_antenna0), eastern(r->Ok_0.0) == eastern(rcvr_antenna0), northern(r->Ok_0.0) == northern(rcvr_antenna0)"""),
    ("ANTENNA: DELTA X/Y/Z", "delta_xyz", "content", {"rcvr_antenna": "Option<Antenna>"}, """
        r is Ok <==> { let w = words_of(b); w.len() > 2 && number(w[0]) is Some && number(w[1]) is Some && number(w[2]) is Some },
        r is Ok ==> {
            let w = words_of(b);
            &&& coords(r->Ok_0.0) == Some((number(w[0]).unwrap(), number(w[1]).unwrap(), number(w[2]).unwrap()))
            &&& height(r->Ok_0.0) == height(rcvr_antenna0) && eastern(r->Ok_0.0) == eastern(rcvr_antenna0) && northern(r->Ok_0.0) == northern(rcvr_antenna0)
            &&& rcvr_antenna0 is Some ==> model(r->Ok_0.0) == model(rcvr_antenna0) && sn(r->Ok_0.0) == sn(rcvr_antenna0)
        }"""),
    ("ANTENNA: DELTA H/E/N", "delta_hen", "content", {"rcvr_antenna": "Option<Antenna>"}, """
        r is Ok,
        ({
            let (h, e, n) = (number(trim(cols(b, 0, 14))), number(trim(cols(b, 14, 28))), number(trim(cols(b, 28, 42))));
            if h is Some && e is Some && n is Some {
                &&& height(r->Ok_0.0) == h && eastern(r->Ok_0.0) == e && northern(r->Ok_0.0) == n
                &&& coords(r->Ok_0.0) == coords(rcvr_antenna0)
                &&& rcvr_antenna0 is Some ==> model(r->Ok_0.0) == model(rcvr_antenna0) && sn(r->Ok_0.0) == sn(rcvr_antenna0)
            } else { r->Ok_0.0 == rcvr_antenna0 }
        })"""),
    ("APPROX POSITION XYZ", "position", "content", {"rx_position": "Option<(f64, f64, f64)>"}, """
        r is Ok,
        ({
            let w = words_of(b);
            &&& tidy(b) && w.len() > 2 && number(w[0]) is Some && number(w[1]) is Some && number(w[2]) is Some ==> r->Ok_0.0 == Some((number(w[0]).unwrap(), number(w[1]).unwrap(), number(w[2]).unwrap()))
            &&& tidy(b) && (w.len() < 3 || number(w[2]) is None) ==> r->Ok_0.0 == rx_position0
        })"""),
] + [(f"SYS / {x}S APPLIED", f"{x.lower()}s", "content", {v: f"Vec<{t}>"}, f"""
        r is Ok <==> trim(cols(b, 0, 2)).len() == 0 || parsed::<Constellation>(trim(cols(b, 0, 2))) is Some,
        r is Ok && trim(cols(b, 0, 2)).len() == 0 ==> r->Ok_0.0@ == {v}0@,
        r is Ok && trim(cols(b, 0, 2)).len() > 0 ==> {{
            &&& r->Ok_0.0@.len() == {v}0@.len() + 1 && r->Ok_0.0@.drop_last() == {v}0@
            &&& Some(r->Ok_0.0@.last().constellation) == parsed::<Constellation>(trim(cols(b, 0, 2)))
            &&& bytes(r->Ok_0.0@.last().program) == or_unknown(trim(cols(b, 2, 20)))
            &&& bytes(r->Ok_0.0@.last().url) == or_unknown(trim(cols(b, 20, 60)))
        }}""") for x, v, t in (("PCV", "pcv_compensations", "PcvCompensation"), ("DCB", "dcb_compensations", "DcbCompensation"))]
CONTRACTS = [f"Header::parse [{b[0]}]" for b in BLOCKS] + ["Receiver::from_str"] + ["Antenna::" + x for x in SETTERS]


def common(f):
    f = re.sub(r"\.or\(Err\(([\w:]+)\)\)", r".map_err(|_e| \1)", f)
    f = re.sub(r"let (\w+): Vec<&str> = (\w+)\.split_ascii_whitespace\(\)\s*\.collect\(\)", r"let \1 = word_list(\2)", f)
    f = re.sub(r"let (\w+) = (\w+)\.split_ascii_whitespace\(\)\s*\.collect::<Vec<(?:_|&str)>>\(\)", r"let \1 = word_list(\2)", f)
    f = re.sub(r"\bf64::from_str\((\w+(?:\.trim\(\))?)\)", r"\1.parse::<f64>()", f)
    f = re.sub(r"String::from\((\"[^\"]*\")\)", r"string_of(\1)", f)
    f = re.sub(r"\b(\w+)\.eq\(\"\"\)", r"is_empty_str(\1)", f)
    f = re.sub(r"\b(\w+)\.eq\((\"[^\"]*\")\)", r"same(\1, \2)", f)
    f = re.sub(r"\b(\w+) == (\"[^\"]*\")", r"same(\1, \2)", f)
    f = re.sub(r"\b(\w+(?:\.trim\(\))?)\.is_empty\(\)", r"is_empty_str(\1)", f)
    f = re.sub(r"\b(pgm|runby|date_str|obs|ag|content|url|lic|\w+)\.len\(\) > 0", r"(!is_empty_str(\1))", f)
    return strs.match_text(strs.patterns(f))


def block(s, label):
    m = re.search(r'if marker\s*\.contains\("%s"\)\s*\{' % re.escape(label), s)
    if not m:
        raise Lost(f"block of {label}")
    i = m.end() - 1
    return s[i + 1:match_brace(s, i) - 1]


def ghost(name, f):
    """loop invariants of the blocks with a loop"""
    if name == "slots":
        f, n = re.subn(r"while (all_ascii\((\w+)\) && [^{]*)\{", r"""let ghost all = \2.spec_bytes();
        while \1
            invariant
                ascii(content.spec_bytes()) ==> ascii(\2.spec_bytes()) && slots_of(glo_channels0@, all) == slots_of(glo_channels@, \2.spec_bytes()),
            ensures
                ascii(content.spec_bytes()) ==> glo_channels@ == slots_of(glo_channels0@, all),
            decreases \2.spec_bytes().len(),
        {""", f)
        if n != 1:
            raise Lost("loop over the slots")
    if name == "types":
        f, n = re.subn(r"for _ in 0\.\.(\w+)\.min\((\w+)\) \{", r"""let mut verif_i: u8 = 0;
        let verif_n = \1.vmin(\2);
        while verif_i < verif_n
            invariant
                verif_i <= verif_n <= 9,
                ascii(content.spec_bytes()) ==> rem.spec_bytes() == from(content.spec_bytes(), 6 + 6 * verif_i) && ascii(rem.spec_bytes()),
                ascii(content.spec_bytes()) ==> clock.codes@ == types_of(clock0.codes@, content.spec_bytes(), verif_i as int),
            decreases verif_n - verif_i,
        {
            verif_i += 1;""", f)
        if n != 1:
            raise Lost("loop over the types")
    if name == "position":
        f = strs.words_loop(f, "w", """tidy(content.spec_bytes()) && w.len() > 2 && number(w[0]) is Some && number(w[1]) is Some && number(w[2]) is Some ==> {
                &&& verif_n > 0 ==> x_ecef_m == number(w[0]).unwrap()
                &&& verif_n > 1 ==> y_ecef_m == number(w[1]).unwrap()
                &&& verif_n > 2 ==> z_ecef_m == number(w[2]).unwrap()
            },
            tidy(content.spec_bytes()) ==> (num_items == 3 <==> verif_n > 2 && number(w[2]) is Some),""")
    return f


def unit(repo):
    s = open(f"{repo}/{FILE}").read()
    h = open(f"{repo}/src/hardware.rs").read()
    m = strip_tests(open(f"{repo}/src/header/mod.rs").read())
    out = "".join(strs.plain(h, rf"pub struct {t}\b") for t in ("Receiver", "Antenna"))
    out += "".join(strs.plain(m, rf"pub struct {t}\b") for t in ("PcvCompensation", "DcbCompensation"))
    im = find_item(h, r"impl Antenna\b")
    out += "impl Antenna {\n"
    for name, e in SETTERS.items():
        a, b, x = find_fn(im, name)
        f = common(im[a:x])
        out += splice(f, name, f"    ensures {e},", ret="r") + "\n"
    out += "}\n"
    f = strs.opaque_columns(common(strs.method(h, r"impl (?:[\w:]*::)?FromStr for Receiver\b", "from_str", "Receiver").replace("std::io::Error", "ParsingError")))
    out += "impl Receiver {\n" + splice(f, "from_str", """    ensures ascii(line.spec_bytes()) ==> {
        let b = line.spec_bytes();
        &&& r is Ok && bytes(r->Ok_0.sn) == trim(cols(b, 0, 20)) && bytes(r->Ok_0.model) == trim(cols(b, 20, 40)) && bytes(r->Ok_0.firmware) == trim(cols(b, 40, 60))
    },""", ret="r") + "\n}\n"
    errors = ""
    for label, name, line, vs, contract in BLOCKS:
        f = common(block(s, label))
        f = re.sub(r"(\w+)\s*\.unwrap_or_default\(\)", r"antenna_or_default(\1)", f) if name == "antenna" else f
        back = "Ok((" + ", ".join(vs) + ",))"
        f = ghost(name, re.sub(r"\bcontinue\b", f"return {back}", f))
        errors += f
        contract = contract.replace("b, ", "b, ")
        out += f"""
fn block_{name}({line}: &str, {', '.join(f'{v}0: {t}' for v, t in vs.items())}) -> (r: Result<({', '.join(vs.values())},), ParsingError>)
    ensures ascii({line}.spec_bytes()) ==> ({{ let b = {line}.spec_bytes(); {' && '.join('(' + c + ')' for c in clauses(contract))} }}),
{{
    hide(cols); hide(from);
    {' '.join(f'let mut {v} = {v}0;' for v in vs)}
    {f}
    {back}
}}
"""
    types = ["SV", "Leap", "Constellation", "ClockProfileType"]
    return (strs.prelude_columns() + strs.enum(errors, "ParsingError") + strs.columns(repo) + MODEL + "".join(strs.fromstr(t, "ParsingError") for t in types)
            + out + strs.CANARY + "fn main() {}\n}\n")


def clauses(c):
    """the clauses of a contract: split at the commas of depth 0"""
    r, d, a = [], 0, 0
    for i, x in enumerate(c):
        d += (x in "([{") - (x in ")]}")
        if x == "," and d == 0 and c[i + 1] in " \n":
            r.append(c[a:i].strip())
            a = i + 1
    return r + [c[a:].strip()]


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
