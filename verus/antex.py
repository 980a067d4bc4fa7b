"""parse_antenna, parse_phase_pattern, parse_sv (src/antex/record.rs): the
columns of every line of an antenna block, and what they set."""
import re
from extract import *
import strs

FILE = "src/antex/record.rs"
DROPS = [
    strs.DROP, strs.PATTERN_DROP, strs.METHOD_DROP, strs.COLUMNS_DROP,
    "attributes, derives and comments of the types; HashMap<Carrier, FrequencyDependentData> -> an opaque map with `insert`",
    "`for line in lines` -> `while let`; the lines are an opaque sequence of texts; `text.eq(\"..\")` -> `same(text, \"..\")`; the trailing comments of the loop",
    "`marker.contains(\"LABEL\")` -> `has_LABEL(marker)`, an abstract predicate of the text, one for each text of a label; each branch of the chain of labels -> a function of the variables of the loop that returns them (the same text)",
]
TRUSTED = strs.TRUSTED + ["Clone and Default of the types (derived)", "parse_cospar, parse_datetime, CalibrationMethod::from_str, SV::from_str, parse_epoch_in_timescale, Carrier::from_sv: functions of their argument (P09, P13, P02; native search of P17)", "str::char_indices: the n-th character of an ASCII text is its n-th byte"]
CANARIES = ["canary"]
SETTERS = {
    "with_validity_period": "r == (Antenna { calibration: Calibration { validity_period: Some((start, end)), ..self.calibration }, ..*self })",
    "with_dazi": "r == (Antenna { azi_inc: dazi, ..*self })",
    "with_specificities": "r == (Antenna { specific: specs, ..*self })",
}
CONTRACTS = ["parse_antenna", "parse_phase_pattern", "parse_sv", "parse_validity_epoch"] + ["Antenna::" + x for x in SETTERS]

def clone(t):
    return f"""impl {t} {{
    #[verifier::external_body]
    pub fn clone(&self) -> (r: {t}) ensures r == *self {{ unimplemented!() }}
}}
"""

def default(t):
    return f"""pub uninterp spec fn default_{t}() -> {t};
impl {t} {{
    #[verifier::external_body]
    pub fn default() -> (r: {t}) ensures r == default_{t}() {{ unimplemented!() }}
}}
"""

MODEL = r"""
#[derive(Clone, Copy)]
pub struct SV { p: u8 }
#[derive(Clone, Copy)]
pub struct COSPAR { p: u8 }
#[derive(Clone, Copy)]
pub struct Carrier { p: u8 }
#[derive(Clone, Copy)]
pub struct Epoch { p: u64 }
#[derive(Clone, Copy)]
pub enum TimeScale { GPST, UTC, TAI, GST, BDT, Other }
#[derive(Clone, Copy)]
pub struct CalibrationMethod { p: u8 }
pub uninterp spec fn carrier_of(sv: SV) -> Option<Carrier>;
impl Carrier {
    #[verifier::external_body]
    pub fn from_sv(sv: SV) -> (r: Result<Carrier, ParsingError>)
        ensures match r { Ok(v) => carrier_of(sv) == Some(v), Err(_) => carrier_of(sv) is None }
    { unimplemented!() }
}
pub uninterp spec fn cospar(b: Seq<u8>) -> Option<COSPAR>;
#[verifier::external_body]
pub fn parse_cospar(s: &str) -> (r: Result<COSPAR, ParsingError>)
    ensures match r { Ok(v) => cospar(s.spec_bytes()) == Some(v), Err(_) => cospar(s.spec_bytes()) is None }
{ unimplemented!() }
pub uninterp spec fn day(b: Seq<u8>) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_datetime(s: &str) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(v) => day(s.spec_bytes()) == Some(v), Err(_) => day(s.spec_bytes()) is None }
{ unimplemented!() }
pub uninterp spec fn date(b: Seq<u8>, ts: TimeScale) -> Option<Epoch>;
#[verifier::external_body]
pub fn parse_epoch_in_timescale(s: &str, ts: TimeScale) -> (r: Result<Epoch, ParsingError>)
    ensures match r { Ok(v) => date(s.spec_bytes(), ts) == Some(v), Err(_) => date(s.spec_bytes(), ts) is None }
{ unimplemented!() }
/// HashMap<Carrier, FrequencyDependentData>
#[verifier::external_body]
pub struct Inner { p: u8 }
impl View for Inner { type V = Map<Carrier, Freq>; uninterp spec fn view(&self) -> Map<Carrier, Freq>; }
impl Inner {
    #[verifier::external_body]
    pub fn new() -> (r: Inner) ensures r@ == Map::<Carrier, Freq>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Carrier, v: FrequencyDependentData) ensures final(self)@ == old(self)@.insert(k, freq(v)) { unimplemented!() }
}
pub struct Freq { pub neu: (f64, f64, f64), pub pattern: Seq<f64> }
pub open spec fn freq(d: FrequencyDependentData) -> Freq { Freq { neu: d.apc_eccentricity, pattern: d.phase_pattern->0@ } }
pub open spec fn bytes(s: String) -> Seq<u8> { encode_utf8(s@) }

/// what kind of antenna: its type, then a satellite or a receiver antenna
pub enum Kind { Sv(Seq<u8>, SV, COSPAR), Rx(Seq<u8>, Option<Seq<u8>>) }
pub open spec fn kind(s: AntennaSpecific) -> Kind {
    match s {
        AntennaSpecific::SvAntenna(a) => Kind::Sv(bytes(a.igs_type), a.sv, a.cospar),
        AntennaSpecific::RxAntenna(a) => Kind::Rx(bytes(a.igs_type), match a.serial_number { Some(n) => Some(bytes(n)), None => None }),
    }
}
pub struct Antex {
    pub kind: Kind, pub method: CalibrationMethod, pub agency: Seq<u8>, pub number: u16, pub date: Epoch, pub valid: Option<(Epoch, Epoch)>,
    pub zenith: Linspace, pub azimuth: f64, pub sinex: Seq<u8>,
}
pub open spec fn view(a: Antenna) -> Antex {
    Antex {
        kind: kind(a.specific), method: a.calibration.method, agency: bytes(a.calibration.agency), number: a.calibration.number, date: a.calibration.date,
        valid: a.calibration.validity_period, zenith: a.zenith_grid, azimuth: a.azi_inc, sinex: bytes(a.sinex_code),
    }
}
pub struct State { pub a: Antex, pub inner: Map<Carrier, Freq>, pub frequency: Carrier, pub data: Freq, pub from: Epoch }
/// the vehicle of a text
pub open spec fn vehicle(b: Seq<u8>) -> Option<SV> { if b.len() == 0 || !ascii(b) { None } else { parsed::<SV>(b) } }
pub open spec fn num(b: Seq<u8>) -> Option<f64> { parsed::<f64>(trim(b)) }
/// a phase pattern: eight columns per value
pub open spec fn pattern(p: Seq<f64>, b: Seq<u8>) -> Option<Seq<f64>> decreases b.len() {
    if b.len() == 0 { Some(p) } else { match num(cols(b, 0, 8)) { None => None, Some(v) => pattern(p.push(v), from(b, 8)) } }
}
/// type: 20 columns, the radome of a receiver antenna (4 columns) apart; serial number or vehicle: 20 columns; 10 columns; COSPAR number: 10 columns
pub open spec fn kind_of(l: Seq<u8>) -> Option<Kind> {
    let id = trim(cols(l, 20, 40));
    if trim(cols(l, 40, 50)).len() == 0 && trim(cols(l, 50, 60)).len() == 0 {
        Some(Kind::Rx(trim(cols(l, 0, 16)), if id.len() > 0 && id != "NONE".spec_bytes() { Some(id) } else { None }))
    } else {
        match (vehicle(id), cospar(trim(cols(l, 50, 60)))) { (Some(sv), Some(c)) => Some(Kind::Sv(trim(cols(l, 0, 20)), sv, c)), _ => None }
    }
}
pub enum Label { Type, Method, From, Until, Sinex, Dazi, Count, Start, Neu, Zenith, End, EndAntenna, None }
pub open spec fn label(l: Seq<u8>) -> Label {
    if is_TYPE_SERIAL_NO(from(l, 60)) { Label::Type }
    else if is_METH_BY_DATE(from(l, 60)) { Label::Method }
    else if is_VALID_FROM(from(l, 60)) { Label::From }
    else if is_VALID_UNTIL(from(l, 60)) { Label::Until }
    else if is_SINEX_CODE(from(l, 60)) { Label::Sinex }
    else if is_DAZI(from(l, 60)) { Label::Dazi }
    else if is_OF_FREQUENCIES(from(l, 60)) { Label::Count }
    else if is_START_OF_FREQUENCY(from(l, 60)) { Label::Start }
    else if is_NORTH_EAST_UP(from(l, 60)) { Label::Neu }
    else if is_ZEN1_ZEN2_DZEN(from(l, 60)) { Label::Zenith }
    else if is_END_OF_FREQUENCY(from(l, 60)) { Label::End }
    else if is_END_OF_ANTENNA(from(l, 60)) { Label::EndAntenna }
    else { Label::None }
}
/// what the lines of each label set; None: a damaged line
pub open spec fn on_TYPE_SERIAL_NO(s: State, l: Seq<u8>) -> Option<State> {
    match kind_of(l) { Some(kind) => Some(State { a: Antex { kind, ..s.a }, ..s }), None => None }
}
pub open spec fn on_METH_BY_DATE(s: State, l: Seq<u8>) -> Option<State> {
    match (parsed::<CalibrationMethod>(trim(cols(l, 0, 20))), parsed::<u16>(trim(cols(l, 40, 50))), day(trim(cols(l, 50, 60)))) {
            (Some(method), Some(number), Some(date)) => Some(State { a: Antex { method, agency: trim(cols(l, 20, 40)), number, date, valid: None, ..s.a }, ..s }),
            _ => None,
        }
}
pub open spec fn on_VALID_FROM(s: State, l: Seq<u8>) -> Option<State> {
    match date(trim(cols(l, 0, 60)), TimeScale::GPST) { Some(from) => Some(State { from, ..s }), None => None }
}
pub open spec fn on_VALID_UNTIL(s: State, l: Seq<u8>) -> Option<State> {
    match date(trim(cols(l, 0, 60)), TimeScale::GPST) { Some(until) => Some(State { a: Antex { valid: Some((s.from, until)), ..s.a }, ..s }), None => None }
}
pub open spec fn on_SINEX_CODE(s: State, l: Seq<u8>) -> Option<State> {
    Some(State { a: Antex { sinex: trim(cols(l, 0, 20)), ..s.a }, ..s })
}
pub open spec fn on_DAZI(s: State, l: Seq<u8>) -> Option<State> {
    Some(match num(cols(l, 0, 8)) { Some(azimuth) => State { a: Antex { azimuth, ..s.a }, ..s }, None => s })
}
pub open spec fn on_START_OF_FREQUENCY(s: State, l: Seq<u8>) -> Option<State> {
    match vehicle(trim(cols(l, 0, 10))) {
            Some(sv) => match carrier_of(sv) { Some(frequency) => Some(State { frequency, data: freq(default_FrequencyDependentData()), ..s }), None => None },
            None => None,
        }
}
pub open spec fn on_NORTH_EAST_UP(s: State, l: Seq<u8>) -> Option<State> {
    match (num(cols(l, 0, 10)), num(cols(l, 10, 20)), num(cols(l, 20, 30))) {
            (Some(n), Some(e), Some(u)) => Some(State { data: Freq { neu: (n, e, u), ..s.data }, ..s }),
            _ => None,
        }
}
pub open spec fn on_ZEN1_ZEN2_DZEN(s: State, l: Seq<u8>) -> Option<State> {
    match (num(cols(l, 0, 8)), num(cols(l, 8, 14)), num(cols(l, 14, 20))) {
            (Some(start), Some(end), Some(spacing)) => Some(State { a: Antex { zenith: Linspace { start, end, spacing }, ..s.a }, ..s }),
            _ => None,
        }
}
pub open spec fn on_END_OF_FREQUENCY(s: State, l: Seq<u8>) -> Option<State> {
    Some(State { inner: s.inner.insert(s.frequency, s.data), ..s })
}
pub open spec fn on_other(s: State, l: Seq<u8>) -> Option<State> {
    if trim(cols(l, 0, 8)) == "NOAZI".spec_bytes() {
            match pattern(Seq::empty(), rtrim(from(l, 8))) { Some(pattern) => Some(State { data: Freq { pattern, ..s.data }, ..s }), None => None }
        } else { Some(s) }
}
pub open spec fn on_OF_FREQUENCIES(s: State, l: Seq<u8>) -> Option<State> {
    Some(s)
}
pub open spec fn step(s: State, l: Seq<u8>) -> Option<State> {
    match label(l) {
        Label::Type => on_TYPE_SERIAL_NO(s, l),
        Label::Method => on_METH_BY_DATE(s, l),
        Label::From => on_VALID_FROM(s, l),
        Label::Until => on_VALID_UNTIL(s, l),
        Label::Sinex => on_SINEX_CODE(s, l),
        Label::Dazi => on_DAZI(s, l),
        Label::Start => on_START_OF_FREQUENCY(s, l),
        Label::Neu => on_NORTH_EAST_UP(s, l),
        Label::Zenith => on_ZEN1_ZEN2_DZEN(s, l),
        Label::End => on_END_OF_FREQUENCY(s, l),
        Label::None => on_other(s, l),
        Label::Count => on_OF_FREQUENCIES(s, l),
        _ => Some(s),
    }
}
/// the lines of a block, up to its end
pub open spec fn block(s: State, ls: Seq<Seq<u8>>) -> Option<State> decreases ls.len() {
    if ls.len() == 0 || label(ls[0]) == Label::EndAntenna { Some(s) } else {
        match step(s, ls[0]) { Some(t) => block(t, ls.subrange(1, ls.len() as int)), None => None }
    }
}
pub open spec fn empty() -> State { State { a: view(default_Antenna()), inner: Map::empty(), frequency: default_Carrier(), data: freq(default_FrequencyDependentData()), from: default_Epoch() } }
pub open spec fn state(a: Antenna, inner: Inner, frequency: Carrier, d: FrequencyDependentData, from: Epoch) -> State { State { a: view(a), inner: inner@, frequency, data: freq(d), from } }
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    types = "".join(strs.plain(s, r"pub (?:enum|struct) %s\b" % t) for t in ("AntennaPhasePattern", "FrequencyDependentData"))
    m = strip_tests(open(f"{repo}/src/antex/antenna/mod.rs").read())
    types += "".join(strs.plain(m, r"pub (?:enum|struct) %s\b" % t) for t in ("Calibration", "Antenna", "AntennaSpecific", "RxAntenna")).replace("sv::", "")
    types += strs.plain(open(f"{repo}/src/antex/antenna/sv.rs").read(), r"pub struct SvAntenna\b")
    types += "#[derive(Clone, Copy)]\n" + strs.plain(strip_tests(open(f"{repo}/src/linspace.rs").read()), r"pub struct Linspace\b")
    setters = ""
    im = find_item(m, r"impl Antenna\b")
    for name, c in SETTERS.items():
        a, b, e = find_fn(im, name)
        setters += splice(im[a:e], name, f"    ensures {c},", ret="r") + "\n"
    setters = f"impl Antenna {{\n{setters}}}\n"
    s = re.sub(r"^\s*//[^\n]*\n", "\n", s, flags=re.M)
    def get(name):
        a, b, e = find_fn(s, name)
        f = re.sub(r"\|_\|", "|_e|", s[a:e])
        f = re.sub(r"\b(\w+(?:\.trim\(\))?)\.eq\((\"[^\"]*\")\)", r"same(\1, \2)", f)
        f = re.sub(r"\b(\w+)\.is_empty\(\)", r"is_empty_str(\1)", f)
        f = re.sub(r"\b(\w+\.split_columns\(\d+\)\.0\.trim\(\))\.to_string\(\)", r"string_of(\1)", f)
        f = f.replace("HashMap<Carrier, FrequencyDependentData>", "Inner").replace("HashMap::<Carrier, FrequencyDependentData>", "Inner")
        return strs.patterns(strs.cuts(f))
    v = splice(get("parse_sv"), "parse_sv", """    ensures match r { Ok(v) => vehicle(content.spec_bytes()) == Some(v), Err(_) => vehicle(content.spec_bytes()) is None },""", ret="r")
    d = splice(get("parse_validity_epoch"), "parse_validity_epoch", """    ensures match r { Ok(v) => date(content.spec_bytes(), TimeScale::GPST) == Some(v), Err(_) => date(content.spec_bytes(), TimeScale::GPST) is None },""", ret="r")
    p = get("parse_phase_pattern")
    p, n = re.subn(r"while !is_empty_str\(rem\) \{", """let ghost ok = ascii(content.spec_bytes());
    let ghost want = pattern(Seq::empty(), rtrim(content.spec_bytes()));
    while !is_empty_str(rem)
        invariant ok ==> ascii(rem.spec_bytes()) && pattern(values@, rem.spec_bytes()) == want,
        decreases rem.spec_bytes().len(),
    {""", p)
    if n != 1:
        raise Lost("loop over the values")
    p = "#[verifier::loop_isolation(false)]\n" + splice(p, "parse_phase_pattern", """    requires ascii(content.spec_bytes()),
    ensures match r { Ok(v) => pattern(Seq::empty(), rtrim(content.spec_bytes())) == Some(v@), Err(_) => pattern(Seq::empty(), rtrim(content.spec_bytes())) is None },""", ret="r")
    f = get("parse_antenna").replace("let lines =", "let mut lines =")
    f, n = re.subn(r"for line in lines \{", """let ghost want = block(empty(), lines@);
    while let Some(line) = lines.next()
        invariant_except_break
            forall|i: int| 0 <= i < lines@.len() ==> ascii(#[trigger] lines@[i]),
            want == block(empty(), lines_of(content.spec_bytes())),
            block(state(antenna, inner, frequency, freq_data, valid_from), lines@) == want,
        ensures
            want == block(empty(), lines_of(content.spec_bytes())),
            want == Some(state(antenna, inner, frequency, freq_data, valid_from)),
        decreases lines@.len(),
    {
        let ghost now = state(antenna, inner, frequency, freq_data, valid_from);
        let ghost l = line.spec_bytes();
        let ghost next = lines@;
        proof { assert(ascii(l)); assert(want == if label(l) == Label::EndAntenna { Some(now) } else { match step(now, l) { Some(t) => block(t, next), None => None } }); }""", f)
    if n != 1:
        raise Lost("loop over the lines")
    labels = {}
    def contains(m):
        k = re.sub(r"\W+", "_", m[1]).strip("_")
        if labels.setdefault(k, m[1]) != m[1]:
            raise Lost("labels of the same name")
        return f"has_{k}(marker)"
    f = re.sub(r"contains\(marker, \"([^\"]*)\"\)", contains, f)
    for k in re.findall(r"is_(\w+)\(from", MODEL):
        if k not in labels:
            raise Lost("label " + k)
    has = "".join(f"""pub uninterp spec fn is_{k}(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn has_{k}(s: &str) -> (r: bool) ensures r == is_{k}(s.spec_bytes()) {{ unimplemented!() }}
""" for k in labels)
    # each branch of the chain -> a function of its own
    V = {"antenna": "Antenna", "inner": "Inner", "frequency": "Carrier", "freq_data": "FrequencyDependentData", "valid_from": "Epoch"}
    blocks = ""
    i = f.index("if has_")
    k = 0
    while True:
        b = f.index("{", i)
        e = match_brace(f, b)
        cond = re.search(r"has_(\w+)", f[i:b])
        body = f[b + 1:e - 1]
        if cond and cond[1] == "END_OF_ANTENNA":
            i = f.index("if", e) if f[e:].lstrip().startswith("else if") else f.index("else", e)
            continue
        name = f"line_{cond[1]}" if cond else "line_other"
        said = f"is_{cond[1]}(marker.spec_bytes()) ==> " if cond else ""
        blocks += f"""
#[verifier::spinoff_prover]
fn {name}(line: &str, content: &str, marker: &str, {', '.join(f'{v}0: {t}' for v, t in V.items())}) -> (r: Result<({', '.join(V.values())}), ParsingError>)
    requires ascii(line.spec_bytes()), content.spec_bytes() == cols(line.spec_bytes(), 0, 60), ascii(content.spec_bytes()),
    ensures ({{
        let want = {"on_" + cond[1] if cond else "on_other"}(state({', '.join(v + '0' for v in V)}), line.spec_bytes());
        match r {{ Ok(t) => want == Some(state(t.0, t.1, t.2, t.3, t.4)), Err(_) => want is None }}
    }}),
{{
    hide(cols); hide(from);
    let (mut antenna, mut inner, mut frequency, mut freq_data, mut valid_from) = (antenna0, inner0, frequency0, freq_data0, valid_from0);
    {body}
    Ok((antenna, inner, frequency, freq_data, valid_from))
}}
"""
        call = f"""
            let verif_t = {name}(line, content, marker, antenna, inner, frequency, freq_data, valid_from)?;
            antenna = verif_t.0; inner = verif_t.1; frequency = verif_t.2; freq_data = verif_t.3; valid_from = verif_t.4;
        """
        f = f[:b + 1] + call + f[e - 1:]
        k += 1
        e = match_brace(f, b)
        if not cond:
            break
        i = f.index("if", e) if f[e:].lstrip().startswith("else if") else f.index("else", e)
    if k != 12:
        raise Lost("branches of the labels")
    f = splice(strs.opaque_columns(f).replace("hide(from);", "hide(from); hide(view); hide(freq); hide(trim); hide(ascii); " + " ".join(f"hide({x});" for x in re.findall(r"fn (on_\w+)", MODEL)), 1), "parse_antenna", """    requires ascii(content.spec_bytes()),
    ensures ({
        let want = block(empty(), lines_of(content.spec_bytes()));
        match r { Ok(v) => want is Some && view(v.0) == want.unwrap().a && v.1@ == want.unwrap().inner, Err(_) => want is None }
    }),""", ret="r")
    impls = "".join(clone(t) for t in ("Antenna", "AntennaSpecific", "Calibration", "FrequencyDependentData")) + "".join(default(t) for t in ("Antenna", "Carrier", "Epoch", "FrequencyDependentData"))
    return (strs.prelude_columns("_any") + strs.columns(repo) + strs.enum(v + d + p + blocks + f, "ParsingError") + types + impls + has + MODEL + strs.fromstr("SV", "ParsingError") + strs.fromstr("CalibrationMethod", "ParsingError")
            + setters + v + "\n" + d + "\n" + p + "\n" + blocks + f + strs.CANARY + "fn main() {}\n}\n")


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
