"""parse_signals_v2 (src/observation/parsing.rs): five observations per line, the
vehicles in the order of the list, every field from its own columns."""
import re
from extract import *
import strs, obsmodel

FILE = "src/observation/parsing.rs"
DROPS = [
    strs.DROP,
    "compiled without the crate feature `log` (its arms hold comments only)",
    "`for line in lines` -> `let mut rest = lines; while let Some(line) = rest.next()`, `Lines` being an opaque sequence of texts",
    "`for _ in 0..n` -> `for k in 0..n` (the index is named)",
    "`HashMap<Constellation, Vec<Observable>>` -> an opaque finite map with the same `get`; Default for SV and Vec by a shim",
]
TRUSTED = strs.TRUSTED + obsmodel.TRUSTED + ["num_integer::div_ceil(a, b) = ceil(a / b)"]
CONTRACTS = ["parse_signals_v2"]
CANARIES = ["canary"]

MODEL = obsmodel.MODEL + r"""
impl FromStr for SNR {
    type Err = u8;
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<SNR, u8>)
        ensures match r { Ok(v) => parsed::<SNR>(s.spec_bytes()) == Some(v), Err(_) => parsed::<SNR>(s.spec_bytes()) is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn sv_default() -> SV { unimplemented!() }
#[verifier::external_body]
pub fn div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int) { unimplemented!() }

pub open spec fn obs_at(l: Seq<u8>, sv: SV, o: Observable, k: int) -> Option<SignalObservation> {
    let at = 16 * k;
    match parsed::<f64>(trim(cols(l, at, at + 14))) {
        None => None,
        Some(value) => Some(SignalObservation { sv, value, observable: o,
            lli: if at + 14 < l.len() { match parsed::<u8>(l.subrange(at + 14, at + 15)) { Some(b) => lli_bits(b), None => None } } else { None },
            snr: if at + 15 < l.len() { parsed::<SNR>(l.subrange(at + 15, at + 16)) } else { None } }),
    }
}
/// the first n fields of a line, that describe the codes p, p + 1, ..
pub open spec fn fields(l: Seq<u8>, sv: SV, c: Seq<Observable>, p: int, n: int) -> Seq<SignalObservation> decreases n {
    if n <= 0 { Seq::empty() } else {
        match obs_at(l, sv, c[p + n - 1], n - 1) { Some(o) => fields(l, sv, c, p, n - 1).push(o), None => fields(l, sv, c, p, n - 1) }
    }
}
pub open spec fn columns(l: Seq<u8>) -> int { (l.len() as int + 15) / 16 }
pub open spec fn line_obs(l: Seq<u8>, sv: SV, c: Seq<Observable>, p: int) -> Seq<SignalObservation> {
    if trim(l).len() == 0 { Seq::empty() } else { fields(l, sv, c, p, columns(l)) }
}
/// the vehicle at column `at` of the list
pub open spec fn vehicle(sys: Seq<u8>, at: int, head: Option<Constellation>) -> Option<SV> {
    let t = trim(cols(sys, at, at + 3));
    if t.len() == 0 { None } else {
        match parsed::<SV>(t) {
            Some(sv) => Some(sv),
            None => match head {
                None => None,
                Some(Constellation::Mixed) => None,
                Some(g) => match parsed::<u8>(trim(t)) { Some(prn) => Some(SV { prn, constellation: g }), None => None },
            },
        }
    }
}
pub struct Slot { pub sv: SV, pub codes: Seq<Observable>, pub p: int, pub at: int }
/// what the next line describes: the codes from p on of the current vehicle,
/// or the first codes of the next vehicle of the list
pub open spec fn slot(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, cur: Option<Slot>, at: int) -> Option<Slot> {
    if cur is Some && cur.unwrap().p < cur.unwrap().codes.len() { cur } else {
        match vehicle(sys, at, head) {
            None => None,
            Some(sv) => match codes_of(codes, sv) { None => None, Some(c) => Some(Slot { sv, codes: c, p: 0, at: at + 3 }) },
        }
    }
}
pub open spec fn after(s: Slot) -> Option<Slot> { Some(Slot { sv: s.sv, codes: s.codes, p: s.p + 5, at: s.at }) }
pub open spec fn epoch_obs(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, cur: Option<Slot>, at: int, ls: Seq<Seq<u8>>) -> Seq<SignalObservation>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else {
        match slot(sys, head, codes, cur, at) {
            None => Seq::empty(),
            Some(s) => line_obs(ls[0], s.sv, s.codes, s.p) + epoch_obs(sys, head, codes, after(s), s.at, ls.subrange(1, ls.len() as int)),
        }
    }
}
/// a line holds at most the fields that are left, @FINDING@
pub open spec fn line_ok(l: Seq<u8>, s: Slot) -> bool {
    ascii(l) && s.codes.len() > 0 && s.codes.len() < 0xFFFF
        && (trim(l).len() > 0 ==> columns(l) <= 5 && s.p + columns(l) <= s.codes.len() @LAST@)
}
pub open spec fn standard(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, cur: Option<Slot>, at: int, ls: Seq<Seq<u8>>) -> bool
    decreases ls.len()
{
    ls.len() == 0 || match slot(sys, head, codes, cur, at) {
        None => true,
        Some(s) => line_ok(ls[0], s) && standard(sys, head, codes, after(s), s.at, ls.subrange(1, ls.len() as int)),
    }
}
/// a vehicle without fields left is the same as none
pub proof fn concluded(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, s: Slot, at: int, ls: Seq<Seq<u8>>)
    requires s.p >= s.codes.len()
    ensures
        epoch_obs(sys, head, codes, Some(s), at, ls) == epoch_obs(sys, head, codes, None, at, ls),
        standard(sys, head, codes, Some(s), at, ls) == standard(sys, head, codes, None, at, ls),
{ }
/// no vehicle is left
pub proof fn exhausted(sys: Seq<u8>, head: Option<Constellation>, codes: Codes, at: int, ls: Seq<Seq<u8>>)
    requires at >= sys.len()
    ensures epoch_obs(sys, head, codes, None, at, ls) == Seq::<SignalObservation>::empty()
{ assert(trim(cols(sys, at, at + 3)).len() == 0); }
pub open spec fn cur(identified: bool, sv: SV, codes: Seq<Observable>, p: int, at: int) -> Option<Slot> {
    if identified { Some(Slot { sv, codes, p, at }) } else { None }
}
"""
MODEL = MODEL.replace("@FINDING@", "and the last line of a vehicle ends with its last field (known finding of P08)").replace("@LAST@", "&& (s.p + 5 < s.codes.len() || s.p + columns(l) == s.codes.len())")

ARGS = "systems_str.spec_bytes(), head_constellation, *head_observables"


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "parse_signals_v2")
    f = s[a:e]
    f = f.replace("HashMap<Constellation, Vec<Observable>>", "Codes").replace("SV::default()", "sv_default()")
    f = f.replace("let mut observables = &Vec::<Observable>::default();", "let none: Vec<Observable> = Vec::new();\n    let mut observables = &none;")
    f = strs.cuts(f.replace(".min(", ".vmin("))
    f = f.replace("for _ in 0..", "for k in 0..")
    f = f.replace("// basic check", f"proof {{ if systems_str_len == 0 {{ exhausted({ARGS}, 0, lines@); }} }}\n    // basic check")
    f, n = re.subn(r"for line in lines \{", f"""let mut rest = lines;
    let ghost all = epoch_obs({ARGS}, None, 0, lines@);
    let ghost before = signals@;
    while let Some(line) = rest.next()
        invariant_except_break
            sv_identified == obs_identified,
            !sv_identified ==> sv_ptr < systems_str_len,
            sv_identified ==> obs_ptr < observables@.len() && observables@.len() < 0xFFFF,
            standard({ARGS}, cur(sv_identified, sv, observables@, obs_ptr as int, sv_ptr as int), sv_ptr as int, rest@),
            signals@ + epoch_obs({ARGS}, cur(sv_identified, sv, observables@, obs_ptr as int, sv_ptr as int), sv_ptr as int, rest@) =~= before + all,
        invariant
            before == old(signals)@, all == epoch_obs({ARGS}, None, 0, lines@),
            systems_str_len == systems_str.spec_bytes().len(), ascii(systems_str.spec_bytes()),
            sv_ptr <= systems_str_len + 2,
            SVNN_SIZE == 3, MAX_OBSERVABLES_LINE == 5, OBSERVABLE_F14_WIDTH == 14, OBSERVABLE_WIDTH == 16,
        ensures
            signals@ =~= before + all,
        decreases rest@.len(),
    {{
        let ghost from = signals@;
        let ghost line0 = line.spec_bytes();
        let ghost now = slot({ARGS}, cur(sv_identified, sv, observables@, obs_ptr as int, sv_ptr as int), sv_ptr as int);
        proof {{
            if now is Some {{
                let s = now.unwrap();
                assert(from + (line_obs(line0, s.sv, s.codes, s.p) + epoch_obs({ARGS}, after(s), s.at, rest@)) =~= before + all);
                if s.p + 5 >= s.codes.len() {{
                    concluded({ARGS}, after(s).unwrap(), s.at, rest@);
                    if s.at >= systems_str_len {{ exhausted({ARGS}, s.at, rest@); }}
                }}
            }}
        }}
        """, f)
    if n != 1:
        raise Lost("loop over the lines")
    f, n = re.subn(r"(for k in 0\.\.num_obs) \{", rf"""let ghost p0 = obs_ptr as int;
        let ghost s0 = now.unwrap();
        let ghost at0 = sv_ptr as int;
        \1
            invariant
                before == old(signals)@, all == epoch_obs({ARGS}, None, 0, lines@),
                SVNN_SIZE == 3, MAX_OBSERVABLES_LINE == 5, OBSERVABLE_F14_WIDTH == 14, OBSERVABLE_WIDTH == 16,
                systems_str_len == systems_str.spec_bytes().len(), ascii(systems_str.spec_bytes()),
                now == Some(s0), s0 == (Slot {{ sv, codes: observables@, p: p0, at: sv_ptr as int }}),
                line_ok(line.spec_bytes(), s0), trim(line.spec_bytes()).len() > 0,
                line_width == line.spec_bytes().len(), num_obs == columns(line.spec_bytes()),
                obs_ptr == p0 + k, offset == 16 * k, k <= num_obs,
                sv_identified == obs_identified, sv_identified == (obs_ptr < observables@.len()),
                !sv_identified ==> sv_ptr < systems_str_len,
                p0 + 5 >= observables@.len() && sv_ptr >= systems_str_len ==> epoch_obs({ARGS}, after(s0), sv_ptr as int, rest@) == Seq::<SignalObservation>::empty(),
                signals@ == from + fields(line.spec_bytes(), sv, observables@, p0, k as int),
                from + (line_obs(line.spec_bytes(), sv, observables@, p0) + epoch_obs({ARGS}, after(s0), sv_ptr as int, rest@)) =~= before + all,
        {{""", f)
    if n != 1:
        raise Lost("loop over the fields")
    f = splice(f, "parse_signals_v2", f"""    requires
        systems_str_len == 0 || systems_str_len >= 3,
        systems_str_len == systems_str.spec_bytes().len(), ascii(systems_str.spec_bytes()),
        standard({ARGS}, None, 0, lines@),
    ensures
        final(signals)@ =~= old(signals)@ + epoch_obs({ARGS}, None, 0, lines@),""")
    return strs.PRELUDE + MODEL + f + strs.CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
