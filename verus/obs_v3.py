"""parse_signals_v3 (src/observation/parsing.rs): every field of a line is read
from its own columns."""
import re
from extract import *
import strs, obsmodel

FILE = "src/observation/parsing.rs"
DROPS = [
    strs.DROP,
    "compiled without the crate feature `log` (its arms hold comments only)",
    "`for line in lines` -> `while let Some(line) = lines.next()`, `Lines` being an opaque sequence of texts",
    "`HashMap<Constellation, Vec<Observable>>` -> an opaque finite map with the same `get`",
    "`std::cmp::min(a, b)` and `a.min(b)` keep their contract (vstd or the shim below)",
]
TRUSTED = strs.TRUSTED + obsmodel.TRUSTED
CONTRACTS = ["parse_signals_v3"]
CANARIES = ["canary"]

MODEL = obsmodel.MODEL + r"""/// field i: 14 columns of value, then the two flags
pub open spec fn field(l: Seq<u8>, i: int) -> Seq<u8> { cols(l, 3 + 16 * i, 19 + 16 * i) }
pub open spec fn value_at(l: Seq<u8>, i: int) -> Option<f64> { parsed::<f64>(trim(cols(l, 3 + 16 * i, 17 + 16 * i))) }
pub open spec fn flag_at(l: Seq<u8>, at: int) -> Option<u8> { if at < l.len() { parsed::<u8>(l.subrange(at, at + 1)) } else { None } }
pub open spec fn obs_at(l: Seq<u8>, sv: SV, codes: Seq<Observable>, i: int) -> Option<SignalObservation> {
    match value_at(l, i) {
        None => None,
        Some(value) => Some(SignalObservation { sv, value, observable: codes[i],
            lli: match flag_at(l, 17 + 16 * i) { Some(b) => lli_bits(b), None => None },
            snr: match flag_at(l, 18 + 16 * i) { Some(b) => Some(snr_of(b)), None => None } }),
    }
}
pub open spec fn obs_upto(l: Seq<u8>, sv: SV, codes: Seq<Observable>, n: int) -> Seq<SignalObservation> decreases n {
    if n <= 0 { Seq::empty() } else {
        match obs_at(l, sv, codes, n - 1) { Some(o) => obs_upto(l, sv, codes, n - 1).push(o), None => obs_upto(l, sv, codes, n - 1) }
    }
}
/// number of fields that hold at least one column
pub open spec fn fields(l: Seq<u8>) -> int { if l.len() <= 3 { 0 } else { (l.len() - 3 + 15) / 16 } }
pub open spec fn line_obs(l: Seq<u8>, codes: Codes) -> Seq<SignalObservation> {
    if l.len() < 3 { Seq::empty() } else {
        match parsed::<SV>(l.subrange(0, 3)) {
            None => Seq::empty(),
            Some(sv) => match codes_of(codes, sv) { None => Seq::empty(), Some(c) => obs_upto(l, sv, c, min(fields(l), c.len() as int)) },
        }
    }
}
pub open spec fn lines_obs(ls: Seq<Seq<u8>>, codes: Codes) -> Seq<SignalObservation> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { line_obs(ls[0], codes) + lines_obs(ls.subrange(1, ls.len() as int), codes) }
}
/// a line of the standard ends with a whole value, or one of its flags
pub open spec fn standard(l: Seq<u8>) -> bool { ascii(l) && (l.len() < 3 || (l.len() - 3) % 16 == 0 || (l.len() - 3) % 16 >= 14) }
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    a, b, e = find_fn(s, "parse_signals_v3")
    f = s[a:e]
    f = f.replace("HashMap<Constellation, Vec<Observable>>", "Codes")
    f = strs.cuts(f.replace(".min(", ".vmin("))
    f, n = re.subn(r"for line in lines \{", """let mut lines = lines;
    let ghost all = lines@;
    let ghost before = signals@;
    while let Some(line) = lines.next()
        invariant
            forall|k: int| 0 <= k < lines@.len() ==> standard(#[trigger] lines@[k]),
            signals@ + lines_obs(lines@, *head_observables) =~= before + lines_obs(all, *head_observables),
        ensures
            lines@.len() == 0,
        decreases lines@.len(),
    {
        let ghost from = signals@;
        proof { assert(standard(line.spec_bytes())); assert(signals@ + (line_obs(line.spec_bytes(), *head_observables) + lines_obs(lines@, *head_observables)) =~= before + lines_obs(all, *head_observables)); }""", f)
    if n != 1:
        raise Lost("loop over the lines")
    f, n = re.subn(r"for i in 0\.\.num_obs \{", """for i in 0..num_obs
            invariant_except_break
                i <= observables@.len(), offset == 3 + 16 * i,
                signals@ == from + obs_upto(line.spec_bytes(), sv, observables@, i as int),
            invariant
                OBSERVABLE_WIDTH == 16, OBSERVABLE_F14_WIDTH == 14,
                standard(line.spec_bytes()), line.spec_bytes().len() >= 3,
                parsed::<SV>(line.spec_bytes().subrange(0, 3)) == Some(sv),
                codes_of(*head_observables, sv) == Some(observables@),
                num_obs == line.spec_bytes().len() / 16, num_obs == fields(line.spec_bytes()),
                from + (line_obs(line.spec_bytes(), *head_observables) + lines_obs(lines@, *head_observables)) =~= before + lines_obs(all, *head_observables),
            ensures
                signals@ == from + line_obs(line.spec_bytes(), *head_observables),
        {""", f)
    if n != 1:
        raise Lost("loop over the fields")
    f = splice(f, "parse_signals_v3", """    requires
        forall|k: int| 0 <= k < lines@.len() ==> standard(#[trigger] lines@[k]),
    ensures
        final(signals)@ == old(signals)@ + lines_obs(lines@, *head_observables),""")
    return strs.PRELUDE + MODEL + f + strs.CANARY + "fn main() {}\n}\n"



if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
