"""observation_substract_mut (src/lib.rs): the difference of two files, over any
number of epochs and signals."""
import re
from extract import *
from record_iters import bare
from combinations import arithmetic

LIB = "src/lib.rs"
DROPS = [
    "each loop over a record is checked as a function of its own (rec, rhs); which record is which (as_obs, as_mut_obs, ..) is not",
    "`for (k, v) in m.iter_mut()` -> for every key, in turn: the value is taken out, changed by the body, put back; `for x in l.iter_mut()` -> the same with the indexes",
    "`l.iter().filter(this observable and this vehicle).reduce(|k, _| k)` -> a function with the contract `the first of them`",
    "`a -= b` -> `a = a - b`; f64 -> a type whose value is a real: rounding is not modelled",
]
TRUSTED = [
    "BTreeMap::{iter_mut, get}: a finite map, every key once",
    "Iterator::{filter, reduce}, the derived PartialEq of Observable and SV",
    "f64 arithmetic is that of the reals",
]
CONTRACTS = ["observation_substract_mut (observations)", "observation_substract_mut (DORIS)", "observation_substract_mut (meteo)"]
CANARIES = ["canary"]
MODEL = r"""
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
pub struct F { pub r: Ghost<real> }
ARITHMETIC
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Table<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for Table<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> Table<K, V> {
    /// its keys, each once
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<K>)
        ensures forall|k: K| self@.dom().contains(k) <==> r@.contains(k), forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] != r@[j]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, k: &K) -> (r: V) requires old(self)@.dom().contains(*k) ensures r == old(self)@[*k], final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: &K, v: V) ensures final(self)@ == old(self)@.insert(*k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: u8 }
#[derive(Clone, Copy)]
pub struct Observable { pub c: u64 }
#[derive(Clone, Copy)]
pub struct Flags { pub c: u64 }
#[derive(Clone, Copy)]
pub struct ObsKey { pub c: u64 }
#[derive(Clone, Copy)]
pub struct SignalObservation { pub sv: SV, pub observable: Observable, pub value: F, pub flags: Flags }
pub struct Observations { pub clock: Option<u64>, pub signals: Vec<SignalObservation> }
#[derive(Clone, Copy)]
pub struct DorisSignal { pub value: F, pub flags: Flags }
pub struct DorisObservations { pub clock: Option<u64>, pub signals: Table<ObsKey, DorisSignal> }
/// the first observation of that vehicle and observable
pub open spec fn first(s: Seq<SignalObservation>, x: SignalObservation) -> Option<SignalObservation> decreases s.len() {
    if s.len() == 0 { None } else if s[0].sv == x.sv && s[0].observable == x.observable { Some(s[0]) } else { first(s.subrange(1, s.len() as int), x) }
}
impl Observations {
    #[verifier::external_body]
    pub fn alike(&self, x: &SignalObservation) -> (r: Option<&SignalObservation>)
        ensures match r { Some(s) => first(self.signals@, *x) == Some(*s), None => first(self.signals@, *x) is None }
    { unimplemented!() }
}
pub open spec fn minus(a: F, b: F) -> F { F { r: Ghost(a.r@ - b.r@) } }
pub open spec fn less(x: SignalObservation, s: Seq<SignalObservation>) -> SignalObservation {
    match first(s, x) { Some(y) => SignalObservation { value: minus(x.value, y.value), ..x }, None => x }
}
/// a minus b: the same vehicle and the same observable
pub open spec fn is_diff(a: Observations, b: Observations, o: Observations) -> bool {
    o.clock == a.clock && o.signals@.len() == a.signals@.len() && forall|i: int| 0 <= i < a.signals@.len() ==> #[trigger] o.signals@[i] == less(a.signals@[i], b.signals@)
}
pub open spec fn is_diff_doris(a: DorisObservations, b: DorisObservations, o: DorisObservations) -> bool {
    o.clock == a.clock && o.signals@.dom() == a.signals@.dom() && forall|k: ObsKey| #[trigger] a.signals@.dom().contains(k) ==>
        o.signals@[k] == if b.signals@.dom().contains(k) { DorisSignal { value: minus(a.signals@[k].value, b.signals@[k].value), ..a.signals@[k] } } else { a.signals@[k] }
}
"""


def loops(f, what, inv):
    """rewrite the loops over the keys of a map, and over the items of a list"""
    n = 0
    while True:
        m = re.search(r"for \((\w+), (\w+)\) in ([\w.]+)\.iter_mut\(\)\s*\{", f)
        if m:
            e = match_brace(f, m.end() - 1)
            body = f[m.end():e - 1]
            k, v, t = m[1], m[2], m[3]
            if t.split(".")[0] == v:
                # the value shadows the map it comes from
                body = re.sub(r"\b%s\b" % v, v + "_in", body)
                v += "_in"
            if n >= len(inv):
                raise Lost("loops")
            # what the body assigns is the value: a reference becomes a variable
            body = re.sub(r"\*%s\b" % v, v, body)
            i = f"verif_i{n}"
            f = f[:m.start()] + f"""let verif_k{n} = {t}.keys(); let ghost old{n} = {t}@;
        for {i} in 0..verif_k{n}.len()
            invariant {inv[n].replace('ITER', i).replace('KEYS', f'verif_k{n}').replace('TABLE', t).replace('OLD', f'old{n}')}
        {{ let {k} = &verif_k{n}[{i}]; assert(verif_k{n}@.contains(*{k})); let mut {v} = {t}.take({k}); let ghost verif_v{n} = {v}; {body} {t}.put({k}, {v});
           assert({t}@.dom() =~= old{n}.dom()); }}
        proof {{ assert forall|K: ObsKey| #[trigger] old{n}.dom().contains(K) implies {what[n].replace('TABLE', t).replace('OLD', f'old{n}')} by {{
            assert(verif_k{n}@.contains(K)); let i = choose|i: int| 0 <= i < verif_k{n}@.len() && verif_k{n}@[i] == K; assert(verif_k{n}@[i] == K); }} }}""" + f[e:]
            n += 1
            continue
        m = re.search(r"for (\w+) in ([\w.]+)\.iter_mut\(\)\s*\{", f)
        if m:
            e = match_brace(f, m.end() - 1)
            if n >= len(inv):
                raise Lost("loops")
            i = f"verif_i{n}"
            f = f[:m.start()] + f"""let ghost old{n} = {m[2]}@; let verif_n{n} = {m[2]}.len();
        for {i} in 0..verif_n{n}
            invariant verif_n{n} == old{n}.len(), {inv[n].replace('ITER', i).replace('TABLE', m[2]).replace('OLD', f'old{n}')}
        {{ let mut {m[1]} = {m[2]}[{i}]; {f[m.end():e - 1]} {m[2]}.set({i}, {m[1]}); }}""" + f[e:]
            n += 1
            continue
        break
    if n != len(inv):
        raise Lost("loops")
    return f


def unit(repo):
    s = bare(open(f"{repo}/{LIB}").read())
    a, b, e = find_fn(s, "observation_substract_mut")
    f = s[a:e]
    text = MODEL.replace("ARITHMETIC", arithmetic())
    KEYS = "forall|k: ObsKey| OLD.dom().contains(k) <==> KEYS@.contains(k), forall|i: int, j: int| 0 <= i < j < KEYS@.len() ==> KEYS@[i] != KEYS@[j], TABLE@.dom() == OLD.dom(),"

    obs = "if RHS.dom().contains(K) { is_diff(OLD[K], RHS[K], TABLE@[K]) } else { TABLE@[K] == OLD[K] }"
    dor = obs.replace("is_diff", "is_diff_doris")
    met = "TABLE@[K] == if RHS.dom().contains(K) { minus(OLD[K], RHS[K]) } else { OLD[K] }"

    def post(w):
        return "        ensures final(rec)@.dom() == old(rec)@.dom(), forall|K: ObsKey| #[trigger] old(rec)@.dom().contains(K) ==> " + w.replace("TABLE@", "final(rec)@").replace("OLD", "old(rec)@").replace("RHS", "rhs@") + ","
    for kind, value, what, inner, name in [
        ("obs", "Observations", obs, """TABLE@.len() == OLD.len(), rhs == verif_b, v.clock == verif_v0.clock, OLD == verif_v0.signals@, 
                forall|i: int| 0 <= i < ITER ==> #[trigger] TABLE@[i] == less(OLD[i], verif_b.signals@),
                forall|i: int| ITER <= i < OLD.len() ==> #[trigger] TABLE@[i] == OLD[i],""", "substract_obs"),
        ("doris", "DorisObservations", dor, KEYS + """ rhs == verif_b, v.clock == verif_v0.clock, OLD == verif_v0.signals@,
                forall|i: int| 0 <= i < ITER ==> TABLE@[#[trigger] KEYS@[i]] == if verif_b.signals@.dom().contains(KEYS@[i]) { DorisSignal { value: minus(OLD[KEYS@[i]].value, verif_b.signals@[KEYS@[i]].value), ..OLD[KEYS@[i]] } } else { OLD[KEYS@[i]] },
                forall|i: int| ITER <= i < KEYS@.len() ==> TABLE@[#[trigger] KEYS@[i]] == OLD[KEYS@[i]],""", "substract_doris"),
        ("meteo", "F", met, None, "substract_meteo"),
    ]:
        m = re.search(r"let Some\(rhs\) = rhs\.record\.as_%s\(\)\s*\{\s*if let Some\(rec\) = self\.record\.as_mut_%s\(\)\s*\{" % (kind, kind), f)
        if not m:
            raise Lost(kind)
        end = match_brace(f, m.end() - 1)
        body = f[m.end():end - 1]
        if not re.match(r"\s*\}", f[end:]):
            raise Lost(kind)
        body, n = re.subn(r"rhs\s*\.signals\s*\.iter\(\)\s*\.filter\(\|sig\|\s*\{?\s*(?:sig\.observable == signal\.observable && sig\.sv == signal\.sv|sig\.sv == signal\.sv && sig\.observable == signal\.observable)\s*\}?\s*\)\s*\.(?:reduce\(\|k, _\| k\)|next\(\))", "rhs.alike(&signal)", body)
        if n != (kind == "obs"):
            raise Lost("signals")
        body = body.replace(".get(&k)", ".get(k)")
        body = re.sub(r"(\*?[\w.]+) ([-+*/])= ([\w.]+);", r"\1 = \1 \2 \3;", body)
        # the file that is substracted, at this epoch
        if inner:
            body, n = re.subn(r"if let Some\(rhs\) = rhs\.get\(k\) \{", "if let Some(rhs) = rhs.get(k) { let ghost verif_b = rhs;", body, count=1)
            if n != 1:
                raise Lost("epoch")
        first = KEYS + " verif_rhs == rhs@,\n                forall|i: int| #![trigger KEYS@[i]] 0 <= i < ITER ==> " + re.sub(r"\bK\b", "KEYS@[i]", what).replace("RHS", "verif_rhs") + ",\n                forall|i: int| #![trigger KEYS@[i]] ITER <= i < KEYS@.len() ==> TABLE@[KEYS@[i]] == OLD[KEYS@[i]],"
        each = "TABLE@[K] == if verif_b.signals@.dom().contains(K) { DorisSignal { value: minus(OLD[K].value, verif_b.signals@[K].value), ..OLD[K] } } else { OLD[K] }"
        body = loops(body, [what.replace("RHS", "verif_rhs"), each], [first] + ([inner] if inner else []))
        text += f"""
pub fn {name}(rec: &mut Table<ObsKey, {value}>, rhs: &Table<ObsKey, {value}>)
{post(what)}
{{ let ghost verif_rhs = rhs@;{body}
}}
"""
    return text + "fn canary(rec: &mut Table<ObsKey, F>, rhs: &Table<ObsKey, F>) { substract_meteo(rec, rhs); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
