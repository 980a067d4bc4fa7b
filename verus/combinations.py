"""signals_combination and signals_multipath (src/observation/rinex/feature.rs),
is_l1_pivot (src/observable.rs): every value is the definition applied to
observations of one epoch and vehicle, and none is missing. f64 is taken as a real."""
import re
from extract import *

FEAT = "src/observation/rinex/feature.rs"
OBSV = "src/observable.rs"
CARR = "src/carrier.rs"
DROPS = [
    "`f64` -> F, a number whose arithmetic is that of the reals (rounding, overflow and NaN are dropped), `1.0` -> its value",
    "`HashMap`, `BTreeMap` -> a map type whose view is its content; `for pattern in sequence` -> an indexed `while` over its items",
    "`a == b`, `a != b` of structural types -> same(&a, &b); `unreachable!` -> a call that must be proved unreachable",
    "derive attributes, doc comments",
]
TRUSTED = [
    "HashMap and BTreeMap (new, insert, get, iteration in some order over each entry once), the derived PartialEq, Eq, Hash and Ord of the keys, slice iteration and its reverse",
    "Rinex::observations_iter: the sequence of the epochs of the record (decided by P18), Observable::carrier, code (decided by P04 and the native search)",
]
CONTRACTS = ["is_pseudo_range_observable", "is_phase_range_observable", "is_l1_pivot", "frequency", "wavelength", "signals_combination", "signals_multipath"]
CANARIES = ["canary"]

OPS = [("Add", "add", "+"), ("Sub", "sub", "-"), ("Mul", "mul", "*"), ("Div", "div", "/")]


def arithmetic():
    out = ""
    for tr, fn, op in OPS:
        for a in ["F", "&F"]:
            for b in ["F", "&F"]:
                l = "" if a == "F" and b == "F" else "<'a>" if a == "F" or b == "F" else "<'a, 'b>"
                ta = a.replace("&", "&'a ")
                tb = b.replace("&", "&'b " if a == "&F" else "&'a ")
                out += f"""
impl{l} vstd::std_specs::ops::{tr}SpecImpl<{tb}> for {ta} {{
    open spec fn obeys_{fn}_spec() -> bool {{ true }}
    open spec fn {fn}_req(self, rhs: {tb}) -> bool {{ true }}
    open spec fn {fn}_spec(self, rhs: {tb}) -> F {{ F {{ r: Ghost(self.r@ {op} rhs.r@) }} }}
}}
impl{l} core::ops::{tr}<{tb}> for {ta} {{ type Output = F; #[verifier::external_body] fn {fn}(self, rhs: {tb}) -> F {{ unimplemented!() }} }}"""
    return out + """
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { F { r: Ghost(0real - self.r@) } }
}
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { unimplemented!() } }
"""


MODEL = r"""
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
pub struct F { pub r: Ghost<real> }
ARITHMETIC
#[verifier::external_body]
pub fn num(n: u64) -> (r: F) ensures r.r@ == n as real { unimplemented!() }
impl F {
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F) requires n == 2 ensures r.r@ == self.r@ * self.r@ { unimplemented!() }
}
#[verifier::external_body]
pub fn same<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn never<T>() -> T requires false { unimplemented!() }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Table<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for Table<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> Table<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&K, &V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k
    { unimplemented!() }
    #[verifier::external_body]
    pub fn content(self) -> (r: Vec<(K, V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k
    { unimplemented!() }
}
#[verifier::external_body]
pub fn all<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == &v@[i] { unimplemented!() }
#[verifier::external_body]
pub fn backwards<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == &v@[v@.len() - 1 - i] { unimplemented!() }

#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy)]
pub struct EpochFlag { pub f: u8 }
#[derive(Clone, Copy)]
pub struct Constellation { pub c: u8 }
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: Constellation }
#[derive(Debug)]
pub struct Error { pub e: u8 }
#[derive(Clone, Copy)]
pub struct ObsKey { pub epoch: Epoch, pub flag: EpochFlag }
pub struct SignalObservation { pub sv: SV, pub value: F, pub observable: Observable }
pub struct Observations { pub signals: Vec<SignalObservation> }
pub uninterp spec fn carrier_of(o: Observable, c: Constellation) -> Option<Carrier>;
pub uninterp spec fn code_of(o: Observable) -> Option<String>;
pub uninterp spec fn mhz(c: Carrier) -> real;
pub open spec fn hertz(c: Carrier) -> real { mhz(c) * 1000000real }
pub open spec fn metres(c: Carrier) -> real { 299792458real / hertz(c) }
impl Carrier {
    #[verifier::external_body]
    pub fn frequency_mhz(&self) -> (r: F) ensures r.r@ == mhz(*self) { unimplemented!() }
    CARRIER
}
impl Clone for Observable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Observable {
    #[verifier::external_body]
    pub fn carrier(&self, c: Constellation) -> (r: Result<Carrier, Error>) ensures match carrier_of(*self, c) { Some(x) => r == Ok::<Carrier, Error>(x), None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<String>) ensures r == code_of(*self) { unimplemented!() }
    OBSERVABLE
}
pub open spec fn is_pivot(o: Observable, c: Constellation) -> bool {
    (o is PhaseRange || o is PseudoRange) && match carrier_of(o, c) { Some(x) => x is L1 || x is E1 || x is G1 || x is S1 || x is B1I || x is B1A || x is B1C, None => false }
}
pub struct Rinex { pub n: u8 }
pub type Ep<'a> = (&'a ObsKey, &'a Observations);
impl Rinex {
    pub uninterp spec fn observations<'a>(&'a self) -> Seq<Ep<'a>>;
    #[verifier::external_body]
    pub fn observations_iter(&self) -> (r: Vec<(&ObsKey, &Observations)>) ensures r@ == self.observations() { unimplemented!() }
}
/// signals that may be combined: same vehicle, same physics, the reference being a pivot and the other one not
pub open spec fn combine(r: SignalObservation, s: SignalObservation) -> bool {
    &&& r.sv == s.sv
    &&& is_pivot(r.observable, r.sv.constellation) && !is_pivot(s.observable, s.sv.constellation)
    &&& (r.observable is PhaseRange <==> s.observable is PhaseRange) && (s.observable is PhaseRange || s.observable is PseudoRange)
    &&& carrier_of(s.observable, s.sv.constellation) is Some
}
pub open spec fn wave(s: SignalObservation) -> Carrier { carrier_of(s.observable, s.sv.constellation)->0 }
/// a range, in metres
pub open spec fn range(s: SignalObservation) -> real { if s.observable is PhaseRange { s.value.r@ * metres(wave(s)) } else { s.value.r@ } }
pub open spec fn definition(c: Combination, r: SignalObservation, s: SignalObservation) -> real {
    let f1 = hertz(wave(r)); let f2 = hertz(wave(s));
    match c {
        Combination::GeometryFree => if s.observable is PhaseRange { range(r) - range(s) } else { range(s) - range(r) },
        Combination::IonosphereFree => (f1 * f1 * range(r) - f2 * f2 * range(s)) / (f1 * f1 - f2 * f2),
        Combination::WideLane => (f1 * range(r) - f2 * range(s)) / (f1 - f2),
        Combination::NarrowLane => (f1 * range(r) + f2 * range(s)) / (f1 + f2),
        Combination::MelbourneWubbena => 0real,
    }
}
pub open spec fn key(k: ObsKey, r: SignalObservation, s: SignalObservation) -> CombinationKey {
    CombinationKey { epoch: k.epoch, flag: k.flag, sv: s.sv, lhs: s.observable, reference: r.observable }
}
/// the entry is a combination of signals of this epoch
pub open spec fn sound_in(c: Combination, p: Ep<'_>, k: CombinationKey, v: F) -> bool {
    exists|i: int, j: int| 0 <= i < p.1.signals@.len() && 0 <= j < p.1.signals@.len() && #[trigger] combine(p.1.signals@[i], p.1.signals@[j]) && k == key(*p.0, p.1.signals@[i], p.1.signals@[j]) && v.r@ == definition(c, p.1.signals@[i], p.1.signals@[j])
}
pub open spec fn sound(c: Combination, s: Seq<Ep<'_>>, m: Map<CombinationKey, F>) -> bool {
    forall|k: CombinationKey| #[trigger] m.dom().contains(k) ==> exists|e: int| 0 <= e < s.len() && sound_in(c, #[trigger] s[e], k, m[k])
}
/// the combination of this signal is there
pub open spec fn found(m: Map<CombinationKey, F>, k: ObsKey, s: SignalObservation) -> bool {
    exists|o: Observable| m.dom().contains(#[trigger] named(k, o, s))
}
pub open spec fn named(k: ObsKey, o: Observable, s: SignalObservation) -> CombinationKey { CombinationKey { epoch: k.epoch, flag: k.flag, sv: s.sv, lhs: s.observable, reference: o } }
pub open spec fn complete_in(p: Ep<'_>, n: int, m: Map<CombinationKey, F>) -> bool {
    forall|i: int, j: int| 0 <= i < p.1.signals@.len() && 0 <= j < n && #[trigger] combine(p.1.signals@[i], p.1.signals@[j]) ==> found(m, *p.0, p.1.signals@[j])
}
pub open spec fn complete(s: Seq<Ep<'_>>, m: Map<CombinationKey, F>) -> bool {
    forall|e: int| 0 <= e < s.len() ==> complete_in(#[trigger] s[e], s[e].1.signals@.len() as int, m)
}
pub type Lane = (Epoch, EpochFlag, SV, String);
pub open spec fn lane(k: CombinationKey) -> Lane { (k.epoch, k.flag, k.sv, code_of(k.lhs)->0) }
pub open spec fn code_lane(k: CombinationKey) -> bool { k.reference is PseudoRange && code_of(k.lhs) is Some }
pub open spec fn phase_lane(k: CombinationKey) -> bool { k.reference is PhaseRange && code_of(k.lhs) is Some }
/// Melbourne-Wubbena: a phase wide lane less a code narrow lane of the same epoch, vehicle and signal
pub open spec fn sound_mw(w: Map<CombinationKey, F>, n: Map<CombinationKey, F>, m: Map<CombinationKey, F>) -> bool {
    forall|k: CombinationKey| #[trigger] m.dom().contains(k) ==> w.dom().contains(k) && phase_lane(k) && exists|q: CombinationKey| #[trigger] n.dom().contains(q) && code_lane(q) && lane(q) == lane(k) && m[k].r@ == w[k].r@ - n[q].r@
}
pub open spec fn complete_mw(w: Map<CombinationKey, F>, n: Map<CombinationKey, F>, m: Map<CombinationKey, F>) -> bool {
    forall|k: CombinationKey, q: CombinationKey| #[trigger] w.dom().contains(k) && #[trigger] n.dom().contains(q) && phase_lane(k) && code_lane(q) && lane(q) == lane(k) ==> m.dom().contains(k)
}
/// a combination, as the definition tells
pub open spec fn correct(c: Combination, s: Seq<Ep<'_>>, m: Map<CombinationKey, F>) -> bool {
    if c is MelbourneWubbena {
        exists|w: Map<CombinationKey, F>, n: Map<CombinationKey, F>| sound(Combination::WideLane, s, w) && complete(s, w) && sound(Combination::NarrowLane, s, n) && complete(s, n) && #[trigger] sound_mw(w, n, m) && complete_mw(w, n, m)
    } else { sound(c, s, m) && complete(s, m) }
}
pub proof fn keep_found(m: Map<CombinationKey, F>, k: CombinationKey, v: F, key: ObsKey, s: SignalObservation)
    ensures found(m, key, s) ==> found(m.insert(k, v), key, s)
{ if found(m, key, s) { let o = choose|o: Observable| m.dom().contains(#[trigger] named(key, o, s)); assert(m.insert(k, v).dom().contains(named(key, o, s))); } }
pub proof fn keep_sound(c: Combination, s: Seq<Ep<'_>>, m: Map<CombinationKey, F>, k: CombinationKey, v: F, e: int)
    requires sound(c, s, m), 0 <= e < s.len(), sound_in(c, s[e], k, v)
    ensures sound(c, s, m.insert(k, v))
{ }
pub proof fn keep_complete_in(p: Ep<'_>, n: int, m: Map<CombinationKey, F>, k: CombinationKey, v: F)
    requires complete_in(p, n, m)
    ensures complete_in(p, n, m.insert(k, v))
{ assert forall|i: int, j: int| 0 <= i < p.1.signals@.len() && 0 <= j < n && #[trigger] combine(p.1.signals@[i], p.1.signals@[j]) implies found(m.insert(k, v), *p.0, p.1.signals@[j]) by { keep_found(m, k, v, *p.0, p.1.signals@[j]); } }
pub open spec fn square(c: Carrier) -> real { hertz(c) * hertz(c) }
pub open spec fn usable(s: SignalObservation) -> bool { (s.observable is PhaseRange || s.observable is PseudoRange) && carrier_of(s.observable, s.sv.constellation) is Some }
/// the phase, the code of the same signal and another phase, of one vehicle
pub open spec fn triple(a: SignalObservation, b: SignalObservation, c: SignalObservation) -> bool {
    &&& usable(a) && usable(b) && usable(c) && a.sv == b.sv && a.sv == c.sv
    &&& a.observable is PhaseRange && b.observable is PseudoRange && c.observable is PhaseRange
    &&& code_of(a.observable) is Some && code_of(a.observable) == code_of(b.observable)
    &&& a.observable != c.observable && square(wave(a)) != square(wave(c))
}
pub open spec fn multipath(a: SignalObservation, b: SignalObservation, c: SignalObservation) -> real {
    range(b) - range(a) - 2real * square(wave(c)) / (square(wave(a)) - square(wave(c))) * (range(a) - range(c))
}
pub open spec fn mkey(k: ObsKey, a: SignalObservation, c: SignalObservation) -> MultipathKey { MultipathKey { epoch: k.epoch, sv: a.sv, signal: a.observable, rhs: c.observable } }
pub open spec fn bias_in(p: Ep<'_>, k: MultipathKey, v: F) -> bool {
    exists|x: int, y: int, z: int| 0 <= x < p.1.signals@.len() && 0 <= y < p.1.signals@.len() && 0 <= z < p.1.signals@.len() && #[trigger] triple(p.1.signals@[x], p.1.signals@[y], p.1.signals@[z]) && k == mkey(*p.0, p.1.signals@[x], p.1.signals@[z]) && v.r@ == multipath(p.1.signals@[x], p.1.signals@[y], p.1.signals@[z])
}
pub open spec fn biases(s: Seq<Ep<'_>>, m: Map<MultipathKey, F>) -> bool {
    forall|k: MultipathKey| #[trigger] m.dom().contains(k) ==> exists|e: int| 0 <= e < s.len() && bias_in(#[trigger] s[e], k, m[k])
}
pub open spec fn biased_in(p: Ep<'_>, m: Map<MultipathKey, F>) -> bool {
    forall|x: int, y: int, z: int| 0 <= x < p.1.signals@.len() && 0 <= y < p.1.signals@.len() && 0 <= z < p.1.signals@.len() && #[trigger] triple(p.1.signals@[x], p.1.signals@[y], p.1.signals@[z]) ==> m.dom().contains(mkey(*p.0, p.1.signals@[x], p.1.signals@[z]))
}
pub type Rho = Map<(SV, Observable), F>;
pub type Phi = Map<(SV, Observable), (F, F)>;
pub open spec fn is_rho(s: SignalObservation, k: (SV, Observable), v: F) -> bool { usable(s) && s.observable is PseudoRange && k == (s.sv, s.observable) && v.r@ == range(s) }
pub open spec fn is_phi(s: SignalObservation, k: (SV, Observable), v: (F, F)) -> bool { usable(s) && s.observable is PhaseRange && k == (s.sv, s.observable) && v.0.r@ == square(wave(s)) && v.1.r@ == range(s) }
/// the stored ranges are those of the first n signals
pub open spec fn stored(g: Seq<SignalObservation>, n: int, rho: Rho, phi: Phi) -> bool {
    &&& forall|k: (SV, Observable)| #[trigger] rho.dom().contains(k) ==> exists|i: int| 0 <= i < n && is_rho(#[trigger] g[i], k, rho[k])
    &&& forall|k: (SV, Observable)| #[trigger] phi.dom().contains(k) ==> exists|i: int| 0 <= i < n && is_phi(#[trigger] g[i], k, phi[k])
    &&& forall|i: int| 0 <= i < n && usable(#[trigger] g[i]) && g[i].observable is PseudoRange ==> rho.dom().contains((g[i].sv, g[i].observable))
    &&& forall|i: int| 0 <= i < n && usable(#[trigger] g[i]) && g[i].observable is PhaseRange ==> phi.dom().contains((g[i].sv, g[i].observable))
}
/// the entries of the stored ranges that make a multipath
pub open spec fn met(a: (SV, Observable), fa: F, b: (SV, Observable), c: (SV, Observable), fc: F) -> bool {
    a.0 == b.0 && a.0 == c.0 && code_of(a.1) is Some && code_of(a.1) == code_of(b.1) && a.1 != c.1 && fa.r@ != fc.r@
}
"""

PIV = "(forall|sv: SV, ph: bool| #[trigger] references@.dom().contains((sv, ph)) ==> exists|i: int| 0 <= i < g.len() && pivot_for(#[trigger] g[i], sv, ph, references@[(sv, ph)]))"


def for_loops(f, specs, names):
    """`for pattern in sequence {` -> an indexed while loop with its invariants"""
    out, i, n = "", 0, 0
    for m in re.finditer(r"\bfor (\(+[^=]*?\)+|\w+) in ([^{]*?) \{", f):
        if n >= len(specs):
            raise Lost("loops")
        pat, seq = re.sub(r"\s", "", m[1]), re.sub(r"\s", "", m[2])
        seq, k = re.subn(r"^(\w+)\.signals\.iter\(\)\.rev\(\)$", r"backwards(&\1.signals)", seq)
        seq = re.sub(r"^(\w+)\.signals\.iter\(\)$|^&(\w+)\.signals$", lambda x: f"all(&{x[1] or x[2]}.signals)", seq)
        seq = re.sub(r"^(\w+)\.iter\(\)$|^&(phi|rho)$", lambda x: f"{x[1] or x[2]}.entries()", seq)
        own = re.match(r"self\.signals_combination\(", seq)
        if own:
            lets = []
            ps = re.match(r"\((\w+),(\w+)\)$", pat)
            if not ps:
                raise Lost("pattern")
            out += f[i:m.start()] + f"let verif_m{n} = {seq}; let ghost g{n} = verif_m{n}@; let verif_s{n} = verif_m{n}.content();"
            let = f"let {ps[1]} = clone_key(&verif_s{n}[verif_i{n}].0); let {ps[2]} = verif_s{n}[verif_i{n}].1;"
        else:
            out += f[i:m.start()] + f"let verif_s{n} = {seq};"
            item = f"verif_s{n}[verif_i{n}]"
            let = ""

            def bind(p, path, ref):
                if p.startswith("("):
                    d, parts, cur = 0, [], ""
                    for c in p[1:-1]:
                        d += (c == "(") - (c == ")")
                        if c == "," and d == 0:
                            parts.append(cur); cur = ""
                        else:
                            cur += c
                    parts.append(cur)
                    return "".join(bind(q, f"{path}.{j}", ref or path != item) for j, q in enumerate(parts))
                if not re.match(r"\w+$", p):
                    raise Lost("pattern")
                return f" let {p} = {'&' if ref else ''}{path};" if p != "_" else ""
            let = bind(pat, item, False)
        inv, first = specs[n]
        out += f" let mut verif_i{n}: usize = 0;\n while verif_i{n} < verif_s{n}.len()\n invariant verif_i{n} <= verif_s{n}@.len(),{inv}\n decreases verif_s{n}@.len() - verif_i{n}\n {{ {let} verif_i{n} += 1; {first}"
        i = m.end()
        n += 1
    if n != len(specs):
        raise Lost("loops")
    return out + f[i:]


def bare(s):
    s = re.sub(r"^\s*//.*\n", "", s, flags=re.M)
    s = re.sub(r"\s+//.*$", "", s, flags=re.M)
    return re.sub(r"^\s*#\[[^\]]*\]\n", "", s, flags=re.M)


def common(f):
    f = re.sub(r"unreachable!\([^)]*\);?", "never()", f)
    f = re.sub(r"(?:HashMap|BTreeMap)(::<[^;]*?>)?::new\(\)", lambda m: f"Table{m[1] or ''}::new()", f)
    f = re.sub(r"\b(?:HashMap|BTreeMap)<", "Table<", f)
    f = re.sub(r"\b(\d+)\.0\b(?:_f64)?", r"num(\1)", f)
    f = re.sub(r"\bf64\b", "F", f)
    f = re.sub(r"\b([a-z_]\w*) == (Combination::\w+|[a-z_]\w*)\b", r"same(&\1, &\2)", f)
    f = re.sub(r"\b([a-z_]\w*) != ([a-z_]\w*)\b", r"!same(&\1, &\2)", f)
    return f


def unit(repo):
    R = lambda p: bare(strip_tests(open(f"{repo}/{p}").read()))
    feat, obs, car = R(FEAT), R(OBSV), R(CARR)
    cf = ""
    for n, post in [("frequency", "hertz(*self)"), ("wavelength", "metres(*self)")]:
        a, b, e = find_fn(car, n)
        f = re.sub(r"\b(\d[\d_]*)\.0(?:E(\d+))?(?:_f64)?\b", lambda m: f"num({m[1]}{'0' * int(m[2] or 0)})", car[a:e])
        cf += splice(f.replace("f64", "F"), n, f"        ensures r.r@ == {post},", ret="r") + "\n"
    of = ""
    for n, post in [("is_pseudo_range_observable", "r == (self is PseudoRange)"), ("is_phase_range_observable", "r == (self is PhaseRange)"), ("is_l1_pivot", "r == is_pivot(*self, constellation)")]:
        a, b, e = find_fn(obs, n)
        of += splice(obs[a:e], n, f"        ensures {post},", ret="r") + "\n"
    text = MODEL.replace("ARITHMETIC", arithmetic()).replace("CARRIER", cf, 1).replace("OBSERVABLE", of, 1)
    text += "#[derive(Clone, Copy)]\n" + find_item(car, r"pub enum Carrier") + "\n" + find_item(obs, r"pub enum Observable") + "\n"
    text += "#[derive(Clone, Copy)]\n" + find_item(feat, r"pub enum Combination") + "\n" + find_item(feat, r"pub struct CombinationKey") + "\n" + find_item(feat, r"pub struct MultipathKey") + "\n"
    text += r"""
#[verifier::external_body]
pub fn clone_key(k: &CombinationKey) -> (r: CombinationKey) ensures r == *k { unimplemented!() }
pub open spec fn pivot_for(s: SignalObservation, sv: SV, ph: bool, v: (&Observable, F, F, F)) -> bool {
    is_pivot(s.observable, s.sv.constellation) && s.sv == sv && (s.observable is PhaseRange) == ph && *v.0 == s.observable && v.1.r@ == hertz(wave(s)) && v.2.r@ == metres(wave(s)) && v.3 == s.value
}
impl Rinex {
"""
    # signals_combination
    a, b, e = find_fn(feat, "signals_combination")
    f = common(feat[a:e])
    f, n = re.subn(r"if let Some\(\((\w+), (\w+), (\w+), (\w+)\)\) =\s*(references\.get\(&[^{]*?\))\s*\{", r"if let Some(verif_r) = \5 { let \1 = &verif_r.0; let \2 = &verif_r.1; let \3 = &verif_r.2; let \4 = &verif_r.3;", f)
    if n != 1:
        raise Lost("reference")
    f, n = re.subn(r"ret\.insert\(combination, ([^;]*)\);", r"let verif_v = \1; proof { REF } ret.insert(combination, verif_v);", f)
    if n != 1:
        raise Lost("result")
    ref = """
        let j = verif_i4 - 1; let s = g[j];
        let r0 = references@[(s.sv, s.observable is PhaseRange)];
        let i = choose|i: int| 0 <= i < g.len() && pivot_for(#[trigger] g[i], s.sv, s.observable is PhaseRange, r0);
        assert(combine(g[i], s));
        assert(combination == key(*k, g[i], s));
        arith(hertz(wave(g[i])), hertz(wave(s)), range(g[i]), range(s));
        assert(verif_v.r@ == definition(verif_c, g[i], s));
        assert(sound_in(verif_c, all_e[verif_i2 - 1], combination, verif_v));
        keep_sound(verif_c, all_e, ret@, combination, verif_v, verif_i2 - 1);
        assert forall|e: int| 0 <= e < verif_i2 - 1 implies complete_in(#[trigger] all_e[e], all_e[e].1.signals@.len() as int, ret@.insert(combination, verif_v)) by { keep_complete_in(all_e[e], all_e[e].1.signals@.len() as int, ret@, combination, verif_v); }
        keep_complete_in(all_e[verif_i2 - 1], j, ret@, combination, verif_v);
        assert(ret@.insert(combination, verif_v).dom().contains(named(*k, g[i].observable, s)));
        assert(found(ret@.insert(combination, verif_v), *k, s));
    """
    f = f.replace("REF", ref)
    a0 = f.index("{", f.index("->")) + 1
    f = f[:a0] + " let ghost verif_c = combination;" + f[a0:]
    mw0 = ("""
        sound(Combination::NarrowLane, self.observations(), g0), complete(self.observations(), g0),
        forall|i: int| 0 <= i < verif_s0@.len() ==> g0.dom().contains((#[trigger] verif_s0@[i]).0) && g0[verif_s0@[i].0] == verif_s0@[i].1,
        forall|l: Lane| #[trigger] narrow_lanes@.dom().contains(l) ==> exists|q: CombinationKey| #[trigger] g0.dom().contains(q) && code_lane(q) && lane(q) == l && narrow_lanes@[l] == g0[q],
        forall|j: int| 0 <= j < verif_i0 && code_lane((#[trigger] verif_s0@[j]).0) ==> narrow_lanes@.dom().contains(lane(verif_s0@[j].0)),""", "")
    mw1 = ("""
        sound(Combination::WideLane, self.observations(), g1), complete(self.observations(), g1),
        forall|i: int| 0 <= i < verif_s1@.len() ==> g1.dom().contains((#[trigger] verif_s1@[i]).0) && g1[verif_s1@[i].0] == verif_s1@[i].1,
        forall|l: Lane| #[trigger] narrow_lanes@.dom().contains(l) ==> exists|q: CombinationKey| #[trigger] g0.dom().contains(q) && code_lane(q) && lane(q) == l && narrow_lanes@[l] == g0[q],
        sound_mw(g1, g0, ret@),
        forall|j: int| 0 <= j < verif_i1 && phase_lane((#[trigger] verif_s1@[j]).0) && narrow_lanes@.dom().contains(lane(verif_s1@[j].0)) ==> ret@.dom().contains(verif_s1@[j].0),""", "")
    base = "verif_c == combination, !(combination is MelbourneWubbena), all_e == self.observations(), verif_s2@ == all_e,"
    eps = (base + """ sound(combination, all_e, ret@),
        forall|e: int| 0 <= e < verif_i2 ==> complete_in(#[trigger] all_e[e], all_e[e].1.signals@.len() as int, ret@),""", "let ghost g = observations.signals@;")
    inner = " " + base + " 0 < verif_i2 <= all_e.len(), all_e[verif_i2 - 1] == (k, observations), g == observations.signals@,"
    rev = (inner + f" verif_s3@.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] verif_s3@[i] == &g[g.len() - 1 - i], {PIV}," + """
        forall|i: int| g.len() - verif_i3 <= i < g.len() && is_pivot((#[trigger] g[i]).observable, g[i].sv.constellation) ==> references@.dom().contains((g[i].sv, g[i].observable is PhaseRange)),""", "let ghost now = references@; assert(*v == g[g.len() - verif_i3]);")
    fwd = (inner + f" verif_s4@.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] verif_s4@[i] == &g[i], {PIV}," + """
        forall|i: int| 0 <= i < g.len() && is_pivot((#[trigger] g[i]).observable, g[i].sv.constellation) ==> references@.dom().contains((g[i].sv, g[i].observable is PhaseRange)),
        sound(combination, all_e, ret@),
        forall|e: int| 0 <= e < verif_i2 - 1 ==> complete_in(#[trigger] all_e[e], all_e[e].1.signals@.len() as int, ret@),
        complete_in(all_e[verif_i2 - 1], verif_i4 as int, ret@),""", "assert(*v == g[verif_i4 - 1]);")
    f = for_loops(f, [mw0, mw1, eps, rev, fwd], None)
    f = f.replace("let verif_s2 =", "let ghost all_e = self.observations(); let verif_s2 =", 1)
    text += splice(f, "signals_combination", "        ensures correct(combination, self.observations(), r@),\n        decreases (if combination is MelbourneWubbena { 1int } else { 0int }),", ret="r") + "\n"
    # signals_multipath
    a, b, e = find_fn(feat, "signals_multipath")
    f = common(feat[a:e])
    f, n = re.subn(r"ret\.insert\((\w+), ([^;]*)\);", r"let verif_v = \2; proof { REF } ret.insert(\1, verif_v);", f)
    if n != 1 or "ret.insert(key," not in f:
        raise Lost("result")
    f = f.replace("REF", """
        let ka = *verif_s2[verif_i2 - 1].0; let kb = *verif_s3[verif_i3 - 1].0; let kc = *verif_s4[verif_i4 - 1].0;
        let x = choose|i: int| 0 <= i < g.len() && is_phi(#[trigger] g[i], ka, phi_m[ka]);
        let y = choose|i: int| 0 <= i < g.len() && is_rho(#[trigger] g[i], kb, rho_m[kb]);
        let z = choose|i: int| 0 <= i < g.len() && is_phi(#[trigger] g[i], kc, phi_m[kc]);
        assert(met(ka, phi_m[ka].0, kb, kc, phi_m[kc].0));
        assert(triple(g[x], g[y], g[z]));
        assert(verif_v.r@ == multipath(g[x], g[y], g[z]));
        assert(key == mkey(*k, g[x], g[z]));
        assert(bias_in(all_e[verif_i0 - 1], key, verif_v));
        assert forall|e: int| 0 <= e < verif_i0 - 1 implies biased_in(#[trigger] all_e[e], ret@.insert(key, verif_v)) by { }
    """)
    held = " all_e == self.observations(), verif_s0@ == all_e, biases(all_e, ret@),"
    past = " forall|e: int| 0 <= e < verif_i0 - 1 ==> biased_in(#[trigger] all_e[e], ret@),"
    now = " 0 < verif_i0 <= all_e.len(), all_e[verif_i0 - 1] == (k, observations), g == observations.signals@,"
    list_of = lambda n, m: f" forall|i: int| 0 <= i < verif_s{n}@.len() ==> {m}.dom().contains(*(#[trigger] verif_s{n}@[i]).0) && {m}[*verif_s{n}@[i].0] == *verif_s{n}@[i].1, forall|k: (SV, Observable)| #[trigger] {m}.dom().contains(k) ==> exists|i: int| 0 <= i < verif_s{n}@.len() && *(#[trigger] verif_s{n}@[i]).0 == k,"
    A, B, C = "*verif_s2@[verif_i2 - 1].0", "*verif_s3@[verif_i3 - 1].0", "kc"
    pairs = lambda up, a: f" forall|x: int, kb: (SV, Observable), kc: (SV, Observable)| 0 <= x < {up} && rho_m.dom().contains(kb) && phi_m.dom().contains(kc) && #[trigger] met(*verif_s2@[x].0, phi_m[*verif_s2@[x].0].0, kb, kc, phi_m[kc].0) ==> ret@.dom().contains(MultipathKey {{ epoch: k.epoch, sv: verif_s2@[x].0.0, signal: verif_s2@[x].0.1, rhs: kc.1 }}),"
    pairs3 = lambda up: f" forall|y: int, kc: (SV, Observable)| 0 <= y < {up} && phi_m.dom().contains(kc) && #[trigger] met({A}, phi_m[{A}].0, *verif_s3@[y].0, kc, phi_m[kc].0) ==> ret@.dom().contains(MultipathKey {{ epoch: k.epoch, sv: verif_s2@[verif_i2 - 1].0.0, signal: verif_s2@[verif_i2 - 1].0.1, rhs: kc.1 }}),"
    pairs4 = f" forall|z: int| 0 <= z < verif_i4 && #[trigger] met({A}, phi_m[{A}].0, {B}, *verif_s4@[z].0, phi_m[*verif_s4@[z].0].0) ==> ret@.dom().contains(MultipathKey {{ epoch: k.epoch, sv: verif_s2@[verif_i2 - 1].0.0, signal: verif_s2@[verif_i2 - 1].0.1, rhs: verif_s4@[z].0.1 }}),"
    maps = " stored(g, g.len() as int, rho_m, phi_m), phi@ == phi_m,"
    i2 = " 0 < verif_i2 <= verif_s2@.len(),"
    i3 = " 0 < verif_i3 <= verif_s3@.len(),"
    f = for_loops(f, [
        (held + " forall|e: int| 0 <= e < verif_i0 ==> biased_in(#[trigger] all_e[e], ret@),", "let ghost g = observations.signals@;"),
        (now + held.replace(" biases(all_e, ret@),", "") + " verif_s1@.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> #[trigger] verif_s1@[i] == &g[i], stored(g, verif_i1 as int, rho@, phi@),", "assert(*v == g[verif_i1 - 1]);"),
        (now + held + past + maps + " rho@ == rho_m," + list_of(2, "phi_m") + pairs("verif_i2", ""), ""),
        (now + held + past + maps + i2 + list_of(2, "phi_m") + list_of(3, "rho_m") + pairs("verif_i2 - 1", "") + " HEAD2" + pairs3("verif_i3"), ""),
        (now + held + past + maps + i2 + i3 + list_of(2, "phi_m") + list_of(3, "rho_m") + list_of(4, "phi_m") + pairs("verif_i2 - 1", "") + " HEAD3" + pairs3("verif_i3 - 1") + pairs4, ""),
    ], None)
    f = f.replace("HEAD2", "").replace("HEAD3", "")
    f = f.replace("let verif_s0 =", "let ghost all_e = self.observations(); let verif_s0 =", 1)
    f = f.replace("let verif_s2 =", "let ghost rho_m = rho@; let ghost phi_m = phi@; let verif_s2 =", 1)
    i = match_brace(f, f.index("{", f.index("decreases verif_s2@.len()")))
    f = f[:i] + """ proof {
            assert forall|x: int, y: int, z: int| 0 <= x < g.len() && 0 <= y < g.len() && 0 <= z < g.len() && #[trigger] triple(g[x], g[y], g[z]) implies ret@.dom().contains(mkey(*k, g[x], g[z])) by {
                let ka = (g[x].sv, g[x].observable); let kb = (g[y].sv, g[y].observable); let kc = (g[z].sv, g[z].observable);
                assert(rho_m.dom().contains(kb) && phi_m.dom().contains(ka) && phi_m.dom().contains(kc));
                let i = choose|i: int| 0 <= i < verif_s2@.len() && *(#[trigger] verif_s2@[i]).0 == ka;
                let m = choose|i: int| 0 <= i < g.len() && is_phi(#[trigger] g[i], ka, phi_m[ka]);
                let n = choose|i: int| 0 <= i < g.len() && is_phi(#[trigger] g[i], kc, phi_m[kc]);
                assert(met(*verif_s2@[i].0, phi_m[*verif_s2@[i].0].0, kb, kc, phi_m[kc].0));
            }
            assert(biased_in(all_e[verif_i0 - 1], ret@));
        } """ + f[i:]
    text += "#[verifier::loop_isolation(false)]\n" + splice(f, "signals_multipath", "        ensures biases(self.observations(), r@), forall|e: int| 0 <= e < self.observations().len() ==> biased_in(#[trigger] self.observations()[e], r@),", ret="r") + "\n"
    text += "}\n" + r"""
pub proof fn arith(f1: real, f2: real, a: real, b: real)
    ensures f1 * f1 * a + (0real - f2 * f2) * b == f1 * f1 * a - f2 * f2 * b, f1 * a + (0real - f2) * b == f1 * a - f2 * b,
        1real * a + (0real - 1real) * b == a - b, 1real * b + (0real - 1real) * a == b - a, (a - b) / 1real == a - b, (b - a) / 1real == b - a
{ assert(f1 * f1 * a + (0real - f2 * f2) * b == f1 * f1 * a - f2 * f2 * b) by (nonlinear_arith); assert(f1 * a + (0real - f2) * b == f1 * a - f2 * b) by (nonlinear_arith); assert((a - b) / 1real == a - b) by (nonlinear_arith); assert((b - a) / 1real == b - a) by (nonlinear_arith); }
"""
    return text + "fn canary(r: &Rinex) { let i = r.observations_iter(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
