"""Observations::format_v2, format_v3 and their epoch lines
(src/observation/formatting.rs): what is written, over any number of vehicles,
observables and lines."""
import re
from extract import *

FILE = "src/observation/formatting.rs"
DROPS = [
    "`write!(w, FORMAT, a, ..)?` -> `w.putN(FORMAT, &a, ..)?`, whose result is the text of `w` followed by an opaque function of the format and its arguments; `'\\n'` -> `w.newline()?`; a format without argument -> `w.lit(..)?`",
    "`&mut BufWriter<W>` -> an opaque sink, whose errors are those of the library",
    "`for x in l.iter()`, `for (n, x) in l.iter().enumerate()` -> a loop over the indexes; `.filter(|sv| ..)` of a loop -> a condition around its body",
    "`signals.iter().filter(this vehicle and this observable).reduce(|k, _| k)` -> a function with the contract `the first of them`",
    "the list of constellations of an epoch (unique, sorted) -> a function of the list of vehicles",
    "`HashMap<Constellation, Vec<Observable>>` -> an opaque finite map with the same `get`",
    "the constant BLANKING is replaced with its value",
]
TRUSTED = [
    "what a format produces is a function of the format and of its arguments (P23 samples that every cell has the width of the standard)",
    "HashMap::get, Iterator::{filter, reduce, unique, sorted}",
]
CONTRACTS = ["Observations::format_v2", "Observations::format_epoch_v2", "Observations::format_v3", "Observations::format_epoch_v3"]
CANARIES = ["canary"]

MODEL = r"""use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Constellation { GPS, Glonass, BeiDou, QZSS, Galileo, IRNSS, SBAS, Mixed, Other(u8) }
pub uninterp spec fn sbas(c: Constellation) -> bool;
impl Constellation {
    #[verifier::external_body]
    pub fn is_sbas(&self) -> (r: bool) ensures r == sbas(*self) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: Constellation }
pub struct Observable { c: u8 }
#[derive(Clone, Copy)]
pub struct LliFlags { b: u8 }
impl LliFlags {
    pub uninterp spec fn spec_bits(self) -> u8;
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u8) ensures r == self.spec_bits() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SNR { b: u8 }
pub struct SignalObservation { pub sv: SV, pub observable: Observable, pub value: f64, pub lli: Option<LliFlags>, pub snr: Option<SNR> }
#[derive(Clone, Copy)]
pub struct ClockObservation { pub offset_s: f64 }
pub struct Observations { pub clock: Option<ClockObservation>, pub signals: Vec<SignalObservation> }
#[derive(Clone, Copy)]
pub struct Epoch { e: u8 }
#[derive(Clone, Copy)]
pub struct EpochFlag { e: u8 }
pub struct ObsKey { pub epoch: Epoch, pub flag: EpochFlag }
pub enum RinexType { ObservationData }
pub enum FormattingError { MissingObservableDefinition, Other }
#[verifier::external_body]
pub struct Codes { c: u8 }
impl Codes {
    pub uninterp spec fn spec_get(&self, c: Constellation) -> Option<Seq<Observable>>;
    #[verifier::external_body]
    pub fn get(&self, c: &Constellation) -> (r: Option<&Vec<Observable>>)
        ensures match r { Some(v) => self.spec_get(*c) == Some(v@), None => self.spec_get(*c) is None }
    { unimplemented!() }
}
pub struct HeaderFields { pub codes: Codes }
pub open spec fn codes_of(codes: Codes, sv: SV) -> Option<Seq<Observable>> {
    if sbas(sv.constellation) { codes.spec_get(Constellation::SBAS) } else { codes.spec_get(sv.constellation) }
}
pub uninterp spec fn date(e: Epoch, v: int) -> Seq<char>;
#[verifier::external_body]
pub fn epoch_format(e: Epoch, t: RinexType, v: u8) -> (r: String) ensures r@ == date(e, v as int) { unimplemented!() }

/// what is written, behind any number of references
pub enum Item { F64(f64), Lli(LliFlags), Snr(SNR), Sv(SV), U8(u8), Usize(usize), Str(Seq<char>), Flag(EpochFlag) }
pub trait ToItem { spec fn item(&self) -> Item; }
impl ToItem for f64 { open spec fn item(&self) -> Item { Item::F64(*self) } }
impl ToItem for u8 { open spec fn item(&self) -> Item { Item::U8(*self) } }
impl ToItem for usize { open spec fn item(&self) -> Item { Item::Usize(*self) } }
impl ToItem for str { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl ToItem for String { open spec fn item(&self) -> Item { Item::Str(self@) } }
impl ToItem for LliFlags { open spec fn item(&self) -> Item { Item::Lli(*self) } }
impl ToItem for SNR { open spec fn item(&self) -> Item { Item::Snr(*self) } }
impl ToItem for SV { open spec fn item(&self) -> Item { Item::Sv(*self) } }
impl ToItem for EpochFlag { open spec fn item(&self) -> Item { Item::Flag(*self) } }
impl<T: ToItem + ?Sized> ToItem for &T { open spec fn item(&self) -> Item { (**self).item() } }
pub uninterp spec fn r1(f: Seq<char>, a: Item) -> Seq<u8>;
pub uninterp spec fn r3(f: Seq<char>, a: Item, b: Item, c: Item) -> Seq<u8>;
pub uninterp spec fn r4(f: Seq<char>, a: Item, b: Item, c: Item, d: Item) -> Seq<u8>;
#[verifier::external_body]
pub struct Out { o: u8 }
impl View for Out { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Out {
    #[verifier::external_body]
    pub fn newline(&mut self) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + seq![10u8] { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn put1<A: ToItem>(&mut self, f: &str, a: &A) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + r1(f@, a.item()) { unimplemented!() }
    #[verifier::external_body]
    pub fn put3<A: ToItem, B: ToItem, C: ToItem>(&mut self, f: &str, a: &A, b: &B, c: &C) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + r3(f@, a.item(), b.item(), c.item()) { unimplemented!() }
    #[verifier::external_body]
    pub fn put4<A: ToItem, B: ToItem, C: ToItem, D: ToItem>(&mut self, f: &str, a: &A, b: &B, c: &C, d: &D) -> (r: Result<(), FormattingError>) ensures r is Ok ==> final(self)@ == old(self)@ + r4(f@, a.item(), b.item(), c.item(), d.item()) { unimplemented!() }
}
/// the first observation of that vehicle and observable
pub open spec fn first(s: Seq<SignalObservation>, sv: SV, o: Observable) -> Option<SignalObservation> decreases s.len() {
    if s.len() == 0 { None } else if s[0].sv == sv && s[0].observable == o { Some(s[0]) } else { first(s.subrange(1, s.len() as int), sv, o) }
}
impl Observations {
    #[verifier::external_body]
    pub fn signal_of(&self, sv: &SV, o: &Observable) -> (r: Option<&SignalObservation>)
        ensures match r { Some(x) => first(self.signals@, *sv, *o) == Some(*x), None => first(self.signals@, *sv, *o) is None }
    { unimplemented!() }
}
pub uninterp spec fn systems(l: Seq<SV>) -> Seq<Constellation>;
#[verifier::external_body]
pub fn systems_of(l: &[SV]) -> (r: Vec<Constellation>) ensures r@ == systems(l@) { unimplemented!() }

pub open spec fn blank() -> Seq<u8> { r1("{}"@, Item::Str("                "@)) }
pub open spec fn space() -> Seq<u8> { " ".spec_bytes() }
/// 14 columns of value, then the two flags
pub open spec fn cell_v2(s: Seq<SignalObservation>, sv: SV, o: Observable) -> Seq<u8> {
    match first(s, sv, o) {
        None => blank(),
        Some(x) => r1("{:14.3}"@, Item::F64(x.value)) + (match x.lli { Some(f) => r1("{:x}"@, Item::Lli(f)), None => space() }) + (match x.snr { Some(f) => r1("{:x}"@, Item::Snr(f)), None => space() }),
    }
}
pub open spec fn cell_v3(s: Seq<SignalObservation>, sv: SV, o: Observable) -> Seq<u8> {
    match first(s, sv, o) {
        None => blank(),
        Some(x) => r1("{:14.3}"@, Item::F64(x.value)) + (match x.lli { Some(f) => r1("{}"@, Item::U8(f.spec_bits())), None => space() }) + (match x.snr { Some(f) => r1("{:x}"@, Item::Snr(f)), None => space() }),
    }
}
pub open spec fn nl() -> Seq<u8> { seq![10u8] }
/// V2: five observations per line
pub open spec fn row_v2(s: Seq<SignalObservation>, sv: SV, c: Seq<Observable>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { row_v2(s, sv, c, n - 1) + cell_v2(s, sv, c[n - 1]) + (if n % 5 == 0 { nl() } else { Seq::empty() }) }
}
pub open spec fn lines_v2(s: Seq<SignalObservation>, sv: SV, c: Seq<Observable>) -> Seq<u8> {
    row_v2(s, sv, c, c.len() as int) + (if c.len() == 0 || c.len() % 5 != 0 { nl() } else { Seq::empty() })
}
pub open spec fn body_v2(s: Seq<SignalObservation>, codes: Codes, l: Seq<SV>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { body_v2(s, codes, l, n - 1) + lines_v2(s, l[n - 1], codes_of(codes, l[n - 1]).unwrap()) }
}
/// V2: twelve vehicles per line
pub open spec fn list_v2(l: Seq<SV>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        list_v2(l, n - 1)
            + (if n > 1 && (n - 1) % 12 == 0 { r1("{}"@, Item::Str("                                "@)) } else { Seq::empty() })
            + r1("{:x}"@, Item::Sv(l[n - 1]))
            + (if n == l.len() || n % 12 == 0 { nl() } else { Seq::empty() })
    }
}
pub open spec fn epoch_v2(k: ObsKey, l: Seq<SV>) -> Seq<u8> {
    r3(" {}  {} {:2}"@, Item::Str(date(k.epoch, 2)), Item::Flag(k.flag), Item::Usize(l.len() as usize)) + list_v2(l, l.len() as int)
}
pub open spec fn row_v3(s: Seq<SignalObservation>, sv: SV, c: Seq<Observable>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { row_v3(s, sv, c, n - 1) + cell_v3(s, sv, c[n - 1]) }
}
pub open spec fn line_v3(s: Seq<SignalObservation>, sv: SV, c: Seq<Observable>) -> Seq<u8> {
    r1("{:x}"@, Item::Sv(sv)) + row_v3(s, sv, c, c.len() as int) + nl()
}
/// V3: one line per vehicle of that system
pub open spec fn system_v3(s: Seq<SignalObservation>, codes: Codes, l: Seq<SV>, g: Constellation, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        system_v3(s, codes, l, g, n - 1) + (if l[n - 1].constellation == g { line_v3(s, l[n - 1], codes_of(codes, l[n - 1]).unwrap()) } else { Seq::empty() })
    }
}
pub open spec fn body_v3(s: Seq<SignalObservation>, codes: Codes, l: Seq<SV>, g: Seq<Constellation>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { body_v3(s, codes, l, g, n - 1) + system_v3(s, codes, l, g[n - 1], l.len() as int) }
}
pub open spec fn epoch_v3(clock: Option<ClockObservation>, k: ObsKey, n: usize) -> Seq<u8> {
    (match clock {
        Some(c) => r4("> {}  {} {:2}  {:13.4}"@, Item::Str(date(k.epoch, 3)), Item::Flag(k.flag), Item::Usize(n), Item::F64(c.offset_s)),
        None => r3("> {}  {} {:2}"@, Item::Str(date(k.epoch, 3)), Item::Flag(k.flag), Item::Usize(n)),
    }) + nl()
}
"""

# a writer that succeeds: the axioms do not contradict each other
CANARY = r"""
fn canary(o: &Observations, k: &ObsKey, l: &[SV], w: &mut Out, h: &HeaderFields)
{
    let r = o.format_v2(w, k, h, l, l.len());
    if r.is_ok() { assert(false); }
}
"""


def writes(f):
    """write!(w, FORMAT, a, ..)? -> w.putN(FORMAT, &a, ..)?"""
    out, i = "", 0
    for m in re.finditer(r"\bwrite(ln)?!\(", f):
        if m.start() < i:
            continue
        d, j, q = 0, m.end() - 1, False
        while True:
            c = f[j]
            if q:
                if c == "\\":
                    j += 1
                elif c == '"':
                    q = False
            elif c == '"':
                q = True
            elif c == "'" and re.match(r"'(\\.|[^'\\])'", f[j:]):
                j += re.match(r"'(\\.|[^'\\])'", f[j:]).end() - 1
            elif c in "([{":
                d += 1
            elif c in ")]}":
                d -= 1
                if d == 0:
                    break
            j += 1
        inner = f[m.end():j]
        # split at the commas of the outer level
        args, d, k, q, cur = [], 0, 0, False, ""
        for c in inner:
            if c == '"':
                q = not q
            if not q and c in "([{":
                d += 1
            if not q and c in ")]}":
                d -= 1
            if c == "," and d == 0 and not q:
                args.append(cur.strip())
                cur = ""
            else:
                cur += c
        if cur.strip():
            args.append(cur.strip())
        if not args or f[j + 1:j + 2] != "?":
            raise Lost("write!")
        w, a = args[0], args[1:]
        if (a == ['"{}"', r"'\n'"] or a == [r'"\n"'] or not a) and not (m[1] and a):
            t = f"{w}.newline()"
        elif len(a) == 1:
            t = f"{w}.lit({a[0]})"
        elif len(a) in (2, 4, 5):
            t = f"{w}.put{len(a) - 1}({a[0]}, " + ", ".join("&" + x for x in a[1:]) + ")"
        else:
            raise Lost("write! with %d arguments" % (len(a) - 1))
        out += f[i:m.start()] + t + (f"?; {w}.newline()" if m[1] and a else "")
        i = j + 1
    return out + f[i:]


def consts(f):
    for m in list(re.finditer(r'const (\w+): &str = ("[^"]*");', f)):
        f = f.replace(m[0], "")
        f = re.sub(r"\b%s\b" % m[1], lambda _: m[2], f)
    return f


def once(f, pat, new, what):
    f, n = re.subn(pat, new, f, flags=re.S)
    if n != 1:
        raise Lost(what)
    return f


def method(s, name):
    a, b, e = find_fn(s, name)
    f = s[a:e]
    f = once(f, r"<W: Write>", "", "writer of " + name)
    f = once(f, r"&mut BufWriter<W>", "&mut Out", "writer of " + name)
    f = re.sub(r"self\s*\.signals\s*\.iter\(\)\s*\.filter\(\|sig\| (?:&sig\.sv == sv|sig\.sv == \*sv) && (?:&sig\.observable == observable|sig\.observable == \*observable)\)\s*\.(?:reduce\(\|k, _\| k\)|next\(\))", "self.signal_of(sv, observable)", f)
    f = re.sub(r"for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{", r"for \1 in 0..\3.len() { let \2 = &\3[\1];", f)
    f = re.sub(r"for (\w+) in (\w+)\.iter\(\) \{", r"for k_\1 in 0..\2.len() { let \1 = &\2[k_\1];", f)
    return writes(consts(f)).replace("&*&", "&")


def invariant(f, head, inv, post=""):
    """the clauses of the loop that starts with `head`"""
    return once(f, re.escape(head) + r" \{", lambda m: head + "\n            invariant\n                " + inv + "\n        {" + post, "loop " + head)


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    e2 = method(s, "format_epoch_v2")
    e2 = invariant(e2, "for nth in 0..sv_list.len()", "numsat == sv_list.len(), NUM_SV_PER_LINE == 12, w@ =~= from + list_v2(sv_list@, nth as int),",
        " proof { reveal_with_fuel(list_v2, 2); assert(((nth + 1) % 12 == 0) == (nth % 12 == 11)); }")
    e2 = once(e2, r"(for nth in)", r"let ghost from = w@;\n        \1", "loop over the vehicles")
    e2 = splice(e2, "format_epoch_v2", """    requires numsat == sv_list.len(),
    ensures r is Ok ==> final(w)@ == old(w)@ + epoch_v2(*key, sv_list@),""", ret="r")
    e2 = once(e2, r"Ok\(\(\)\)\s*\}$", "proof { assert(w@ =~= old(w)@ + epoch_v2(*key, sv_list@)); }\n        Ok(())\n    }", "end of format_epoch_v2")

    v2 = method(s, "format_v2")
    v2 = invariant(v2, "for nth in 0..observables.len()", """OBSERVATIONS_PER_LINE == 5, 0 <= modulo < 5, nth > 0 ==> modulo == (nth - 1) % 5, nth == 0 ==> modulo == 0,
                w@ =~= row + row_v2(self.signals@, *sv, observables@, nth as int),""", " proof { assert(((nth + 1) % 5 == 0) == (nth % 5 == 4)); }")
    v2 = once(v2, r"(for nth in)", r"let ghost row = w@;\n        \1", "loop over the observables")
    v2 = invariant(v2, "for k_sv in 0..sv_list.len()", """OBSERVATIONS_PER_LINE == 5, observables == header.codes,
                w@ =~= from + body_v2(self.signals@, header.codes, sv_list@, k_sv as int),
                forall|k: int| 0 <= k < k_sv ==> codes_of(header.codes, #[trigger] sv_list@[k]) is Some,""")
    v2 = once(v2, r"(for k_sv in)", r"let ghost from = w@;\n        \1", "loop over the vehicles")
    v2 = splice(v2, "format_v2", """    requires numsat == sv_list.len(),
    ensures r is Ok ==> {
        &&& final(w)@ == old(w)@ + epoch_v2(*key, sv_list@) + body_v2(self.signals@, header.codes, sv_list@, sv_list@.len() as int)
        &&& forall|k: int| 0 <= k < sv_list@.len() ==> codes_of(header.codes, #[trigger] sv_list@[k]) is Some
    },""", ret="r")

    e3 = method(s, "format_epoch_v3")
    e3 = splice(e3, "format_epoch_v3", "    ensures r is Ok ==> final(w)@ == old(w)@ + epoch_v3(self.clock, *key, numsat),", ret="r")
    e3 = once(e3, r"Ok\(\(\)\)\s*\}$", "proof { assert(w@ =~= old(w)@ + epoch_v3(self.clock, *key, numsat)); }\n        Ok(())\n    }", "end of format_epoch_v3")

    v3 = method(s, "format_v3")
    v3 = once(v3, r"sv_list\s*\.iter\(\)\s*\.map\(\|sv\| sv\.constellation\)\s*\.unique\(\)\s*\.sorted\(\)\s*\.collect::<Vec<_>>\(\)", "systems_of(sv_list)", "list of systems")
    m = re.search(r"for sv in sv_list\.iter\(\)\.filter\(\|sv\| (sv\.constellation == \*constell)\) \{", v3)
    if not m:
        raise Lost("loop over the vehicles of a system")
    end = match_brace(v3, m.end() - 1)
    v3 = v3[:m.start()] + "for k_sv in 0..sv_list.len() { let sv = &sv_list[k_sv]; if " + m[1] + " {" + v3[m.end():end] + "}" + v3[end:]
    v3 = invariant(v3, "for k_observable in 0..observables.len()", "w@ =~= row + row_v3(self.signals@, *sv, observables@, k_observable as int),")
    v3 = once(v3, r"(for k_observable in)", r"let ghost row = w@;\n        \1", "loop over the observables")
    v3 = invariant(v3, "for k_sv in 0..sv_list.len()", """observables == header.codes,
                w@ =~= part + system_v3(self.signals@, header.codes, sv_list@, *constell, k_sv as int),
                forall|k: int| 0 <= k < k_sv && (#[trigger] sv_list@[k]).constellation == *constell ==> codes_of(header.codes, sv_list@[k]) is Some,""")
    v3 = once(v3, r"(for k_sv in)", r"let ghost part = w@;\n        \1", "loop over the vehicles")
    v3 = invariant(v3, "for k_constell in 0..constell_list.len()", """observables == header.codes, constell_list@ == systems(sv_list@),
                w@ =~= from + body_v3(self.signals@, header.codes, sv_list@, systems(sv_list@), k_constell as int),""")
    v3 = once(v3, r"(for k_constell in)", r"let ghost from = w@;\n        \1", "loop over the systems")
    v3 = splice(v3, "format_v3", """    ensures r is Ok ==> final(w)@ == old(w)@ + epoch_v3(self.clock, *key, numsat)
        + body_v3(self.signals@, header.codes, sv_list@, systems(sv_list@), systems(sv_list@).len() as int),""", ret="r")
    return MODEL + "impl Observations {\n" + e2 + v2 + e3 + v3 + "}\n" + CANARY + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
