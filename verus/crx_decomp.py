"""DecompressorExpert (src/hatanaka/decompressor/mod.rs): what every line of a
compressed file is expanded to, over any number of vehicles and observables,
and the absence of panics over any sequence of lines."""
import re
from extract import *
import strs, obsmodel

FILE = "src/hatanaka/decompressor/mod.rs"
DROPS = [
    strs.DROP,
    "`String` -> an opaque text with the same operations; `x.to_string()`, `String::with_capacity` on it -> functions with that contract",
    "`buf[a..b].copy_from_slice(t)` -> `copy_into(buf, a, b, t)`, which requires a <= b <= buf.len() and b - a == t.len()",
    "`format!(FORMAT, x as f64 / D)`, `format!(FORMAT, x)` -> an opaque function of the format, x and D",
    "`for x in &l`, `for x in [..]`, `.iter().skip(n)` -> a loop over the indexes",
    "`x |= c` on a bool -> `if c { x = true; }`",
    "the HashMaps -> opaque finite maps with the same get, get_mut, insert, remove, clear, retain",
    "`line.trim_end_matches(|c| c == '\\n' || c == '\\r')` -> `trim_eol(line)`",
    "NumDiff, TextDiff -> their contracts, which P05 and P06 prove",
]
TRUSTED = strs.TRUSTED + [
    "HashMap::{get, get_mut, insert, remove, clear, retain}; slice::copy_from_slice; String::{replace_range, len, as_bytes}",
    "NumDiff: functions of the history (their values are proved by P05), which do not overflow while the values remain below 1e15",
    "SV::from_str, PRN parsing: functions of their text",
    "usize is 64 bits; a text of one character denotes a number of one digit",
    "the number of observables of a header is below 2^32",
]
CONTRACTS = ["decompress", "run_epoch", "init_epoch", "format_epoch", "format_epoch_v3", "format_epoch_v1", "run_clock", "run_observation", "recover_observation", "next_sv", "epoch_numsat", "next_numobs", "get_observables", "write_flags", "write_v1_flags", "write_v3_flags", "size_to_produce"]
CANARIES = ["canary"]

MODEL = obsmodel.MODEL.split("pub struct SignalObservation")[0] + strs.fromstr("SV") + r"""
pub trait VMin { fn vmin(self, b: usize) -> usize; }
impl VMin for usize { fn vmin(self, b: usize) -> (r: usize) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }
global size_of usize == 8;
pub enum Error { BufferOverflow, EpochFormat, SVParsing, BadV3Format, BadV1Format, Other }
/// unlike obsmodel's, with the bound on the length
impl Codes {
    #[verifier::external_body]
    pub fn of(&self, c: &Constellation) -> (r: Option<&Vec<Observable>>)
        ensures match r { Some(v) => self.spec_get(*c) == Some(v@) && v@.len() < 0x1_0000_0000, None => self.spec_get(*c) is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Text { s: String }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Text {
    #[verifier::external_body]
    pub fn blank(n: usize) -> (r: Text) ensures r@ == blanks(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn of(s: &str) -> (r: Text) ensures r@ == s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn as_text(&self) -> (r: &str) ensures r.spec_bytes() == self@ { unimplemented!() }
    /// replace_range(a..b, " ")
    #[verifier::external_body]
    pub fn replace_blank(&mut self, a: usize, b: usize)
        requires a + 1 == b, b <= old(self)@.len(), ascii(old(self)@)
        ensures final(self)@ == old(self)@.update(a as int, 32)
    { unimplemented!() }
}
impl Cut for Text {
    open spec fn cut_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn cut(&self, a: usize, b: usize) -> &str { unimplemented!() }
    #[verifier::external_body]
    fn cut_from(&self, a: usize) -> &str { unimplemented!() }
    #[verifier::external_body]
    fn get_cut(&self, a: usize, b: usize) -> Option<&str> { unimplemented!() }
    #[verifier::external_body]
    fn get_from(&self, a: usize) -> Option<&str> { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_into(buf: &mut [u8], a: usize, b: usize, t: &[u8])
    requires a <= b <= old(buf)@.len(), b - a == t@.len()
    ensures final(buf)@ == old(buf)@.subrange(0, a as int) + t@ + old(buf)@.subrange(b as int, old(buf)@.len() as int),
        final(buf)@.subrange(0, b as int) =~= old(buf)@.subrange(0, a as int) + t@, final(buf)@.len() == old(buf)@.len(),
{ buf[a..b].copy_from_slice(t) }
pub fn set_at(buf: &mut [u8], a: usize, x: u8)
    requires a < old(buf)@.len()
    ensures final(buf)@ == old(buf)@.update(a as int, x), final(buf)@.len() == old(buf)@.len(), final(buf)@.subrange(0, a + 1) == old(buf)@.subrange(0, a as int).push(x)
{
    buf[a] = x;
    proof { assert(buf@.subrange(0, a + 1) =~= old(buf)@.subrange(0, a as int).push(x)); }
}
/// one character denotes one digit at most
pub axiom fn digit(b: Seq<u8>) ensures b.len() <= 1 && parsed::<i64>(b) is Some ==> -9 <= parsed::<i64>(b)->0 <= 9;
pub proof fn rtrim_len(b: Seq<u8>) ensures rtrim(b).len() <= b.len() decreases b.len() { if b.len() > 0 && white(b.last()) { rtrim_len(b.drop_last()); } }
pub proof fn trim_len(b: Seq<u8>) ensures trim(b).len() <= b.len() { ltrim_len(b); rtrim_len(ltrim(b)); }
pub proof fn ltrim_len(b: Seq<u8>) ensures ltrim(b).len() <= b.len() decreases b.len() { if b.len() > 0 && white(b[0]) { ltrim_len(b.subrange(1, b.len() as int)); } }
#[verifier::external_body]
pub fn slice_of(t: &[u8], a: usize, b: usize) -> (r: &[u8])
    requires a <= b <= t@.len()
    ensures r@ == t@.subrange(a as int, b as int)
{ &t[a..b] }
pub open spec fn eol(c: u8) -> bool { c == 10 || c == 13 }
pub open spec fn rtrim_eol(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && eol(b.last()) { rtrim_eol(b.drop_last()) } else { b } }
#[verifier::external_body]
pub fn trim_eol(s: &str) -> (r: &str)
    ensures r.spec_bytes() == rtrim_eol(s.spec_bytes()), ascii(s.spec_bytes()) ==> ascii(r.spec_bytes())
{ unimplemented!() }
pub uninterp spec fn printed(f: Seq<char>, v: i64, d: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn format_value(f: &str, v: i64, d: &str) -> (r: Text) ensures r@ == printed(f@, v, d@) { unimplemented!() }
#[verifier::external_body]
pub fn div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int) { unimplemented!() }

// ---- the kernels
#[verifier::external_body]
pub struct NumDiff<const M: usize> { m: u8 }
pub struct Hist { pub h: Seq<int>, pub m: int, pub level: int }
pub uninterp spec fn nd_new(v: i64, level: usize) -> Hist;
pub uninterp spec fn nd_init(k: Hist, v: i64, level: usize) -> Hist;
pub uninterp spec fn nd_next(k: Hist, v: i64) -> Hist;
pub uninterp spec fn nd_val(k: Hist, v: i64) -> i64;
/// every value of the history is valid
pub uninterp spec fn nd_ok(k: Hist) -> bool;
pub open spec fn valid(v: i64) -> bool { -1_000_000_000_000_000 < v < 1_000_000_000_000_000 }
impl<const M: usize> View for NumDiff<M> { type V = Hist; uninterp spec fn view(&self) -> Hist; }
impl<const M: usize> NumDiff<M> {
    #[verifier::external_body]
    pub fn new(v: i64, level: usize) -> (r: Self) requires level <= M, valid(v) ensures r@ == nd_new(v, level), nd_ok(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn force_init(&mut self, v: i64, level: usize) requires level <= M, valid(v), nd_ok(old(self)@) ensures final(self)@ == nd_init(old(self)@, v, level), nd_ok(final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn decompress(&mut self, v: i64) -> (r: i64) requires valid(v), nd_ok(old(self)@) ensures final(self)@ == nd_next(old(self)@, v), r == nd_val(old(self)@, v), valid(r) ==> nd_ok(final(self)@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Kernels<const M: usize> { m: u8 }
impl<const M: usize> View for Kernels<M> { type V = Map<(SV, usize), Hist>; uninterp spec fn view(&self) -> Map<(SV, usize), Hist>; }
impl<const M: usize> Kernels<M> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &(SV, usize)) -> (r: Option<&mut NumDiff<M>>)
        ensures match r { Some(x) => old(self)@.dom().contains(*k) && x@ == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, (*final(x))@), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (SV, usize), v: NumDiff<M>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &(SV, usize)) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
}
pub open spec fn max(a: int, b: int) -> int { if a > b { a } else { b } }
/// P06: blank keeps the byte, & blanks it, anything else replaces it
pub open spec fn applied(h: Seq<u8>, d: Seq<u8>, i: int) -> u8;
pub open spec fn apply(h: Seq<u8>, d: Seq<u8>) -> Seq<u8> { Seq::new(max(h.len() as int, d.len() as int) as nat, |i: int| applied(h, d, i)) }
#[verifier::external_body]
pub struct TextDiff { m: u8 }
impl View for TextDiff { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl TextDiff {
    #[verifier::external_body]
    pub fn new_blank(n: usize) -> (r: Self) ensures r@ == blanks(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn force_init(&mut self, s: &str) ensures final(self)@ == s.spec_bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn decompressed(&mut self, d: &str) -> (r: Text)
        requires ascii(old(self)@), ascii(d.spec_bytes())
        ensures final(self)@ == apply(old(self)@, d.spec_bytes()), r@ == final(self)@, ascii(r@)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Flags { m: u8 }
impl View for Flags { type V = Map<SV, Seq<u8>>; uninterp spec fn view(&self) -> Map<SV, Seq<u8>>; }
impl Flags {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &SV) -> (r: Option<&mut TextDiff>)
        ensures match r { Some(x) => old(self)@.dom().contains(*k) && x@ == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, (*final(x))@), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &SV) -> (r: Option<&TextDiff>)
        ensures match r { Some(x) => self@.dom().contains(*k) && x@ == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: SV, v: TextDiff) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<SV, Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn keep(&mut self, l: &Vec<SV>) ensures final(self)@ == old(self)@.restrict(l@.to_set()) { unimplemented!() }
}
"""
MODEL = MODEL.replace("pub open spec fn applied(h: Seq<u8>, d: Seq<u8>, i: int) -> u8;", """pub open spec fn applied(h: Seq<u8>, d: Seq<u8>, i: int) -> u8 {
    if i < d.len() && d[i] != 32 { if d[i] == 38 { 32 } else { d[i] } } else if i < h.len() { h[i] } else { 32 }
}""")

SPEC = r"""
/// the name of a vehicle of an epoch; V1: the constellation may be omitted
pub open spec fn named(v3: bool, c: Constellation, b: Seq<u8>) -> Option<SV> {
    match parsed::<SV>(b) {
        Some(sv) => Some(sv),
        None => if v3 || c == Constellation::Mixed { None } else { match parsed::<u8>(b) { Some(prn) => Some(SV { prn, constellation: c }), None => None } },
    }
}
pub open spec fn numobs_of(codes: Codes, sv: SV) -> int {
    match codes.spec_get(Constellation::Mixed) { Some(l) => l.len() as int, None => match codes.spec_get(if sbas(sv.constellation) { Constellation::SBAS } else { sv.constellation }) { Some(l) => l.len() as int, None => 0 } }
}
/// the text after column n, and its first word
pub open spec fn rest(l: Seq<u8>, n: int) -> Seq<u8> { l.subrange(min(n, l.len() as int), l.len() as int) }
pub open spec fn word(l: Seq<u8>, n: int) -> Seq<u8> { rest(l, n).subrange(0, index_of(rest(l, n), 32)) }
/// where field n starts: fields are separated by one blank
pub open spec fn field_at(l: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { field_at(l, n - 1) + word(l, field_at(l, n - 1)).len() + 1 } }
pub open spec fn field(l: Seq<u8>, n: int) -> Seq<u8> { word(l, field_at(l, n)) }
/// one field: `level&value` restarts the arc, a number continues it
pub open spec fn recovered(ks: Map<(SV, usize), Hist>, sv: SV, ptr: usize, b: Seq<u8>, m: int) -> (Map<(SV, usize), Hist>, Option<i64>) {
    let key = (sv, ptr);
    let i = index_of(b, 38);
    if b.len() == 0 { (ks, None) }
    else if i < b.len() {
        match (parsed::<usize>(b.subrange(0, i)), parsed::<i64>(b.subrange(i + 1, b.len() as int))) {
            (Some(l), Some(v)) => if l <= m && valid(v) { (ks.insert(key, if ks.dom().contains(key) { nd_init(ks[key], v, l) } else { nd_new(v, l) }), Some(v)) } else { (ks, None) },
            _ => (ks, None),
        }
    } else {
        match parsed::<i64>(b) {
            Some(x) => if !valid(x) || !ks.dom().contains(key) { (ks, None) } else if valid(nd_val(ks[key], x)) { (ks.insert(key, nd_next(ks[key], x)), Some(nd_val(ks[key], x))) } else { (ks.remove(key), None) },
            None => (ks, None),
        }
    }
}
pub open spec fn kernels(ks: Map<(SV, usize), Hist>, sv: SV, l: Seq<u8>, n: int, m: int) -> Map<(SV, usize), Hist> decreases n {
    if n <= 0 { ks } else { recovered(kernels(ks, sv, l, n - 1, m), sv, (n - 1) as usize, field(l, n - 1), m).0 }
}
pub open spec fn blank16() -> Seq<u8> { Seq::new(16, |i: int| 32u8) }
pub open spec fn cell(v: Option<i64>) -> Seq<u8> {
    match v { Some(v) => { let t = printed("{:14.3}  "@, v, "1000.0"@); if t.len() == 16 { t } else { blank16() } }, None => blank16() }
}
/// the n first observations; V1: five per line
pub open spec fn cells(ks: Map<(SV, usize), Hist>, sv: SV, l: Seq<u8>, n: int, m: int, v3: bool) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        cells(ks, sv, l, n - 1, m, v3) + cell(recovered(kernels(ks, sv, l, n - 1, m), sv, (n - 1) as usize, field(l, n - 1), m).1) + (if !v3 && (n - 1) % 5 == 4 { seq![10u8] } else { Seq::empty() })
    }
}
/// the line stops inside its observations
pub open spec fn trimmed(l: Seq<u8>, n: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] field(l, k).len() > 0 && field(l, k).len() == rest(l, field_at(l, k)).len() }
pub open spec fn tail(l: Seq<u8>, n: int, v3: bool) -> Seq<u8> { if !v3 && trimmed(l, n) { if n % 5 == 0 { seq![10u8] } else { seq![10u8, 10u8] } } else { Seq::empty() } }
/// the flags of the line, and those of the observations that are missing
pub open spec fn line_flags(l: Seq<u8>, n: int, h: Seq<u8>) -> Seq<u8> { apply(h, rtrim(rest(l, field_at(l, n)))) }
pub open spec fn shown(l: Seq<u8>, n: int, f: Seq<u8>) -> Seq<u8> { Seq::new(f.len(), |i: int| if i / 2 < n && field(l, i / 2).len() == 0 { 32u8 } else { f[i] }) }
/// column of flag i
pub open spec fn flag_at(v3: bool, i: int) -> int { if v3 { 17 + 16 * (i / 2) + i % 2 } else { 14 + 16 * (i / 2) + (i / 2) / 5 + i % 2 } }
pub open spec fn put(b: Seq<u8>, f: Seq<u8>, n: int, v3: bool) -> Seq<u8> decreases n {
    if n <= 0 { b } else if f[n - 1] != 32 { put(b, f, n - 1, v3).update(flag_at(v3, n - 1), f[n - 1]) } else { put(b, f, n - 1, v3) }
}
pub proof fn put_len(b: Seq<u8>, f: Seq<u8>, n: int, v3: bool) ensures put(b, f, n, v3).len() == b.len() decreases n { if n > 0 { put_len(b, f, n - 1, v3); } }
/// flags inside the n first columns
pub proof fn put_prefix(b: Seq<u8>, f: Seq<u8>, n: int, v3: bool, p: int)
    requires 0 <= p <= b.len(), forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] flag_at(v3, i)) < p,
    ensures put(b, f, n, v3).subrange(0, p) =~= put(b.subrange(0, p), f, n, v3)
    decreases n
{
    if n > 0 {
        put_prefix(b, f, n - 1, v3, p);
        put_len(b, f, n - 1, v3);
        assert(0 <= flag_at(v3, n - 1) < p);
        put_len(b.subrange(0, p), f, n - 1, v3);
    }
}
pub proof fn flags_inside(v3: bool, n: int)
    requires n >= 0
    ensures forall|i: int| 0 <= i < 2 * n ==> 0 <= (#[trigger] flag_at(v3, i)) < (if v3 { 3 + 16 * n } else { 16 * n + n / 5 })
{
    assert forall|i: int| 0 <= i < 2 * n implies 0 <= (#[trigger] flag_at(v3, i)) < (if v3 { 3 + 16 * n } else { 16 * n + n / 5 }) by {
        let k = i / 2;
        assert(0 <= k < n);
        assert(k / 5 <= n / 5);
    }
}
pub proof fn put_step(b: Seq<u8>, f: Seq<u8>, n: int, v3: bool)
    requires n >= 0
    ensures put(b, f, n + 1, v3) == (if f[n] != 32 { put(b, f, n, v3).update(flag_at(v3, n), f[n]) } else { put(b, f, n, v3) }), put(b, f, n + 1, v3).len() == b.len(), put(b, f, n, v3).len() == b.len()
{ put_len(b, f, n + 1, v3); put_len(b, f, n, v3); }
/// the line of a vehicle
pub open spec fn row(ks: Map<(SV, usize), Hist>, h: Seq<u8>, sv: SV, name: Seq<u8>, l: Seq<u8>, n: int, m: int, v3: bool) -> Seq<u8> {
    let f = shown(l, n, line_flags(l, n, h));
    put((if v3 { name } else { Seq::empty() }) + cells(ks, sv, l, n, m, v3) + tail(l, n, v3), f, min(f.len() as int, 2 * n), v3)
}
pub proof fn cells_len(ks: Map<(SV, usize), Hist>, sv: SV, l: Seq<u8>, n: int, m: int, v3: bool)
    requires n >= 0
    ensures cells(ks, sv, l, n, m, v3).len() == 16 * n + (if v3 { 0 } else { n / 5 })
    decreases n
{ if n > 0 { cells_len(ks, sv, l, n - 1, m, v3); } }

pub open spec fn blanks(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 32u8) }
/// V1: the vehicles after the twelfth, twelve per line
pub open spec fn more(d: Seq<u8>, dl: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { more(d, dl, k - 1) + blanks(32) + d.subrange(67 + 36 * (k - 1), min(67 + 36 * k, dl)) + seq![10u8] }
}
pub proof fn more_len(d: Seq<u8>, dl: int, k: int)
    requires 0 <= k <= (dl - 31) / 36, dl <= d.len(), dl >= 31
    ensures more(d, dl, k).len() <= 69 * k, k > 0 ==> 67 + 36 * (k - 1) <= dl
    decreases k
{ if k > 0 { more_len(d, dl, k - 1); } }
pub open spec fn text_v3(d: Seq<u8>, clock: Option<i64>) -> Seq<u8> {
    seq![62u8] + d.subrange(0, 34) + (match clock { Some(v) => printed("       {:.12}"@, v, "1000.0"@), None => Seq::empty() })
}
pub open spec fn text_v1(d: Seq<u8>, dl: int, clock: Option<i64>, lines: int) -> Seq<u8> {
    seq![32u8] + d.subrange(0, min(dl, 67)) + (match clock { Some(v) => printed(" {:15.12}"@, v, ""@), None => Seq::empty() }) + seq![10u8] + more(d, dl, lines)
}
/// the lines of an epoch; V1: a multiple of twelve vehicles may end with a blank line
pub open spec fn epoch_text(v3: bool, d: Seq<u8>, dl: int, clock: Option<i64>, t: Seq<u8>) -> bool {
    if v3 { t =~= text_v3(d, clock) } else {
        t =~= text_v1(d, dl, clock, (dl - 31) / 36) || ((dl - 31) % 36 == 0 && t =~= text_v1(d, dl, clock, (dl - 31) / 36 - 1))
    }
}
/// the clock line: `order&value` restarts the arc, one digit continues it
pub open spec fn clock_of(k: Hist, l: Seq<u8>, n: int, m: int) -> Option<i64> {
    if n > 2 && l[1] == 38 {
        match (parsed::<usize>(l.subrange(0, 1)), parsed::<i64>(l.subrange(2, l.len() as int))) { (Some(o), Some(v)) => if o <= m && valid(v) { Some(v) } else { None }, _ => None }
    } else if n == 1 {
        match parsed::<i64>(trim(l)) { Some(v) => if valid(nd_val(k, v)) { Some(nd_val(k, v)) } else { None }, None => None }
    } else { None }
}
/// vehicle i of the epoch
pub open spec fn vehicle(v3: bool, c: Constellation, d: Seq<u8>, i: int) -> Option<SV> {
    let b = d.subrange(slot(v3, i), slot(v3, i) + 3);
    match parsed::<SV>(b) {
        Some(sv) => Some(sv),
        None => if v3 { None } else { match parsed::<u8>(trim(b.subrange(1, 3))) { Some(prn) => Some(SV { prn, constellation: c }), None => None } },
    }
}
pub open spec fn listed(v3: bool, c: Constellation, d: Seq<u8>, n: int, sv: SV) -> bool { exists|i: int| 0 <= i < n && #[trigger] vehicle(v3, c, d, i) == Some(sv) }
pub open spec fn fresh() -> Seq<u8> { blanks(15) }
pub open spec fn slot(v3: bool, i: int) -> int { (if v3 { 40int } else { 31int }) + 3 * i }
impl<const M: usize> DecompressorExpert<M> {
    pub open spec fn sane(&self) -> bool {
        &&& forall|k: (SV, usize)| self.obs_diff@.dom().contains(k) ==> nd_ok(#[trigger] self.obs_diff@[k])
        &&& forall|s: SV| self.flags_diff@.dom().contains(s) ==> ascii(#[trigger] self.flags_diff@[s])
        &&& nd_ok(self.clock_diff@)
        &&& ascii(self.epoch_diff@) && ascii(self.epoch_descriptor@)
        &&& self.numsat <= 255
    }
    /// what holds between two lines
    pub open spec fn wf(&self) -> bool {
        &&& self.sane()
        &&& self.state == State::Epoch || (
            self.epoch_descriptor@.len() >= (if self.v3 { 34int } else { 31int }) && self.epoch_desc_len == min(self.epoch_descriptor@.len() as int, slot(self.v3, self.numsat as int)))
        &&& self.state == State::Observation ==> self.sv_ptr < self.numsat && 1 <= self.numobs < 0x1_0000_0000 && self.epoch_descriptor@.len() >= slot(self.v3, self.numsat as int)
    }
    /// the vehicle of the next line
    pub open spec fn next_name(&self) -> Option<SV> {
        let a = slot(self.v3, self.sv_ptr as int);
        let b = min(a + 3, self.epoch_desc_len as int);
        if a <= b <= self.epoch_descriptor@.len() && trim(self.epoch_descriptor@.subrange(a, b)).len() > 0 { named(self.v3, self.constellation, trim(self.epoch_descriptor@.subrange(a, b))) } else { None }
    }
    /// the number of vehicles of the epoch
    pub open spec fn announced(&self) -> Option<usize> {
        let a = if self.v3 { 31int } else { 28int };
        if a + 3 <= self.epoch_descriptor@.len() { match parsed::<u8>(trim(self.epoch_descriptor@.subrange(a, a + 3))) { Some(n) => Some(n as usize), None => None } } else { None }
    }
    pub open spec fn same_but_epoch(&self, o: Self) -> bool {
        &&& self.v3 == o.v3 && self.constellation == o.constellation && self.clock_diff == o.clock_diff && self.gnss_observables == o.gnss_observables && self.obs_diff == o.obs_diff
    }
    /// what an observation line leaves alone
    pub open spec fn same_epoch(&self, o: Self) -> bool {
        &&& self.v3 == o.v3 && self.constellation == o.constellation && self.numsat == o.numsat && self.epoch_diff == o.epoch_diff
        &&& self.epoch_descriptor == o.epoch_descriptor && self.epoch_desc_len == o.epoch_desc_len && self.clock_diff == o.clock_diff && self.gnss_observables == o.gnss_observables
    }
    pub open spec fn name(&self) -> Seq<u8> { self.epoch_descriptor@.subrange(slot(true, self.sv_ptr as int), slot(true, self.sv_ptr as int) + 3) }
}
"""

REWRITE = [
    (r"HashMap<SV, TextDiff>", "Flags"), (r"HashMap<\(SV, usize\), NumDiff<M>>", "Kernels<M>"),
    (r"HashMap<Constellation, Vec<Observable>>", "Codes"), (r"\bString\b", "Text"),
]


def consts(im):
    """associated constants -> constants"""
    out = ""
    for m in re.finditer(r"const (\w+): usize = ([^;]+);", im):
        out += f"pub const {m[1]}: usize = {m[2].replace('Self::', '')};\n"
    im = re.sub(r"State::((?:MIN)_\w+)", r"\1", im)
    im = re.sub(r"\s*(?:pub )?const \w+: usize = [^;]+;", "", im)
    return out, re.sub(r"Self::((?:V1|V3|MIN)_\w+)", r"\1", im)


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    s = re.sub(r"(?m)^\s*//.*$", "", s)
    s = re.sub(r"(?m)\s//[^\n\"]*$", "", s)
    state = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + re.sub(r"#\[[^\]]*\]", "", find_item(s, r"pub enum State\b"))
    st_impl = find_item(s, r"impl State\b")
    c1, st_impl = consts(st_impl)
    struct = find_item(s, r"pub struct DecompressorExpert\b")
    struct = re.sub(r"(?m)^(\s+)(\w+:)", r"\1pub \2", struct)
    im = find_item(s, r"impl<const M: usize> DecompressorExpert<M>")
    a, b, e = find_fn(im, "new")
    im = im[:a] + im[e:]
    c2, im = consts(im)
    for x, y in REWRITE:
        struct, im = re.sub(x, y, struct), re.sub(x, y, im)
    im = im.replace("self.gnss_observables.get(", "self.gnss_observables.of(")
    im = re.sub(r"&(bytes)\[([^\[\]]*?)\.\.([^\[\]]*?)\]", lambda m: f"slice_of({m[1]}, {m[2] or 0}, {m[3]})", im)
    def spaces(m):
        n = m[0].count("b' '")
        return f"spaces({n})"
    im = re.sub(r"&\[\s*(?:b' ',?\s*)+\]", spaces, im)
    im = re.sub(r"buf\[([^\[\]]*?)\.\.([^\[\]]*?)\]\s*\.copy_from_slice\(([^;]*)\);", lambda m: f"copy_into(buf, {m[1] or 0}, {m[2]}, {m[3]});", im)
    im = strs.cuts(im.replace(".min(", ".vmin("))
    im = re.sub(r"(\w+(?:\.cut(?:_from)?\([^()]*\)))\.eq\(\" \"\)", r"is_blank(\1)", im)
    im = im.replace("line.trim_end_matches(|c| c == '\\n' || c == '\\r')", "trim_eol(line)")
    im = im.replace(".get_from(consumed).unwrap_or(\"\")", ".or_from(consumed)")
    im = re.sub(r"remainder\.find\(' '\)\.unwrap_or\(remainder\.len\(\)\)", "find_or_len(remainder, ' ')", im)
    im = im.replace("line.cut_from(1).starts_with('&')", "starts_char(line.cut_from(1), '&')")
    im = re.sub(r"line\.starts_with\(('.')\)", r"starts_char(line, \1)", im)
    im = im.replace("line.is_ascii()", "all_ascii(line)").replace("content.is_empty()", "is_empty_str(content)").replace("slice.is_empty()", "is_empty_str(slice)")
    im = im.replace("value.unsigned_abs()", "unsigned_abs(value)")
    im = re.sub(r"slice\.split_once\('&'\)", "split_once_char(slice, '&')", im)
    im = re.sub(r"let (\w+) = ((?:[^;{}]|\n)*?)\.ok\(\)\.filter\(\|(\w+)\| ([^;]*?)\)\?;", r"let \1 = match \2 { Ok(v) => v, Err(_e) => return None }; { let \3 = &\1; if !(\4) { return None; } }", im)
    im = re.sub(r"([\w.]+)\.trim\(\)\.parse::<u8>\(\)\.ok\(\)\?", r"match \1.trim().parse::<u8>() { Ok(v) => v, Err(_e) => return None }", im)
    im = re.sub(r'format!\(("[^"]*"), value as f64 / ([0-9.]+)\)', r'format_value(\1, value, "\2")', im)
    im = re.sub(r"let value = (\w+) as f64 / ([0-9.]+);\s*let formatted = format!\((\"[^\"]*\"), value\);", r'let formatted = format_value(\3, \1, "\2");', im)
    im = re.sub(r'format!\(("[^"]*"), clock_data\)', r'format_value(\1, clock_data, "")', im)
    im = re.sub(r"\"([ ]*)\"\.to_string\(\)", lambda m: f"Text::blank({len(m[1])})", im)
    im = re.sub(r"TextDiff::new\(\"([ ]*)\"\)", lambda m: f"TextDiff::new_blank({len(m[1])})", im)
    im = re.sub(r"buf\[produced\] = ([^;]+);", r"set_at(buf, produced, \1);", im)
    im = im.replace("descriptor.to_string()", "Text::of(descriptor)")
    im = re.sub(r"(self\.epoch_diff|kernel)\.decompress\((\w+)\)\.to_string\(\)", r"\1.decompressed(\2)", im)
    im = re.sub(r"self\.flags_diff\.retain\(\|sv, _(?:\w*)\| vehicles\.contains\(sv\)\)", "self.flags_diff.keep(&vehicles)", im)
    im = re.sub(r"Vec::with_capacity\(self\.numsat\)", "Vec::new()", im)
    im = im.replace("&self.flags_buf,", "self.flags_buf.as_text(),")
    im = re.sub(r"self\.flags_buf\.replace_range\((\w+)\.\.([^,]+), \" \"\)", r"self.flags_buf.replace_blank(\1, \2)", im)
    im = re.sub(r"&line\.cut_from\(1\)\.trim_end\(\)", "line.cut_from(1).trim_end()", im)
    im = re.sub(r"trimmed_line \|= ([^;]+);", r"if \1 { trimmed_line = true; }", im)
    im = re.sub(r"let mut (produced|consumed) = 0;", r"let mut \1: usize = 0;", im)
    im = im.replace("|_|", "|_e|").replace("debug_assert", "assert")
    return strs.PRELUDE + MODEL + SHIMS + state + c1 + c2 + struct + SPEC + contracts(st_impl + im) + strs.CANARY + "fn main() {}\n}\n"


SHIMS = r"""
/// t == " "
#[verifier::external_body]
pub fn is_blank(t: &str) -> (r: bool) ensures r == (t.spec_bytes() == seq![32u8]) { t == " " }
#[verifier::external_body]
pub fn spaces(n: usize) -> (r: &'static [u8]) ensures r@ == Seq::new(n as nat, |i: int| 32u8) { unimplemented!() }
#[verifier::external_body]
pub fn unsigned_abs(v: i64) -> (r: u64) ensures r == (if v < 0 { -v } else { v as int }) { v.unsigned_abs() }
#[verifier::external_body]
pub fn find_or_len(s: &str, c: char) -> (r: usize) ensures r == index_of(s.spec_bytes(), c as u8), r <= s.spec_bytes().len() { unimplemented!() }
#[verifier::external_body]
pub fn split_once_char<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r {
        Some((a, b)) => index_of(s.spec_bytes(), c as u8) < s.spec_bytes().len() && a.spec_bytes() == s.spec_bytes().subrange(0, index_of(s.spec_bytes(), c as u8)) && b.spec_bytes() == s.spec_bytes().subrange(index_of(s.spec_bytes(), c as u8) + 1, s.spec_bytes().len() as int),
        None => index_of(s.spec_bytes(), c as u8) == s.spec_bytes().len() }
{ unimplemented!() }
pub trait OrFrom { fn or_from(&self, n: usize) -> &str; }
impl OrFrom for str {
    #[verifier::external_body]
    fn or_from(&self, n: usize) -> (r: &str)
        ensures ascii(self.spec_bytes()) ==> r.spec_bytes() == self.spec_bytes().subrange(min(n as int, self.spec_bytes().len() as int), self.spec_bytes().len() as int) && ascii(r.spec_bytes())
    { unimplemented!() }
}
"""



CLAUSES = {
    "sv_slice_start": ("r", """        requires sv_index < 0x1_0000_0000,
        ensures r == slot(v3, sv_index as int),"""),
    "next_sv": ("r", """        requires ascii(self.epoch_descriptor@), self.sv_ptr < 0x1_0000_0000,
        ensures r == self.next_name(),"""),
    "epoch_numsat": ("r", """        requires ascii(self.epoch_descriptor@),
        ensures r == self.announced(),"""),
    "get_observables": ("r", """        ensures match r {
            Some(l) => l@.len() < 0x1_0000_0000 && match self.gnss_observables.spec_get(Constellation::Mixed) { Some(m) => m == l@, None => self.gnss_observables.spec_get(*constell) == Some(l@) },
            None => self.gnss_observables.spec_get(Constellation::Mixed) is None && self.gnss_observables.spec_get(*constell) is None },"""),
    "next_numobs": ("r", """        ensures match r { Ok(n) => n == numobs_of(self.gnss_observables, self.sv) && 1 <= n < 0x1_0000_0000, Err(_) => numobs_of(self.gnss_observables, self.sv) == 0 },"""),
    "is_valid": ("r", "        ensures r == valid(value),"),
    "recover_observation": ("r", """        requires ascii(slice.spec_bytes()), slice.spec_bytes().len() > 0, old(self).sane(),
        ensures
            r == recovered(old(self).obs_diff@, old(self).sv, ptr, slice.spec_bytes(), M as int).1,
            *final(self) == (DecompressorExpert { obs_diff: final(self).obs_diff, ..*old(self) }),
            final(self).obs_diff@ =~= recovered(old(self).obs_diff@, old(self).sv, ptr, slice.spec_bytes(), M as int).0,
            final(self).sane(),"""),
    "size_to_produce": ("r", """        requires numsat <= 255, *self == State::Observation ==> 1 <= numobs < 0x1_0000_0000,
        ensures *self == State::Observation && v3 ==> r == 3 + 16 * numobs,"""),
    "init_epoch": (None, """        requires old(self).sane(), ascii(descriptor.spec_bytes()),
        ensures final(self).sane(), final(self).same_but_epoch(*old(self)),
            final(self).epoch_descriptor@ == descriptor.spec_bytes(), final(self).epoch_diff@ == descriptor.spec_bytes(), final(self).epoch_desc_len == descriptor.spec_bytes().len(),
            final(self).flags_diff@ == Map::<SV, Seq<u8>>::empty(), final(self).numsat == old(self).numsat,"""),
    "run_epoch": ("r", """        requires old(self).wf(), old(self).state == State::Epoch, len <= line.spec_bytes().len(), ascii(line.spec_bytes()),
        ensures final(self).sane(),
            match r {
                Ok(p) => {
                    let l = line.spec_bytes();
                    let start = l[0] == 38 || l[0] == 62;
                    let d = rtrim(l.subrange(1, l.len() as int));
                    &&& p == 0 && final(self).wf() && final(self).state == State::Clock && final(self).same_but_epoch(*old(self))
                    &&& start ==> (l[0] == 62) == final(self).v3
                    &&& final(self).epoch_descriptor@ == (if start { d } else { apply(old(self).epoch_diff@, d) })
                    &&& final(self).epoch_diff@ == final(self).epoch_descriptor@
                    &&& final(self).flags_diff@ == (if start { Map::<SV, Seq<u8>>::empty() } else { old(self).flags_diff@ })
                    &&& final(self).announced() == Some(final(self).numsat)
                },
                Err(_) => true,
            },"""),
    "format_epoch": ("r", """        requires self.wf(), self.state == State::Clock,
        ensures final(buf)@.len() == old(buf)@.len(), match r { Ok(p) => p <= final(buf)@.len() && epoch_text(self.v3, self.epoch_descriptor@, self.epoch_desc_len as int, clock_data, final(buf)@.subrange(0, p as int)), Err(_) => true },"""),
    "format_epoch_v3": ("r", """        requires self.wf(), self.state == State::Clock, self.v3,
        ensures final(buf)@.len() == old(buf)@.len(), match r { Ok(p) => p <= final(buf)@.len() && epoch_text(true, self.epoch_descriptor@, self.epoch_desc_len as int, clock_data, final(buf)@.subrange(0, p as int)), Err(_) => true },"""),
    "format_epoch_v1": ("r", """        requires self.wf(), self.state == State::Clock, !self.v3,
        ensures final(buf)@.len() == old(buf)@.len(), match r { Ok(p) => p <= final(buf)@.len() && epoch_text(false, self.epoch_descriptor@, self.epoch_desc_len as int, clock_data, final(buf)@.subrange(0, p as int)), Err(_) => true },"""),
    "run_clock": ("r", """        requires old(self).wf(), old(self).state == State::Clock, len == line.spec_bytes().len(), ascii(line.spec_bytes()),
        ensures final(self).sane(), final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(p) => {
                    let c = clock_of(old(self).clock_diff@, line.spec_bytes(), len as int, M as int);
                    let s = *final(self);
                    &&& final(self).wf() && p <= final(buf)@.len()
                    &&& epoch_text(s.v3, s.epoch_descriptor@, s.epoch_desc_len as int, c, final(buf)@.subrange(0, p as int))
                    &&& s.v3 == old(self).v3 && s.constellation == old(self).constellation && s.numsat == old(self).numsat && s.gnss_observables == old(self).gnss_observables
                    &&& s.epoch_descriptor == old(self).epoch_descriptor && s.epoch_desc_len == old(self).epoch_desc_len && s.epoch_diff == old(self).epoch_diff && s.obs_diff == old(self).obs_diff
                    &&& s.sv_ptr == 0
                    &&& s.state == (if s.numsat == 0 { State::Epoch } else { State::Observation })
                    &&& s.numsat > 0 ==> Some(s.sv) == s.next_name() && s.numobs == numobs_of(s.gnss_observables, s.sv)
                    &&& forall|sv: SV| #[trigger] s.flags_diff@.dom().contains(sv) <==> listed(s.v3, s.constellation, s.epoch_descriptor@, s.numsat as int, sv)
                    &&& forall|sv: SV| #[trigger] s.flags_diff@.dom().contains(sv) ==> s.flags_diff@[sv] == (if old(self).flags_diff@.dom().contains(sv) { old(self).flags_diff@[sv] } else { fresh() })
                },
                Err(_) => true,
            },"""),
    "decompress": ("r", """        requires old(self).wf(), len == line.spec_bytes().len(), size <= old(buf)@.len(),
        ensures final(self).wf(), final(buf)@.len() == old(buf)@.len(), match r { Ok(p) => p <= final(buf)@.len() && ascii(line.spec_bytes()), Err(_) => true },"""),
    "run_observation": ("r", """        requires old(self).wf(), old(self).state == State::Observation, ascii(line.spec_bytes()), old(self).v3 ==> old(buf)@.len() >= 3,
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).sane(),
            match r {
                Ok(p) => {
                    let l = rtrim_eol(line.spec_bytes());
                    let n = old(self).numobs as int;
                    &&& old(self).flags_diff@.dom().contains(old(self).sv)
                    &&& p <= final(buf)@.len()
                    &&& final(buf)@.subrange(0, p as int) =~= row(old(self).obs_diff@, old(self).flags_diff@[old(self).sv], old(self).sv, old(self).name(), l, n, M as int, old(self).v3)
                    &&& final(self).obs_diff@ =~= kernels(old(self).obs_diff@, old(self).sv, l, n, M as int)
                    &&& final(self).flags_diff@ =~= old(self).flags_diff@.insert(old(self).sv, line_flags(l, n, old(self).flags_diff@[old(self).sv]))
                    &&& final(self).wf() && final(self).same_epoch(*old(self))
                    &&& final(self).sv_ptr == old(self).sv_ptr + 1
                    &&& final(self).state == (if final(self).sv_ptr == final(self).numsat { State::Epoch } else { State::Observation })
                    &&& final(self).state == State::Observation ==> Some(final(self).sv) == final(self).next_name() && final(self).numobs == numobs_of(final(self).gnss_observables, final(self).sv)
                },
                Err(_) => true,
            },"""),
    "write_flags": (None, """        requires ascii(flags.spec_bytes()), flags_len == flags.spec_bytes().len(), numobs < 0x1_0000_0000,
            old(buf)@.len() >= (if v3 { 3 + 16 * numobs } else { 16 * numobs + numobs / 5 }),
        ensures final(buf)@ == put(old(buf)@, flags.spec_bytes(), min(flags_len as int, 2 * numobs), v3),"""),
    "write_v1_flags": (None, """        requires ascii(flags.spec_bytes()), flags_len <= flags.spec_bytes().len(), flags_len < 0x2_0000_0000,
            flags_len > 0 ==> flag_at(false, flags_len - 1) < old(buf)@.len(),
        ensures final(buf)@ == put(old(buf)@, flags.spec_bytes(), flags_len as int, false),"""),
    "write_v3_flags": (None, """        requires ascii(flags.spec_bytes()), flags_len <= flags.spec_bytes().len(), flags_len <= 2 * numobs, numobs < 0x1_0000_0000,
            flags_len > 0 ==> flag_at(true, flags_len - 1) < old(buf)@.len(),
        ensures final(buf)@ == put(old(buf)@, flags.spec_bytes(), flags_len as int, true),"""),
}


def contracts(im):
    def once(pat, new, f, what):
        f, n = re.subn(pat, lambda m: new, f)
        if n != 1:
            raise Lost(what)
        return f

    def inside(name, g):
        nonlocal im
        a, b, e = find_fn(im, name)
        im = im[:a] + g(im[a:e]) + im[e:]

    inside("write_v1_flags", lambda f: once(r"for i in 0\.\.flags_len \{", """for i in 0..flags_len
            invariant ascii(flags.spec_bytes()), flags_len <= flags.spec_bytes().len(), flags_len < 0x2_0000_0000, bytes@ == flags.spec_bytes(),
                flags_len > 0 ==> flag_at(false, flags_len - 1) < buf@.len(),
                offset == 14 + 16 * i + i / 5,
                buf@ == put(old(buf)@, flags.spec_bytes(), min(2 * i, flags_len as int), false),
        {
            proof { assert(forall|a: int| 0 <= a < flags.spec_bytes().len() ==> ((#[trigger] flags.spec_bytes().subrange(a, a + 1)) == seq![32u8] <==> flags.spec_bytes()[a] == 32)) by { assert(forall|a: int| 0 <= a < flags.spec_bytes().len() ==> (#[trigger] flags.spec_bytes().subrange(a, a + 1)) =~= seq![flags.spec_bytes()[a]]); assert(seq![32u8][0] == 32); assert(forall|x: u8| #[trigger] seq![x][0] == x); } put_len(old(buf)@, flags.spec_bytes(), min(2 * i, flags_len as int), false); put_step(old(buf)@, flags.spec_bytes(), 2 * i, false); put_step(old(buf)@, flags.spec_bytes(), 2 * i + 1, false); assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1); assert(flags_len > 2 * i ==> i / 5 <= (flags_len - 1) / 2 / 5); }""", f, "loop of write_v1_flags"))
    inside("write_v3_flags", lambda f: once(r"for i in 0\.\.numobs \{", """for i in 0..numobs
            invariant ascii(flags.spec_bytes()), flags_len <= flags.spec_bytes().len(), flags_len <= 2 * numobs, numobs < 0x1_0000_0000, bytes@ == flags.spec_bytes(),
                flags_len > 0 ==> flag_at(true, flags_len - 1) < buf@.len(),
                offset == 17 + 16 * i,
                buf@ == put(old(buf)@, flags.spec_bytes(), min(2 * i, flags_len as int), true),
        {
            proof { assert(forall|a: int| 0 <= a < flags.spec_bytes().len() ==> ((#[trigger] flags.spec_bytes().subrange(a, a + 1)) == seq![32u8] <==> flags.spec_bytes()[a] == 32)) by { assert(forall|a: int| 0 <= a < flags.spec_bytes().len() ==> (#[trigger] flags.spec_bytes().subrange(a, a + 1)) =~= seq![flags.spec_bytes()[a]]); assert(seq![32u8][0] == 32); assert(forall|x: u8| #[trigger] seq![x][0] == x); } put_len(old(buf)@, flags.spec_bytes(), min(2 * i, flags_len as int), true); put_step(old(buf)@, flags.spec_bytes(), 2 * i, true); put_step(old(buf)@, flags.spec_bytes(), 2 * i + 1, true); assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i && (2 * i) % 2 == 0 && (2 * i + 1) % 2 == 1); assert(flags_len > 2 * i ==> i / 5 <= (flags_len - 1) / 2 / 5); }""", f, "loop of write_v3_flags"))
    def observation(f):
        f = once(r"for ptr in 0\.\.self\.numobs \{", """let ghost l = line.spec_bytes();
        let ghost n = self.numobs as int;
        let ghost head = buf@.subrange(0, produced as int);
        let ghost ks = old(self).obs_diff@;
        proof { assert(head =~= (if self.v3 { self.name() } else { Seq::<u8>::empty() })); }
        for ptr in 0..self.numobs
            invariant
                ascii(l), l == line.spec_bytes(), l == rtrim_eol(old_line.spec_bytes()), n < 0x1_0000_0000, n == old(self).numobs, ptr <= n, ks == old(self).obs_diff@,
                *self == (DecompressorExpert { obs_diff: self.obs_diff, blanking_indexes: self.blanking_indexes, ..*old(self) }),
                self.sane(), new_state == State::Observation,
                head.len() == (if self.v3 { 3int } else { 0int }),
                consumed == field_at(l, ptr as int),
                consumed <= l.len() + ptr,
                buf@.len() == old(buf)@.len(),
                produced <= buf@.len(), ptr > 0 ==> produced + 2 <= buf@.len(),
                buf@.subrange(0, produced as int) =~= head + cells(ks, self.sv, l, ptr as int, M as int, self.v3),
                produced == head.len() + 16 * ptr + (if self.v3 { 0 } else { ptr as int / 5 }),
                self.obs_diff@ =~= kernels(ks, self.sv, l, ptr as int, M as int),
                trimmed_line == trimmed(l, ptr as int),
                forall|j: int| 0 <= j < self.blanking_indexes@.len() ==> (#[trigger] self.blanking_indexes@[j]) < ptr && field(l, self.blanking_indexes@[j] as int).len() == 0,
                forall|k: int| 0 <= k < ptr && (#[trigger] field(l, k)).len() == 0 ==> exists|j: int| 0 <= j < self.blanking_indexes@.len() && self.blanking_indexes@[j] == k,
        {""", f, "loop over the observations")
        f = once(r"self\.blanking_indexes\.push\(ptr\);", """let ghost was = self.blanking_indexes@;
                self.blanking_indexes.push(ptr);
                proof {
                    assert(self.blanking_indexes@[was.len() as int] == ptr);
                    assert(forall|j: int| 0 <= j < was.len() ==> self.blanking_indexes@[j] == #[trigger] was[j]);
                }""", f, "missing observations")
        f = once(r"let bytes = formatted\.as_bytes\(\);", """proof { assert(formatted@ =~= cell(recovered(kernels(ks, self.sv, l, ptr as int, M as int), self.sv, ptr, field(l, ptr as int), M as int).1)); }
            let bytes = formatted.as_bytes();""", f, "text of an observation")
        f, k = re.subn(r"(Self::write_flags\([^;]*\);)", r"""let ghost wb = buf@;
        proof {
            assert(self.flags_buf@ =~= shown(l, n, fs));
            cells_len(ks, old(self).sv, l, n, M as int, self.v3);
            flags_inside(self.v3, n);
        }
        \1
        proof {
            let m = min(fs.len() as int, 2 * n);
            put_len(wb, self.flags_buf@, m, self.v3);
            put_prefix(wb, self.flags_buf@, m, self.v3, produced as int);
            assert(buf@.subrange(0, produced as int) =~= put(wb.subrange(0, produced as int), self.flags_buf@, m, self.v3));
        }""", f)
        if k != 1:
            raise Lost("flags of a vehicle")
        a = f.index("trimmed_line = true;")
        f = f[:a] + f[a:].replace("if is_empty_str(slice)", """proof {
                assert(slice.spec_bytes() =~= field(l, ptr as int));
                assert(consumed == field_at(l, ptr + 1));
            }
            if is_empty_str(slice)""", 1)
        f, k = re.subn(r"for byte in (\[[^\]]*\])\.iter\(\)\.skip\(\((.*?)\) as usize\) \{", r"""let verif_ends = \1;
            let verif_from: usize = if \2 { 1 } else { 0 };
            let ghost body = buf@.subrange(0, produced as int);
            for verif_i in verif_from..2
                invariant buf@.len() == old(buf)@.len(), verif_from == (if n % 5 == 0 { 1int } else { 0int }), verif_from <= verif_i <= 2,
                    verif_ends@ == seq![10u8, 10u8],
                    produced == body.len() + verif_i - verif_from, body.len() + 2 <= buf@.len(), body.len() <= 0x20_0000_0000,
                    buf@.subrange(0, produced as int) =~= body + Seq::new((verif_i - verif_from) as nat, |i: int| 10u8),
            {
                let byte = &verif_ends[verif_i];""", f)
        if k != 1:
            raise Lost("end of the line of a vehicle")
        f = once(r"for index in &self\.blanking_indexes \{", """let ghost fs = self.flags_buf@;
        proof {
            assert(buf@.subrange(0, produced as int) =~= head + cells(ks, old(self).sv, l, n, M as int, self.v3) + tail(l, n, self.v3));
            assert(fs == line_flags(l, n, old(self).flags_diff@[old(self).sv]));
        }
        let ghost told = buf@;
        for verif_j in 0..self.blanking_indexes.len()
            invariant
                *self == (DecompressorExpert { obs_diff: self.obs_diff, blanking_indexes: self.blanking_indexes, flags_buf: self.flags_buf, flags_diff: self.flags_diff, ..*old(self) }),
                self.flags_buf@.len() == fs.len(), ascii(self.flags_buf@), n < 0x1_0000_0000, buf@ == told,
                forall|j: int| 0 <= j < self.blanking_indexes@.len() ==> (#[trigger] self.blanking_indexes@[j]) < n && field(l, self.blanking_indexes@[j] as int).len() == 0,
                forall|i: int| 0 <= i < fs.len() ==> (#[trigger] self.flags_buf@[i]) == (if exists|j: int| 0 <= j < verif_j && self.blanking_indexes@[j] == i / 2 { 32u8 } else { fs[i] }),
        {
            let index = self.blanking_indexes[verif_j];
            let ghost was = self.flags_buf@;""", f, "loop over the missing observations")
        f, k = re.subn(r"for offset in (\[[^\]]*\]) \{", r"""let verif_offsets = \1;
            for verif_o in 0..verif_offsets.len()
                invariant
                    verif_offsets@.len() == 2, verif_offsets@[0] == 2 * index, verif_offsets@[1] == 2 * index + 1,
                    *self == (DecompressorExpert { obs_diff: self.obs_diff, blanking_indexes: self.blanking_indexes, flags_buf: self.flags_buf, flags_diff: self.flags_diff, ..*old(self) }),
                    self.flags_buf@.len() == fs.len(), ascii(self.flags_buf@), was.len() == fs.len(), index < n, n < 0x1_0000_0000,
                    forall|i: int| 0 <= i < fs.len() ==> (#[trigger] self.flags_buf@[i]) == (if i / 2 == index && i % 2 < verif_o { 32u8 } else { was[i] }),
            {
                let offset = verif_offsets[verif_o];""", f)
        if k != 1:
            raise Lost("columns of a missing observation")
        return f
    inside("format_epoch_v1", lambda f: once(r"for _ in 0\.\.nb_extra \{", """let ghost d = self.epoch_descriptor@;
        let ghost dl = self.epoch_desc_len as int;
        let ghost head = buf@.subrange(0, produced as int);
        proof { assert(head =~= text_v1(d, dl, clock_data, 0)); }
        for verif_k in 0..nb_extra
            invariant dl == self.epoch_desc_len, d == self.epoch_descriptor@, dl <= d.len(), d.len() <= isize::MAX, bytes@ == d, nb_extra == (dl - 31) / 36, 31 <= dl <= 1000, head.len() <= isize::MAX + 100,
                buf@.len() == old(buf)@.len(), produced <= buf@.len(),
                offset == min(67 + 36 * verif_k, dl) || verif_k == 0 && offset == 67,
                produced == head.len() + more(d, dl, verif_k as int).len(),
                buf@.subrange(0, produced as int) =~= head + more(d, dl, verif_k as int),
        {
            proof { more_len(d, dl, verif_k + 1); }""", f, "continuation lines of an epoch"))
    def clock(f):
        f = once(r"vehicles\.push\(sv\);", """vehicles.push(sv);
            proof {
                assert(forall|k: int| 0 <= k < had.len() ==> #[trigger] vehicles@[k] == had[k]);
                assert(content.spec_bytes() == base.epoch_descriptor@.subrange(slot(base.v3, i as int), slot(base.v3, i as int) + 3));
                assert(content.spec_bytes().subrange(1, 3) =~= content.spec_bytes().subrange(1, content.spec_bytes().len() as int));
                assert(slot(base.v3, i + 1) <= base.epoch_descriptor@.len());
                assert(Some(sv) == vehicle(base.v3, base.constellation, base.epoch_descriptor@, i as int));
                assert forall|x: SV| #[trigger] vehicles@.contains(x) <==> had.contains(x) || x == sv by {
                    if had.contains(x) { let k = choose|k: int| 0 <= k < had.len() && had[k] == x; assert(vehicles@[k] == x); }
                    if x == sv { assert(vehicles@[i as int] == x); }
                }
            }""", f, "list of the vehicles")
        f = once(r"match line\.trim\(\)\.parse::<i64>\(\) \{", """proof { digit(trim(line.spec_bytes())); trim_len(line.spec_bytes()); }
            match line.trim().parse::<i64>() {""", f, "clock")
        f = once(r"self\.flags_diff\.keep\(&vehicles\);", """self.flags_diff.keep(&vehicles);
        proof {
            assert forall|sv: SV| #[trigger] vehicles@.contains(sv) <==> listed(base.v3, base.constellation, base.epoch_descriptor@, base.numsat as int, sv) by {
                if vehicles@.contains(sv) { let k = choose|k: int| 0 <= k < vehicles@.len() && vehicles@[k] == sv; assert(vehicle(base.v3, base.constellation, base.epoch_descriptor@, k) == Some(sv)); }
                if listed(base.v3, base.constellation, base.epoch_descriptor@, base.numsat as int, sv) { let k = choose|k: int| 0 <= k < base.numsat && #[trigger] vehicle(base.v3, base.constellation, base.epoch_descriptor@, k) == Some(sv); assert(vehicles@[k] == sv); }
            }
            assert(vehicles@.len() > 0 ==> Some(vehicles@[vehicles@.len() - 1]) == vehicle(base.v3, base.constellation, base.epoch_descriptor@, vehicles@.len() - 1));
        }""", f, "vehicles of the last epochs")
        return f
    inside("run_clock", clock)
    inside("run_clock", lambda f: once(r"for i in 0\.\.self\.numsat \{", """let ghost base = *self;
        let ghost told = buf@;
        for i in 0..self.numsat
            invariant *self == (DecompressorExpert { flags_diff: self.flags_diff, ..base }), self.sane(), base.numsat <= 255, vehicles@.len() == i, i <= base.numsat, buf@ == told, told.len() == old(buf)@.len(),
                base.flags_diff@ == old(self).flags_diff@,
                i > 0 ==> slot(base.v3, i as int) <= base.epoch_descriptor@.len(),
                forall|k: int| 0 <= k < i ==> Some(#[trigger] vehicles@[k]) == vehicle(base.v3, base.constellation, base.epoch_descriptor@, k),
                forall|sv: SV| #[trigger] self.flags_diff@.dom().contains(sv) <==> base.flags_diff@.dom().contains(sv) || vehicles@.contains(sv),
                forall|sv: SV| #[trigger] self.flags_diff@.dom().contains(sv) ==> self.flags_diff@[sv] == (if base.flags_diff@.dom().contains(sv) { base.flags_diff@[sv] } else { fresh() }),
        {
            let ghost had = vehicles@;""", f, "loop over the vehicles"))
    inside("run_observation", lambda f: observation(f.replace("let line = trim_eol(line);", "let old_line = line; let line = trim_eol(line);")))
    for name, (ret, clauses) in CLAUSES.items():
        im = splice(im, name, clauses, ret)
    return im


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
