"""TextDiff (src/hatanaka/textdiff.rs): the two directions are inverse of one
another over every history, whatever the lengths."""
import re
from extract import *
import strs

FILE = "src/hatanaka/textdiff.rs"
DROPS = [
    strs.DROP,
    "`String` -> an opaque text with the same new, push_str, len, as_bytes, as_bytes_mut, `&text` -> `text.as_text()`, `x.to_string()` -> `Text::of(x)`",
    "`x.iter_mut().skip(n)` -> `iter_mut_skip(x, n)` (the skipped bytes are left alone)",
    "`for (i, b) in s.bytes().enumerate()` -> `while let Some(b)` with a counter",
]
TRUSTED = ["String::{push_str, as_bytes, as_bytes_mut, len}, str::bytes: the bytes of the text (language guarantee)", "vstd's contracts of slice::Iter, IterMut, Skip, get_mut"] + strs.TRUSTED[2:]
CONTRACTS = ["new", "force_init", "decompress", "compress", "round_trip", "pair"]
CANARIES = ["canary"]

MODEL = r"""
use vstd::std_specs::iter::IteratorSpec;
#[verifier::external_body]
pub struct Text { s: String }
impl View for Text { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Text {
    #[verifier::external_body]
    pub fn of(s: &str) -> (r: Text) ensures r@ == s.spec_bytes() { Text { s: s.to_string() } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.s.len() }
    #[verifier::external_body]
    pub fn as_text(&self) -> (r: &str) ensures r.spec_bytes() == self@ { &self.s }
    #[verifier::external_body]
    pub fn push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t.spec_bytes() { self.s.push_str(t) }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { self.s.as_bytes() }
    #[verifier::external_body]
    pub fn as_bytes_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self)@, final(self)@ == final(r)@ { unsafe { self.s.as_bytes_mut() } }
}
impl Cut for Text {
    open spec fn cut_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn cut(&self, a: usize, b: usize) -> &str { &self.s[a..b] }
    #[verifier::external_body]
    fn cut_from(&self, a: usize) -> &str { &self.s[a..] }
    #[verifier::external_body]
    fn get_cut(&self, a: usize, b: usize) -> Option<&str> { self.s.get(a..b) }
    #[verifier::external_body]
    fn get_from(&self, a: usize) -> Option<&str> { self.s.get(a..) }
}
/// s.iter_mut().skip(n)
#[verifier::external_body]
pub fn iter_mut_skip<'a>(s: &'a mut [u8], n: usize) -> (r: std::slice::IterMut<'a, u8>)
    requires n <= old(s)@.len()
    ensures
        r.remaining().len() == old(s)@.len() - n, final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] final(s)@[i]) == old(s)@[i],
        forall|j: int| n <= j < old(s)@.len() ==> (#[trigger] final(s)@[j]) == *final(r.remaining()[j - n]),
        forall|i: int| 0 <= i < r.remaining().len() ==> *(#[trigger] r.remaining()[i]) == old(s)@[n + i] && *final(r.remaining()[i]) == final(s)@[n + i],
{ s[n..].iter_mut() }
#[verifier::external_body]
pub struct Bytes<'a> { it: std::str::Bytes<'a> }
impl<'a> View for Bytes<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn bytes<'a>(s: &'a str) -> (r: Bytes<'a>) ensures r@ == s.spec_bytes() { Bytes { it: s.bytes() } }
impl<'a> Bytes<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures match r {
            Some(b) => old(self)@.len() > 0 && b == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { self.it.next() }
}
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == min(a as int, b as int) { if a < b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a > b { a } else { b } }

/// what a delta does to the history: the definition of the algorithm
pub open spec fn applied(h: Seq<u8>, d: Seq<u8>, i: int) -> u8 {
    if i < d.len() && d[i] != 32 { if d[i] == 38 { 32 } else { d[i] } } else if i < h.len() { h[i] } else { 32 }
}
pub open spec fn apply(h: Seq<u8>, d: Seq<u8>) -> Seq<u8> { Seq::new(max(h.len() as int, d.len() as int) as nat, |i: int| applied(h, d, i)) }
/// the delta that leads from h to x
pub open spec fn changed(h: Seq<u8>, x: Seq<u8>, i: int) -> u8 {
    if i < h.len() && x[i] == h[i] { 32 } else if x[i] == 32 { 38 } else { x[i] }
}
pub open spec fn diff(h: Seq<u8>, x: Seq<u8>) -> Seq<u8> { Seq::new(x.len(), |i: int| changed(h, x, i)) }
pub open spec fn starts_as(h: Seq<u8>, x: Seq<u8>) -> bool { x.len() <= h.len() && h.subrange(0, x.len() as int) == x }
/// no escape character
pub open spec fn plain(x: Seq<u8>) -> bool { ascii(x) && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]) != 38 }

/// the delta of a text recovers it from any history that starts as the one it
/// was computed against
pub proof fn round_trip(h: Seq<u8>, full: Seq<u8>, x: Seq<u8>)
    requires starts_as(full, h), plain(x),
    ensures
        starts_as(apply(full, diff(h, x)), x),
        x.len() >= full.len() ==> apply(full, diff(h, x)) == x,
        apply(full, diff(h, x)).len() == max(full.len() as int, x.len() as int),
        forall|i: int| x.len() <= i < full.len() ==> (#[trigger] apply(full, diff(h, x))[i]) == full[i],
{
    let r = apply(full, diff(h, x));
    assert forall|i: int| 0 <= i < x.len() implies r[i] == x[i] by {
        assert(diff(h, x)[i] == changed(h, x, i));
        if i < h.len() { assert(full.subrange(0, h.len() as int)[i] == h[i]); }
    }
    assert(r.subrange(0, x.len() as int) =~= x);
    if x.len() >= full.len() { assert(r =~= x); }
}
"""

PAIR = r"""
/// one step of a compressor and a decompressor that follow the same history
fn pair(c: &mut TextDiff, d: &mut TextDiff, x: &str)
    requires
        plain(x.spec_bytes()), ascii(old(c).buffer@), ascii(old(d).buffer@), starts_as(old(d).buffer@, old(c).buffer@),
    ensures
        ascii(final(c).buffer@), ascii(final(d).buffer@), starts_as(final(d).buffer@, final(c).buffer@),
{
    let ghost h = c.buffer@;
    let ghost full = d.buffer@;
    let y = c.compress(x);
    let r = d.decompress(y);
    proof { round_trip(h, full, x.spec_bytes()); }
    assert(starts_as(r.spec_bytes(), x.spec_bytes()));
    assert(x.spec_bytes().len() >= full.len() ==> r.spec_bytes() == x.spec_bytes());
}
fn canary(s: &mut TextDiff, x: &str)
    requires plain(x.spec_bytes()), ascii(old(s).buffer@),
{
    let t = s.compress(x);
    assert(false);
}
"""


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    st = find_item(s, r"pub struct TextDiff\b")
    im = find_item(s, r"impl TextDiff\b")
    f = st + "\n" + im
    f = re.sub(r"\bString\b", "Text", f)
    f = f.replace("buffer: Text", "pub buffer: Text").replace("compressed: Text", "pub compressed: Text")
    f = f.replace("std::cmp::min(", "vmin(")
    f = strs.cuts(f)
    f = re.sub(r"\b(self\.(?:buffer|compressed)(?:\.cut\w*\([^()]*\))?|\w+)\.to_string\(\)",
               lambda m: f"Text::of({m[1]}{'.as_text()' if re.fullmatch(r'self[.](buffer|compressed)', m[1]) else ''})", f)
    f = re.sub(r"&self\.(buffer|compressed)\s*\n", r"self.\1.as_text()\n", f)
    f = re.sub(r"\b(\w+)\.bytes\(\)", r"bytes(\1)", f)
    # decompress
    a, b, e = find_fn(f, "decompress")
    g = f[a:e]
    g, n = re.subn(r"for \((\w+), (\w+)\) in bytes\.enumerate\(\) \{", r"""let mut bytes = bytes;
            let mut verif_i: usize = 0;
            let ghost from = buf@;
            while let Some(\2) = bytes.next()
                invariant
                    verif_i + bytes@.len() == data.spec_bytes().len(), data.spec_bytes().len() <= buf@.len(), buf@.len() == from.len(), data.spec_bytes().len() <= isize::MAX,
                    bytes@ == data.spec_bytes().subrange(verif_i as int, data.spec_bytes().len() as int),
                    forall|i: int| 0 <= i < verif_i ==> (#[trigger] buf@[i]) == applied(from, data.spec_bytes(), i),
                    forall|i: int| verif_i <= i < from.len() ==> (#[trigger] buf@[i]) == from[i],
                    final(buf)@ == fin,
                ensures verif_i == data.spec_bytes().len(),
                decreases bytes@.len(),
            {
                let \1 = verif_i;
                verif_i += 1;""", g)
    if n != 1:
        raise Lost("loop of decompress")
    g = g.replace("final(buf)@ == fin,\n", "")
    f = f[:a] + g + f[e:]
    # compress
    a, b, e = find_fn(f, "compress")
    g = f[a:e]
    g, n = re.subn(r"while let Some\((\w+)\) = buffered\.next\(\) \{", r"""let ghost all = compressed.remaining();
            let ghost h = buffered.remaining();
            let ghost x = bytes.remaining();
            let ghost n = buf_len as int;
            let ghost mut k: int = 0;
            while let Some(verif_b) = buffered.next()
                invariant
                    0 <= k <= n, n == h.len(), all.len() == n, x.len() >= n,
                    buffered.remaining() == h.subrange(k, n), compressed.remaining() == all.subrange(k, n), bytes.remaining() == x.subrange(k, x.len() as int),
                    forall|i: int| 0 <= i < k ==> *final(#[trigger] all[i]) == (if *x[i] == *h[i] { 32u8 } else if *x[i] == 32 { 38u8 } else { *x[i] }),
                ensures k == n,
                decreases n - k,
            {
                let \1 = verif_b;
                proof { k = k + 1; }""", g)
    if n != 1:
        raise Lost("first loop of compress")
    g, n = re.subn(r"while let Some\((\w+)\) = compressed\.next\(\) \{", r"""let ghost all2 = compressed.remaining();
                let ghost n2 = len - buf_len;
                let ghost mut k2: int = 0;
                while let Some(\1) = compressed.next()
                    invariant
                        0 <= k2 <= n2, all2.len() == n2,
                        compressed.remaining() == all2.subrange(k2, n2),
                        data.spec_bytes().len() == buf_len + n2,
                        forall|i: int| k2 <= i < n2 ==> *(#[trigger] all2[i]) == data.spec_bytes()[buf_len + i],
                        forall|i: int| 0 <= i < k2 ==> *final(#[trigger] all2[i]) == (if data.spec_bytes()[buf_len + i] == 32 { 38u8 } else { data.spec_bytes()[buf_len + i] }),
                    ensures k2 == n2,
                    decreases n2 - k2,
                {
                    proof { k2 = k2 + 1; }""", g)
    if n != 1:
        raise Lost("second loop of compress")
    g, n = re.subn(r"self\.buffer = Text::of\(data\);", """proof {
            assert(h1.len() == buf_len && self.compressed@.len() == buf_len);
            assert(forall|i: int| 0 <= i < buf_len ==> (#[trigger] self.compressed@[i]) == changed(old(self).buffer@, data.spec_bytes(), i));
        }
        let ghost done = self.compressed@;
        self.buffer = Text::of(data);""", g)
    if n != 1:
        raise Lost("new history of compress")
    g = g.replace("unsafe {", "let ghost h1 = self.buffer@;\n        unsafe {", 1)
    g = re.sub(r"([\w.]+\(\))\.iter_mut\(\)\.skip\((\w+)\)", r"iter_mut_skip(\1, \2)", g)
    i = g.rindex("self.compressed.as_text()")
    g = g[:i] + """proof {
            assert(forall|i: int| 0 <= i < buf_len ==> (#[trigger] self.compressed@[i]) == done[i]);
            assert(forall|i: int| buf_len <= i < len ==> (#[trigger] self.compressed@[i]) == changed(old(self).buffer@, data.spec_bytes(), i));
        }
        """ + g[i:]
    f = f[:a] + g + f[e:]
    f = splice(f, "new", "        ensures r.buffer@ == data.spec_bytes(), r.compressed@ == data.spec_bytes(),", ret="r")
    f = splice(f, "force_init", "        ensures final(self).buffer@ == data.spec_bytes(), final(self).compressed@ == data.spec_bytes(),")
    f = splice(f, "decompress", """        requires ascii(old(self).buffer@), ascii(data.spec_bytes()),
        ensures final(self).buffer@ =~= apply(old(self).buffer@, data.spec_bytes()), r.spec_bytes() == final(self).buffer@, ascii(final(self).buffer@),""", ret="r")
    f = splice(f, "compress", """        requires ascii(old(self).buffer@), ascii(data.spec_bytes()),
        ensures final(self).buffer@ == data.spec_bytes(), r.spec_bytes() =~= diff(old(self).buffer@, data.spec_bytes()), ascii(r.spec_bytes()),""", ret="r")
    f = re.sub(r"#\[derive\([^)]*\)\]\s*", "", f)
    return strs.PRELUDE + MODEL + f + PAIR + "fn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
