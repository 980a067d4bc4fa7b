"""Contracts of the text routines of the standard library (assumed), and the
lemmas about ASCII columns (proved), shared by the units that read columns."""

import re
from extract import Lost, find_item, find_fn

TRUSTED = [
    "str::trim on ASCII text removes the leading and trailing white bytes (assumed)",
    "str::parse and FromStr::from_str are functions of the bytes of the text (assumed; the number or code they denote is left abstract)",
    "the length of a str fits isize (language guarantee)",
    "vstd's contracts of str::{len, split_at} over UTF-8 bytes",
    "`&s[a..b]`, `s.get(a..b)`: the bytes a..b of s, where both are boundaries of characters (language guarantee; vstd states the precondition only)",
]

PRELUDE = r"""use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::str::FromStr;
verus! {

pub mod strs {
use super::*;

pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]) < 128 }
/// no vertical tab, which str::trim removes and which does not end a word
pub open spec fn tidy(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]) < 128 && b[i] != 11 }
pub open spec fn white(c: u8) -> bool { c == 32 || (9 <= c && c <= 13) }
pub open spec fn ltrim(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b[0]) { ltrim(b.subrange(1, b.len() as int)) } else { b } }
pub open spec fn rtrim(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 0 && white(b.last()) { rtrim(b.drop_last()) } else { b } }
pub open spec fn trim(b: Seq<u8>) -> Seq<u8> { rtrim(ltrim(b)) }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// columns a..b of a line that may be shorter
pub open spec fn cols(l: Seq<u8>, a: int, b: int) -> Seq<u8> { l.subrange(min(a, l.len() as int), min(b, l.len() as int)) }

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(std::num::ParseFloatError);

/// what a text denotes
pub uninterp spec fn parsed<F>(b: Seq<u8>) -> Option<F>;

pub assume_specification<F: FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
    ensures match r { Ok(v) => parsed::<F>(s.spec_bytes()) == Some(v), Err(_) => parsed::<F>(s.spec_bytes()) is None };
pub assume_specification[ str::trim ](s: &str) -> (r: &str)
    ensures ascii(s.spec_bytes()) ==> r.spec_bytes() == trim(s.spec_bytes()) && ascii(r.spec_bytes());
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str)
    ensures ascii(s.spec_bytes()) ==> r.spec_bytes() == rtrim(s.spec_bytes()) && ascii(r.spec_bytes());

pub axiom fn str_len(s: &str) ensures s.spec_bytes().len() <= isize::MAX;

pub proof fn ascii_valid(b: Seq<u8>)
    requires ascii(b)
    ensures valid_utf8(b)
    decreases b.len()
{
    reveal_with_fuel(valid_utf8, 2);
    if b.len() > 0 {
        let r = pop_first_scalar(b);
        assert(r =~= b.subrange(1, b.len() as int));
        ascii_valid(r);
    }
}
pub broadcast proof fn ascii_boundary(b: Seq<u8>, i: int)
    requires ascii(b), 0 <= i <= b.len()
    ensures #[trigger] is_char_boundary(b, i)
    decreases b.len()
{
    ascii_valid(b);
    reveal_with_fuel(is_char_boundary, 2);
    if i > 0 {
        let r = pop_first_scalar(b);
        assert(r =~= b.subrange(1, b.len() as int));
        ascii_boundary(r, i - 1);
    }
}
pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
pub broadcast proof fn sub_cat(s: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len()
    ensures #[trigger] (s.subrange(a, b) + s.subrange(b, c)) == s.subrange(a, c)
{
    assert(s.subrange(a, b) + s.subrange(b, c) =~= s.subrange(a, c));
}
pub broadcast proof fn str_valid(s: &str)
    ensures valid_utf8(#[trigger] s.spec_bytes()), s.spec_bytes().len() <= isize::MAX
{
    encode_utf8_valid_utf8(s@);
    str_len(s);
}

/// `&s[a..b]`
pub trait Cut {
    spec fn cut_bytes(&self) -> Seq<u8>;
    fn cut(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b <= self.cut_bytes().len(), is_char_boundary(self.cut_bytes(), a as int), is_char_boundary(self.cut_bytes(), b as int),
        ensures r.spec_bytes() == self.cut_bytes().subrange(a as int, b as int);
    fn cut_from(&self, a: usize) -> (r: &str)
        requires a <= self.cut_bytes().len(), is_char_boundary(self.cut_bytes(), a as int),
        ensures r.spec_bytes() == self.cut_bytes().subrange(a as int, self.cut_bytes().len() as int);
    fn get_cut(&self, a: usize, b: usize) -> (r: Option<&str>)
        ensures
            r is Some <==> a <= b <= self.cut_bytes().len() && is_char_boundary(self.cut_bytes(), a as int) && is_char_boundary(self.cut_bytes(), b as int),
            r is Some ==> r.unwrap().spec_bytes() == self.cut_bytes().subrange(a as int, b as int);
    fn get_from(&self, a: usize) -> (r: Option<&str>)
        ensures
            r is Some <==> a <= self.cut_bytes().len() && is_char_boundary(self.cut_bytes(), a as int),
            r is Some ==> r.unwrap().spec_bytes() == self.cut_bytes().subrange(a as int, self.cut_bytes().len() as int);
}
impl Cut for str {
    open spec fn cut_bytes(&self) -> Seq<u8> { self.spec_bytes() }
    #[verifier::external_body]
    fn cut(&self, a: usize, b: usize) -> &str { &self[a..b] }
    #[verifier::external_body]
    fn cut_from(&self, a: usize) -> &str { &self[a..] }
    #[verifier::external_body]
    fn get_cut(&self, a: usize, b: usize) -> Option<&str> { self.get(a..b) }
    #[verifier::external_body]
    fn get_from(&self, a: usize) -> Option<&str> { self.get(a..) }
}

/// text patterns
pub uninterp spec fn has(s: Seq<u8>, p: Seq<u8>) -> bool;
pub open spec fn prefix(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.subrange(0, p.len() as int) == p }
#[verifier::external_body]
pub fn starts(s: &str, p: &str) -> (r: bool) ensures r == prefix(s.spec_bytes(), p.spec_bytes()) { s.starts_with(p) }
/// an ASCII character
#[verifier::external_body]
pub fn starts_char(s: &str, c: char) -> (r: bool) requires c as u32 <= 127 ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes()[0] == c as u8) { s.starts_with(c) }
#[verifier::external_body]
pub fn contains(s: &str, p: &str) -> (r: bool) ensures r == has(s.spec_bytes(), p.spec_bytes()) { s.contains(p) }
#[verifier::external_body]
pub fn string_of(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// unwrap_or_default
#[verifier::external_body]
pub fn or_empty<'a>(s: Option<&'a str>) -> (r: &'a str)
    ensures s is Some ==> r == s.unwrap(), s is None ==> r.spec_bytes().len() == 0
{ s.unwrap_or_default() }

#[verifier::external_body]
pub fn all_ascii(s: &str) -> (r: bool) ensures r == ascii(s.spec_bytes()) { s.is_ascii() }
#[verifier::external_body]
pub fn push_str(s: &mut String, t: &str) ensures encode_utf8(final(s)@) == encode_utf8(old(s)@) + t.spec_bytes(), encode_utf8(final(s)@).len() <= isize::MAX { s.push_str(t) }
pub uninterp spec fn words_of(b: Seq<u8>) -> Seq<Seq<u8>>;
/// the words that are left (behind str::split_ascii_whitespace)
#[verifier::external_body]
pub struct Words<'a> { it: std::str::SplitAsciiWhitespace<'a> }
impl<'a> View for Words<'a> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
#[verifier::external_body]
pub fn words<'a>(s: &'a str) -> (r: Words<'a>)
    ensures r@ == words_of(s.spec_bytes()), r@.len() <= isize::MAX, ascii(s.spec_bytes()) ==> forall|i: int| 0 <= i < r@.len() ==> ascii(#[trigger] r@[i]),
        tidy(s.spec_bytes()) ==> forall|i: int| 0 <= i < r@.len() ==> trim(#[trigger] r@[i]) == r@[i]
{ Words { it: s.split_ascii_whitespace() } }
impl<'a> Words<'a> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.it.count() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(l) => old(self)@.len() > 0 && l.spec_bytes() == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { self.it.next() }
}

#[verifier::external_body]
pub fn same(s: &str, t: &str) -> (r: bool) ensures r == (s.spec_bytes() == t.spec_bytes()) { s == t }
#[verifier::external_body]
pub fn is_empty_str(s: &str) -> (r: bool) ensures r == (s.spec_bytes().len() == 0) { s.is_empty() }
/// the place of the first c
pub open spec fn index_of(b: Seq<u8>, c: u8) -> int decreases b.len() { if b.len() == 0 || b[0] == c { 0 } else { 1 + index_of(b.subrange(1, b.len() as int), c) } }
/// s.find(c)
#[verifier::external_body]
pub fn find_char(s: &str, c: char) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < s.spec_bytes().len() && i == index_of(s.spec_bytes(), c as u8) && s.spec_bytes()[i as int] == c as u8 && forall|k: int| 0 <= k < i ==> (#[trigger] s.spec_bytes()[k]) != c as u8,
        None => index_of(s.spec_bytes(), c as u8) == s.spec_bytes().len() && forall|k: int| 0 <= k < s.spec_bytes().len() ==> (#[trigger] s.spec_bytes()[k]) != c as u8,
    }
{ s.find(c) }

/// the lines that are left (behind std::str::Lines)
#[verifier::external_body]
pub struct Lines<'a> { it: std::str::Lines<'a> }
impl<'a> View for Lines<'a> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
pub uninterp spec fn lines_of(b: Seq<u8>) -> Seq<Seq<u8>>;
/// str::lines
#[verifier::external_body]
pub fn lines<'a>(s: &'a str) -> (r: Lines<'a>)
    ensures r@ == lines_of(s.spec_bytes()), r@.len() <= s.spec_bytes().len(), ascii(s.spec_bytes()) ==> forall|i: int| 0 <= i < r@.len() ==> ascii(#[trigger] r@[i])
{ Lines { it: s.lines() } }
impl<'a> Lines<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(l) => old(self)@.len() > 0 && l.spec_bytes() == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { self.it.next() }
}
}
use strs::*;
broadcast use {strs::ascii_boundary, strs::sub_sub, strs::sub_cat, strs::str_valid};
"""

def prelude_columns(any=""):
    """PRELUDE, with the lemmas of chains of split_columns; any="_any": of any columns"""
    return PRELUDE.replace("strs::str_valid}", f"strs::str_valid, columns::cols_from{any}, columns::from_from, columns::from_0, columns::from_cols{any}, columns::cols_cols{any}, columns::from_less}}")


CANARY = """
fn canary(s: &str)
    requires ascii(s.spec_bytes()),
{
    let t = s.trim();
    assert(false);
}
"""


def fromstr(t, err="u8"):
    """an opaque type that is read from a text"""
    return f"""
impl FromStr for {t} {{
    type Err = {err};
    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<{t}, {err}>)
        ensures match r {{ Ok(v) => parsed::<{t}>(s.spec_bytes()) == Some(v), Err(_) => parsed::<{t}>(s.spec_bytes()) is None }}
    {{ unimplemented!() }}
}}
"""


def patterns(f):
    """method calls of str that take a pattern -> functions with a contract"""
    f = re.sub(r"\b(\w+)\.starts_with\((\"[^\"]*\")\)", r"starts(\1, \2)", f)
    f = re.sub(r"\b(\w+)\.starts_with\(('[^']')\)", r"starts_char(\1, \2)", f)
    f = re.sub(r"\b(\w+)\.contains\((\"[^\"]*\")\)", r"contains(\1, \2)", f)
    f = re.sub(r"\b(\w+)\.to_string\(\)", r"string_of(\1)", f)
    f = re.sub(r"\b(\w+)\.is_ascii\(\)", r"all_ascii(\1)", f)
    f = re.sub(r"\b(\w+)\.find\(('[^']')\)", r"find_char(\1, \2)", f)
    f = re.sub(r"\b(\w+\.(?:cut|cut_from)\([^()]*\))\.(?:to_string|to_owned)\(\)", r"string_of(\1)", f)
    f = re.sub(r"\b(\w+)\.to_owned\(\)", r"string_of(\1)", f)
    f = re.sub(r"\b(\w+)\.push_str\(", r"push_str(&mut \1, ", f)
    f = re.sub(r"\b(\w+)\.trim\(\)\.to_string\(\)", r"string_of(\1.trim())", f)
    f = re.sub(r'"[^"]*"\.len\(\)', lambda m: str(len(m[0].split('"')[1])), f)
    f = re.sub(r"\b(\w+)\.lines\(\)", r"lines(\1)", f)
    f = re.sub(r"\b(\w+\.next\(\)|\w+\.get_(?:cut|from)\([^()]*\))\s*\.unwrap_or\(\"\"\)", r"or_empty(\1)", f)
    return re.sub(r"((?:\w+)\.get_(?:cut|from)\([^()]*\))\s*\.unwrap_or_default\(\)", r"or_empty(\1)", f)


def words_loop(f, word, known, nth=""):
    """`for (i, w) in x.split_ascii_whitespace().enumerate()` -> `while let`;
    `known` are invariants over the words `word` and the counter verif_n"""
    f, n = re.subn(r"for \((\w+), (\w+)\) in (\w+)\.split_ascii_whitespace\(\)\.enumerate\(\) \{", lambda m: f"""let mut verif_w = words({m[3]});
    let mut verif_n: usize = 0;
    let ghost {word} = verif_w@;
    while let Some({m[2]}) = verif_w.next()
        invariant
            {word} == words_of({m[3]}.spec_bytes()),
            verif_n + verif_w@.len() == {word}.len(), {word}.len() <= isize::MAX,
            verif_w@ == {word}.subrange(verif_n as int, {word}.len() as int),
            ascii({m[3]}.spec_bytes()) ==> forall|i: int| 0 <= i < {word}.len() ==> ascii(#[trigger] {word}[i]),
            tidy({m[3]}.spec_bytes()) ==> forall|i: int| 0 <= i < {word}.len() ==> trim(#[trigger] {word}[i]) == {word}[i],
            {known}
        ensures verif_n == {word}.len(),
        decreases verif_w@.len(),
    {{
        let {m[1]} = verif_n;
        verif_n += 1;
        proof {{ assert({m[2]}.spec_bytes() == {word}[{m[1]} as int]); }}""", f)
    if n != 1:
        raise Lost("loop over the words")
    return f


def words_for(f, word, known):
    """`for w in x.split_ascii_whitespace()` -> `while let` over the words, with
    the counter verif_n (of the words that are done)"""
    f, n = re.subn(r"for (\w+) in (\w+)\.split_ascii_whitespace\(\) \{", lambda m: f"""let mut verif_w = words({m[2]});
    let ghost {word} = verif_w@;
    let ghost mut verif_n: int = 0;
    while let Some({m[1]}) = verif_w.next()
        invariant
            0 <= verif_n, verif_n + verif_w@.len() == {word}.len(),
            verif_w@ == {word}.subrange(verif_n as int, {word}.len() as int),
            ascii({m[2]}.spec_bytes()) ==> forall|i: int| 0 <= i < {word}.len() ==> ascii(#[trigger] {word}[i]),
            tidy({m[2]}.spec_bytes()) ==> forall|i: int| 0 <= i < {word}.len() ==> trim(#[trigger] {word}[i]) == {word}[i],
            {word} == words_of({m[2]}.spec_bytes()),
            {known}
        ensures verif_n == {word}.len(),
        decreases verif_w@.len(),
    {{
        proof {{ assert({m[1]}.spec_bytes() == {word}[verif_n]); verif_n = verif_n + 1; }}""", f)
    if n != 1:
        raise Lost("loop over the words")
    return f


COLUMNS = r"""
pub mod columns {
use super::*;
/// the character where column n starts
#[verifier::external_body]
pub fn char_offset(s: &str, n: usize) -> (r: usize)
    ensures r <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), r as int), ascii(s.spec_bytes()) ==> r == min(n as int, s.spec_bytes().len() as int)
{ s.char_indices().nth(n).map_or(s.len(), |(i, _)| i) }
pub trait Columns: Cut {
    fn split_columns(&self, n: usize) -> (r: (&str, &str))
        ensures
            ascii(self.cut_bytes()) ==> {
                &&& r.0.spec_bytes() == cols(self.cut_bytes(), 0, n as int)
                &&& r.1.spec_bytes() == from(self.cut_bytes(), n as int)
                &&& ascii(r.0.spec_bytes()) && ascii(r.1.spec_bytes())
            };
}
/// columns n.. of a line that may be shorter
pub open spec fn from(l: Seq<u8>, n: int) -> Seq<u8> { l.subrange(min(n, l.len() as int), l.len() as int) }
pub broadcast proof fn cols_from(l: Seq<u8>, k: int, n: int)
    requires k >= 0, n >= 0
    ensures #[trigger] cols(from(l, k), 0, n) == cols(l, k, k + n)
{ assert(cols(from(l, k), 0, n) =~= cols(l, k, k + n)); }
pub broadcast proof fn from_0(l: Seq<u8>)
    ensures #[trigger] from(l, 0) == l
{ assert(from(l, 0) =~= l); }
pub broadcast proof fn from_cols(l: Seq<u8>, k: int, n: int)
    requires 0 <= k <= n
    ensures #[trigger] from(cols(l, 0, n), k) == cols(l, k, n)
{ assert(from(cols(l, 0, n), k) =~= cols(l, k, n)); }
pub broadcast proof fn cols_cols(l: Seq<u8>, k: int, n: int)
    requires 0 <= k <= n
    ensures #[trigger] cols(cols(l, 0, n), 0, k) == cols(l, 0, k)
{ assert(cols(cols(l, 0, n), 0, k) =~= cols(l, 0, k)); }
/// the same, anywhere in a line
pub broadcast proof fn cols_from_any(l: Seq<u8>, k: int, a: int, b: int)
    requires k >= 0, 0 <= a <= b
    ensures #[trigger] cols(from(l, k), a, b) == cols(l, k + a, k + b)
{ assert(cols(from(l, k), a, b) =~= cols(l, k + a, k + b)); }
pub broadcast proof fn from_cols_any(l: Seq<u8>, a: int, b: int, k: int)
    requires 0 <= a, 0 <= k <= b - a
    ensures #[trigger] from(cols(l, a, b), k) == cols(l, a + k, b)
{ assert(from(cols(l, a, b), k) =~= cols(l, a + k, b)); }
pub broadcast proof fn cols_cols_any(l: Seq<u8>, a: int, b: int, k: int, n: int)
    requires 0 <= a <= b, 0 <= k <= n <= b - a
    ensures #[trigger] cols(cols(l, a, b), k, n) == cols(l, a + k, a + n)
{ assert(cols(cols(l, a, b), k, n) =~= cols(l, a + k, a + n)); }
pub broadcast proof fn from_less(l: Seq<u8>, n: int)
    requires n > 0, l.len() > 0
    ensures #[trigger] from(l, n).len() < l.len()
{ }
pub broadcast proof fn from_from(l: Seq<u8>, k: int, n: int)
    requires k >= 0, n >= 0
    ensures #[trigger] from(from(l, k), n) == from(l, k + n)
{ assert(from(from(l, k), n) =~= from(l, k + n)); }
}
use columns::*;
"""
COLUMNS_DROP = "`self.char_indices().nth(n).map_or(self.len(), |(i, _)| i)` -> `char_offset(self, n)`"


def opaque_columns(f):
    """reason about chains of split_columns by the two lemmas only"""
    i = f.index("{")
    return f[:i + 1] + "\n        hide(cols); hide(from);" + f[i + 1:]


def columns(repo):
    """the trait Columns and its implementation (src/header/parsing.rs)"""
    s = open(f"{repo}/src/header/parsing.rs").read()
    f = find_item(s, r"impl Columns for str\b")
    return COLUMNS + re.sub(r"self\s*\.char_indices\(\)\s*\.nth\(n\)\s*\.map_or\(self\.len\(\), \|\(i, _\)\| i\)", "char_offset(self, n)", f) + "\n"


def enum(f, name):
    """an enum with the unit variants of `name` that the text mentions"""
    v = sorted(set(re.findall(name + r"::([A-Z]\w*)", f)))
    return f"#[derive(Debug)]\npub enum {name} {{ {', '.join(v + ['Other'])} }}\n"


PATTERN_DROP = "str::{lines, split_ascii_whitespace, is_ascii, find(ASCII char), push_str, to_owned, starts_with, contains, to_string} with literals, Option<&str>::unwrap_or_default -> functions of the same meaning, with a contract"
DROP = "`&s[a..b]` -> `s.cut(a, b)`, `s.get(a..b)` -> `s.get_cut(a, b)` (the same text, with a contract)"


def cuts(f):
    """`&s[a..b]` -> `s.cut(a, b)`"""
    def index(m):
        s, a, b = m[1], m[2].strip(), m[3].strip()
        return f"{s}.cut({a or 0}, {b})" if b else f"{s}.cut_from({a or 0})"
    def get(m):
        a, b = m[1].strip(), m[2].strip()
        return f".get_cut({a or 0}, {b})" if b else f".get_from({a or 0})"
    f = re.sub(r"&?\b([A-Za-z_]\w*)\[([^\[\]]*?)\.\.([^\[\]=]*?)\]", index, f)
    return re.sub(r"\.get\(([^()]*?)\.\.([^()=]*?)\)", get, f)


def method(s, header, name, type):
    """function `name` of the impl block `header`, as an inherent function of
    `type` (the same text)"""
    im = find_item(s, header)
    a, b, e = find_fn(im, name)
    f = im[a:e]
    m = re.search(r"type Err = ([\w:]+);", im)
    if m:
        f = f.replace("Self::Err", m[1])
    f = re.sub(r"\|_\|", "|_e|", f)
    return f if f.startswith("pub") else "pub " + f


def plain(s, pattern):
    """a struct or enum without its attributes and comments, all fields visible"""
    t = find_item(s, pattern)
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"#\[[^\]]*\]", "", t)
    return t.replace("pub(crate) ", "pub ") + "\n"


METHOD_DROP = "the function of an `impl FromStr` block -> an inherent function of the same text; attributes and derives of the type"


MATCH_DROP = "`match text { \"A\" | \"B\" => x, _ => y }` -> `if same(text, \"A\") || same(text, \"B\") { x } else { y }`"


def arms(body):
    """[(pattern, expression)] of the arms of a match"""
    r, i, n = [], 0, len(body)
    while True:
        while i < n and body[i] in " \t\n,":
            i += 1
        if body.startswith("//", i):
            i = body.find("\n", i)
            continue
        if i >= n:
            return r
        j = body.find("=>", i)
        if j < 0:
            raise Lost("arm of a match")
        pat, k, d = body[i:j].strip(), j + 2, 0
        while body[k] in " \n":
            k += 1
        start = k
        if body[k] == "{":
            from extract import match_brace
            k = match_brace(body, k)
        else:
            while k < n and (body[k] != "," or d):
                d += (body[k] in "([{") - (body[k] in ")]}")
                k += 1
        r.append((pat, body[start:k].strip()))
        i = k


def match_text(f):
    """a match on the text of a str"""
    from extract import match_brace
    while True:
        m = re.search(r"match (\w+(?:\.\w+\(\))*) (\{)(?=\s*(?://[^\n]*\s*)*\")", f)
        if not m:
            return f
        e = match_brace(f, m.start(2))
        out = f"{{ let verif_t: &str = {m[1]}; "
        for pat, x in arms(f[m.end(2):e - 1]):
            if " if " in pat:
                raise Lost("guard of an arm")
            if '"' not in pat:
                out += f"{{ {'' if pat == '_' else f'let {pat} = verif_t; '}{x} }}"
                break
            out += f"if {' || '.join('is_empty_str(verif_t)' if p.strip() == '""' else f'same(verif_t, {p.strip()})' for p in pat.split('|'))} {{ {x} }} else "
        f = f[:m.start()] + out + " }" + f[e:]
