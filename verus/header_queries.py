"""What a file tells of its biases, phase centres and merges (src/lib.rs): the
questions asked of the header answer for all its fields."""
import re
from extract import *
from record_iters import bare, close

LIB = "src/lib.rs"
DROPS = [
    "`Vec<T>`.iter() -> an iterator type whose view is the sequence of references to its items; `for c in comments.iter()` -> a loop over the indices",
    "String -> a type with a substring predicate; the text looked for -> the same type (its bytes are checked to be FILE MERGE by the extraction)",
    "`|x| body` -> `|x: T| -> (out: bool) ensures .. { body }`",
    "the other fields of the header, the other fields of the compensations, doc comments",
]
TRUSTED = [
    "the iterator adaptors filter, count, any of std: their documented results",
    "str::contains (a predicate over both strings), the derived PartialEq of Constellation",
]
MODEL = r"""
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn kept<B>(o: Seq<Option<B>>) -> Seq<B> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { match o.last() { Some(b) => kept(o.drop_last()).push(b), None => kept(o.drop_last()) } }
}
pub open spec fn picks<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> { kept(s.map_values(g)) }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures forall|g: spec_fn(T) -> Option<T>| (forall|i: int, o: bool| 0 <= i < self@.len() && #[trigger] f.ensures((&self@[i],), o) ==> g(self@[i]) == if o { Some(self@[i]) } else { None }) ==> r@ == #[trigger] picks(self@, g)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub struct List<T> { v: Vec<T> }
impl<T> List<T> {
    pub closed spec fn items(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>) ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> *(#[trigger] r@[i]) == self.items()[i] { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self.items().len() { self.v.len() }
    pub fn at(&self, i: usize) -> (r: &T) requires i < self.items().len() ensures *r == self.items()[i as int] { &self.v[i] }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Constellation { pub c: u8 }
pub struct DcbCompensation { pub constellation: Constellation }
pub struct PcvCompensation { pub constellation: Constellation }
#[verifier::external_body]
pub struct Text { s: String }
pub uninterp spec fn file_merge() -> Text;
#[verifier::external_body]
pub fn the_text() -> (r: Text) ensures r == file_merge() { unimplemented!() }
impl Text {
    pub uninterp spec fn has(&self, o: Text) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, o: &Text) -> (r: bool) ensures r == self.has(*o) { unimplemented!() }
}
pub struct Header { pub dcb_compensations: List<DcbCompensation>, pub pcv_compensations: List<PcvCompensation>, pub comments: List<Text> }
pub struct Rinex { pub header: Header }
/// something is kept exactly when one of them is
pub proof fn some_kept<A, B>(s: Seq<A>, g: spec_fn(A) -> Option<B>)
    ensures (picks(s, g).len() > 0) == (exists|i: int| 0 <= i < s.len() && (#[trigger] g(s[i])) is Some)
    decreases s.len()
{
    let o = s.map_values(g);
    if s.len() > 0 {
        let p = s.drop_last();
        some_kept(p, g);
        assert(o.drop_last() =~= p.map_values(g));
        assert(o.last() == g(s.last()));
        if picks(p, g).len() > 0 { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] g(p[i])) is Some; assert(g(s[i]) is Some); }
        if g(s.last()) is Some { assert(g(s[s.len() - 1]) is Some); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] g(s[i])) is Some {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] g(s[i])) is Some;
            if i < s.len() - 1 { assert(g(p[i]) is Some); }
        }
    }
}
"""
CONTRACTS = ["dcb_compensation", "pcv_compensation", "is_merged"]
CANARIES = ["canary"]


def unit(repo):
    lib = bare(open(f"{repo}/{LIB}").read())
    text = MODEL + "impl Rinex {\n"
    for name, ty in (("dcb_compensation", "DcbCompensation"), ("pcv_compensation", "PcvCompensation")):
        f = lib[find_fn(lib, name)[0]:find_fn(lib, name)[2]]
        m = re.search(r"self\s*\.header\s*\.(\w+_compensations)\s*\.iter\(\)\s*\.filter\(\s*\|(\w+)\|(.*?)\)\s*\.count\(\)", f, flags=re.S)
        if not m:
            raise Lost(name)
        f = f[:m.start()] + f"""let verif_i = self.header.{m[1]}.iter();
        let ghost verif_g = |x: &{ty}| if x.constellation == constellation {{ Some(x) }} else {{ None::<&{ty}> }};
        proof {{
            some_kept(verif_i@, verif_g);
            let l = self.header.{m[1]}.items();
            assert((exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).constellation == constellation) ==> exists|i: int| 0 <= i < verif_i@.len() && (#[trigger] verif_g(verif_i@[i])) is Some) by {{
                if exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).constellation == constellation {{ let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).constellation == constellation; assert(verif_g(verif_i@[i]) is Some); }}
            }}
            assert((exists|i: int| 0 <= i < verif_i@.len() && (#[trigger] verif_g(verif_i@[i])) is Some) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).constellation == constellation) by {{
                if exists|i: int| 0 <= i < verif_i@.len() && (#[trigger] verif_g(verif_i@[i])) is Some {{ let i = choose|i: int| 0 <= i < verif_i@.len() && (#[trigger] verif_g(verif_i@[i])) is Some; assert(l[i].constellation == constellation); }}
            }}
        }}
        let verif_n = verif_i.filter(|{m[2]}: &&{ty}| -> (out: bool) ensures out == (({m[2]}).constellation == constellation) {{{m[3]} }}).count();
        assert(verif_n == picks(verif_i@, verif_g).len());
        verif_n""" + f[m.end():]
        text += splice(f, name, f"        ensures r == (exists|i: int| 0 <= i < self.header.{name}s.items().len() && (#[trigger] self.header.{name}s.items()[i]).constellation == constellation),", ret="r") + "\n"
    f = lib[find_fn(lib, "is_merged")[0]:find_fn(lib, "is_merged")[2]]
    m = re.search(r"String::from\(\"FILE MERGE\"\)|\"FILE MERGE\"(?:\.to_string\(\))?", f)
    l = re.search(r"for (\w+) in (?:&self\.header\.comments|self\.header\.comments\.iter\(\))\s*\{", f)
    if not m or not l:
        raise Lost("is_merged")
    e = match_brace(f, l.end() - 1)
    inner = f[l.end():e - 1]
    f = f[:l.start()] + f"""let mut verif_k: usize = 0;
        while verif_k < self.header.comments.len()
            invariant verif_k <= self.header.comments.items().len(), special_comment == file_merge(), forall|j: int| 0 <= j < verif_k ==> !(#[trigger] self.header.comments.items()[j]).has(file_merge()),
            decreases self.header.comments.items().len() - verif_k
        {{ let {l[1]} = self.header.comments.at(verif_k); verif_k += 1; {inner} }}""" + f[e:]
    v = re.search(r"let (\w+)(?:: \w+)? = (?:String|\")", f)
    if not v:
        raise Lost("is_merged")
    f = f.replace("special_comment == file_merge()", v[1] + " == file_merge()").replace(m[0], "the_text()")
    text += splice(f, "is_merged", "        ensures r == (exists|i: int| 0 <= i < self.header.comments.items().len() && (#[trigger] self.header.comments.items()[i]).has(file_merge())),", ret="r") + "\n"
    return text + "}\nfn canary(r: &Rinex) { let i = r.is_merged(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
