"""The histogram of the sampling intervals and what is drawn from it
(src/sampling.rs): every interval between successive epochs is counted, once
under its own length."""
import re
from extract import *
from record_iters import bare, close

SAMP = "src/sampling.rs"
DROPS = [
    "`Box<dyn Iterator<Item = T> + '_>`, `Box::new(..)`, `.into_iter()` of a vector -> an iterator type whose view is the sequence of its items",
    "the body of the closure given to fold -> a function of its own; `for (a, b) in list.iter_mut()` -> a loop over the indices, `*a` and `*b += n` -> a read and a write of the element",
    "`|pattern| body` -> `|x: T| -> (out: ..) ensures .. { let pattern = x; body }`; `a - b` of dates -> minus; `a.cmp(b)` of counts -> cmp(a, b)",
    "derive attributes, doc comments",
]
TRUSTED = [
    "the iterator adaptors map, zip, skip, count, fold and max_by of std: their documented results (fold keeps what every step keeps)",
    "epoch_iter: the sequence of the epochs (decided by the native search of P18); a record has less than usize::MAX epochs",
    "hifitime (difference and equality of dates and durations), Ord of usize",
]

MODEL = r"""
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { t: core::marker::PhantomData<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn skipped<A>(s: Seq<A>, n: int) -> Seq<A> { if n <= s.len() { s.subrange(n, s.len() as int) } else { Seq::empty() } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: It<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>) ensures r@ == zipped(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r@ == skipped(self@, n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// what holds at first, and is kept by every step, holds at last
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F, Ghost(inv): Ghost<spec_fn(B, Seq<T>) -> bool>) -> (r: B)
        requires inv(init, Seq::empty()),
            forall|b: B, i: int| 0 <= i < self@.len() && #[trigger] inv(b, self@.take(i)) ==> f.requires((b, self@[i])),
            forall|b: B, i: int, o: B| 0 <= i < self@.len() && inv(b, self@.take(i)) && #[trigger] f.ensures((b, self@[i]), o) ==> inv(o, self@.take(i + 1)),
        ensures inv(r, self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: Option<T>)
        requires forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() ==> #[trigger] f.requires((&self@[i], &self@[j])),
        ensures r is None <==> self@.len() == 0,
            r matches Some(m) ==> self@.contains(m) && forall|g: spec_fn(T) -> int| #![trigger orders(f, g)] orders(f, g) ==> forall|i: int| 0 <= i < self@.len() ==> g(#[trigger] self@[i]) <= g(m)
    { unimplemented!() }
}
/// f compares by the number g
pub open spec fn orders<T, F: Fn(&T, &T) -> Ordering>(f: F, g: spec_fn(T) -> int) -> bool {
    forall|a: T, b: T, o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == by(g(a), g(b))
}
pub open spec fn by(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub fn cmp(a: &usize, b: &usize) -> (r: Ordering) ensures r == by(*a as int, *b as int) { if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater } }
pub fn boxed<T>(t: It<T>) -> (r: It<T>) ensures r == t { t }
#[verifier::external_body]
pub fn items<T>(v: Vec<T>) -> (r: It<T>) ensures r@ == v@ { unimplemented!() }

#[derive(Clone, Copy)]
pub struct Epoch { pub ns: i128 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub ns: i128 }
#[verifier::external_body]
pub fn minus(a: Epoch, b: Epoch) -> (r: Duration) ensures r.ns == a.ns - b.ns { unimplemented!() }

/// how many of these are d
pub open spec fn times(s: Seq<Duration>, d: Duration) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { times(s.drop_last(), d) + if s.last() == d { 1int } else { 0 } }
}
pub proof fn times_push(s: Seq<Duration>, x: Duration, d: Duration)
    ensures times(s.push(x), d) == times(s, d) + if x == d { 1int } else { 0 }
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn times_len(s: Seq<Duration>, d: Duration)
    ensures 0 <= times(s, d) <= s.len(),
        times(s, d) > 0 <==> s.contains(d)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        times_len(p, d);
        assert(s =~= p.push(s.last()));
        if p.contains(d) { let i = choose|i: int| 0 <= i < p.len() && p[i] == d; assert(s[i] == d); }
        if s.last() == d { assert(s[s.len() - 1] == d); }
        if s.contains(d) && s.last() != d { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; assert(p[i] == d); }
    }
}
pub open spec fn has(v: Seq<(Duration, usize)>, d: Duration) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == d }
/// v is the histogram of s: its lengths, each once, with their numbers
pub open spec fn histogram(v: Seq<(Duration, usize)>, s: Seq<Duration>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 == times(s, v[i].0) && v[i].1 >= 1
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0
    &&& forall|k: int| 0 <= k < s.len() ==> has(v, #[trigger] s[k])
}
/// one more
pub open spec fn counted(v: Seq<(Duration, usize)>, d: Duration, o: Seq<(Duration, usize)>) -> bool {
    if has(v, d) { exists|i: int| 0 <= i < v.len() && #[trigger] v[i].0 == d && o == v.update(i, (d, (v[i].1 + 1) as usize)) } else { o == v.push((d, 1)) }
}
pub proof fn counting(v: Seq<(Duration, usize)>, d: Duration, o: Seq<(Duration, usize)>, s: Seq<Duration>)
    requires histogram(v, s), counted(v, d, o), s.len() < usize::MAX
    ensures histogram(o, s.push(d))
{
    let t = s.push(d);
    assert forall|e: Duration| #[trigger] times(t, e) == times(s, e) + if d == e { 1int } else { 0 } by { times_push(s, d, e); }
    assert forall|e: Duration| 0 <= #[trigger] times(s, e) <= s.len() && (times(s, e) > 0 <==> s.contains(e)) by { times_len(s, e); }
    if has(v, d) {
        let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].0 == d && o == v.update(i, (d, (v[i].1 + 1) as usize));
        assert(o[i].0 == d);
        assert forall|j: int| 0 <= j < o.len() implies (#[trigger] o[j]).1 == times(t, o[j].0) && o[j].1 >= 1 by { assert(v[j].1 == times(s, v[j].0)); }
        assert forall|j: int, k: int| 0 <= j < k < o.len() implies (#[trigger] o[j]).0 != (#[trigger] o[k]).0 by { assert(v[j].0 != v[k].0); }
        assert forall|k: int| 0 <= k < t.len() implies has(o, #[trigger] t[k]) by {
            if k < s.len() { assert(has(v, s[k])); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == s[k]; assert(o[j].0 == s[k]); }
        }
    } else {
        assert(!s.contains(d)) by { if s.contains(d) { let k = choose|k: int| 0 <= k < s.len() && s[k] == d; assert(has(v, s[k])); } }
        assert(o[v.len() as int].0 == d);
        assert forall|j: int| 0 <= j < o.len() implies (#[trigger] o[j]).1 == times(t, o[j].0) && o[j].1 >= 1 by { if j < v.len() { assert(v[j].1 == times(s, v[j].0)); assert(v[j].0 != d); } }
        assert forall|j: int, k: int| 0 <= j < k < o.len() implies (#[trigger] o[j]).0 != (#[trigger] o[k]).0 by { assert(v[j].0 != d); if k < v.len() { assert(v[j].0 != v[k].0); } }
        assert forall|k: int| 0 <= k < t.len() implies has(o, #[trigger] t[k]) by {
            if k < s.len() { assert(has(v, s[k])); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == s[k]; assert(o[j].0 == s[k]); }
        }
    }
}
/// the intervals between successive epochs
pub open spec fn steps(s: Seq<Epoch>) -> Seq<Duration> { Seq::new(if s.len() == 0 { 0 } else { (s.len() - 1) as nat }, |i: int| Duration { ns: (s[i + 1].ns - s[i].ns) as i128 }) }
pub proof fn alike(v: Seq<(Duration, usize)>, s: Seq<Duration>)
    requires histogram(v, s)
    ensures v.len() == 0 <==> s.len() == 0,
        v.len() == 1 <==> s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == s[0]
{
    if s.len() > 0 { assert(has(v, s[0])); }
    if v.len() > 0 { assert(v[0].1 == times(s, v[0].0)); times_len(s, v[0].0); }
    if v.len() == 1 {
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == s[0] by { assert(has(v, s[k])); assert(has(v, s[0])); }
    }
    if v.len() > 1 {
        assert(v[0].0 != v[1].0);
        assert(v[1].1 == times(s, v[1].0)); times_len(s, v[1].0);
        let a = choose|k: int| 0 <= k < s.len() && s[k] == v[0].0;
        let b = choose|k: int| 0 <= k < s.len() && s[k] == v[1].0;
        assert(s[a] != s[b]);
    }
}
pub struct Rinex { r: u8 }
impl Rinex {
    pub uninterp spec fn epochs(&self) -> Seq<Epoch>;
    #[verifier::external_body]
    pub fn epoch_iter(&self) -> (r: It<Epoch>) ensures r@ == self.epochs() { unimplemented!() }
    #[verifier::external_body]
    pub proof fn few(&self) ensures self.epochs().len() < usize::MAX,
        forall|i: int| 0 <= i < self.epochs().len() - 1 ==> i128::MIN <= (#[trigger] self.epochs()[i + 1]).ns - self.epochs()[i].ns <= i128::MAX
    { }
}
"""
CONTRACTS = ["histogram_step", "sampling_histogram", "steady_sampling", "dominant_sampling_interval"]
CANARIES = ["canary"]
V = "(Duration, usize)"


def step(body, lst, dt):
    """the closure of fold, as a function"""
    m = re.search(r"for \((\w+), (\w+)\) in %s\.iter_mut\(\)\s*\{" % lst, body)
    g = re.search(r"let mut (\w+)(?:\s*:\s*bool)? = false;", body)
    if not m or not g:
        raise Lost("histogram_step")
    e = match_brace(body, m.end() - 1)
    inner = body[m.end():e - 1]
    inner = re.sub(r"\*%s \+= (\w+);" % m[2], rf"let verif_p = {lst}[verif_i]; {lst}.set(verif_i, (verif_p.0, verif_p.1 + \1));", inner)
    inner = re.sub(r"\*%s\b" % m[1], f"{lst}[verif_i].0", inner)
    inner = re.sub(r"\*%s\b" % m[2], f"{lst}[verif_i].1", inner)
    loop = f"""let ghost verif_v = {lst}@;
        let mut verif_k: usize = 0;
        while verif_k < {lst}.len()
            invariant verif_k <= {lst}.len(), verif_v.len() == {lst}.len(), forall|j: int| 0 <= j < verif_v.len() ==> (#[trigger] verif_v[j]).1 < usize::MAX,
                forall|i: int, j: int| 0 <= i < j < verif_v.len() ==> (#[trigger] verif_v[i]).0 != (#[trigger] verif_v[j]).0,
                {g[1]} ==> exists|i: int| 0 <= i < verif_k && #[trigger] verif_v[i].0 == {dt} && {lst}@ == verif_v.update(i, ({dt}, (verif_v[i].1 + 1) as usize)),
                !{g[1]} ==> {lst}@ == verif_v && forall|j: int| 0 <= j < verif_k ==> (#[trigger] verif_v[j]).0 != {dt},
            ensures !{g[1]} ==> verif_k == verif_v.len(),
            decreases {lst}.len() - verif_k
        {{ let verif_i = verif_k; verif_k += 1; {inner} }}
"""
    return f"""pub fn histogram_step({lst}0: Vec<{V}>, {dt}: Duration) -> (r: Vec<{V}>)
    requires forall|i: int| 0 <= i < {lst}0@.len() ==> (#[trigger] {lst}0@[i]).1 < usize::MAX,
        forall|i: int, j: int| 0 <= i < j < {lst}0@.len() ==> (#[trigger] {lst}0@[i]).0 != (#[trigger] {lst}0@[j]).0,
    ensures counted({lst}0@, {dt}, r@),
{{ let mut {lst} = {lst}0; {body[:m.start()]}{loop}{body[e:]} }}
"""


def closure(f, name, ty, out, what):
    """annotate the closure of `.name(`"""
    ms = list(re.finditer(r"\.%s\(\s*(?:move\s+)?\|(.*?)\|(?!\|)" % name, f, flags=re.S))
    if len(ms) != 1:
        raise Lost(name)
    m = ms[0]
    end = close(f, f.index("(", m.start()))
    body = f[m.end():end].strip().rstrip(",")
    return f[:m.start()] + f".{name}(|verif_x: {ty}| -> (out: {out}) ensures out == ({{ let x = verif_x; {what} }}) {{ let {m[1].strip()} = verif_x; {body} }})" + f[end + 1:]


def unit(repo):
    s = bare(strip_tests(open(f"{repo}/{SAMP}").read()))
    get = lambda n: s[find_fn(s, n)[0]:find_fn(s, n)[2]]
    f = get("sampling_histogram")
    f = re.sub(r"//.*", "", f)
    f = re.sub(r"Box<\s*dyn Iterator<Item = (.*?)>\s*\+ '_>", r"It<\1>", f, flags=re.S)
    f = re.sub(r"\b([a-z]\w*) - ([a-z]\w*)\b", r"minus(\1, \2)", f)
    f = closure(f, "map", "(Epoch, Epoch)", "Duration", "Duration { ns: (x.1.ns - x.0.ns) as i128 }")
    m = re.search(r"Box::new\(\s*(self\.epoch_iter.*?)\.fold\(\s*(vec!\[\]|Vec::new\(\)),\s*\|mut (\w+), (\w+)\|\s*\{", f, flags=re.S)
    if not m:
        raise Lost("fold")
    e = match_brace(f, m.end() - 1)
    body, rest = f[m.end():e - 1], f[e:]
    if not re.match(r"\s*,?\s*\)\s*\.into_iter\(\)\s*,?\s*\)\s*\}\s*$", rest):
        raise Lost("fold")
    st = step(body, m[3], m[4])
    f = f[:m.start()] + f"""proof {{ self.few(); }}
        let verif_steps = {m[1]};
        assert(verif_steps@ =~= steps(self.epochs()));
        let verif_hist = verif_steps.fold(Vec::new(), |verif_l: Vec<{V}>, verif_d: Duration| -> (out: Vec<{V}>) requires forall|i: int| 0 <= i < verif_l@.len() ==> (#[trigger] verif_l@[i]).1 < usize::MAX, forall|i: int, j: int| 0 <= i < j < verif_l@.len() ==> (#[trigger] verif_l@[i]).0 != (#[trigger] verif_l@[j]).0 ensures counted(verif_l@, verif_d, out@) {{ histogram_step(verif_l, verif_d) }}, Ghost(|v: Vec<{V}>, p: Seq<Duration>| p.len() < usize::MAX && histogram(v@, p)));
        boxed(items(verif_hist)) }}"""
    # obligations of the fold
    pre = """
        proof {
            let s = steps(self.epochs());
            assert forall|v: Vec<%s>, i: int| 0 <= i < s.len() && #[trigger] histogram(v@, s.take(i)) implies forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]).1 < usize::MAX by {
                assert forall|j: int| 0 <= j < v@.len() implies (#[trigger] v@[j]).1 < usize::MAX by { times_len(s.take(i), v@[j].0); }
            }
            assert forall|v: Vec<%s>, i: int, o: Vec<%s>| 0 <= i < s.len() && #[trigger] histogram(v@, s.take(i)) && #[trigger] counted(v@, s[i], o@) implies histogram(o@, s.take(i + 1)) by {
                counting(v@, s[i], o@, s.take(i)); assert(s.take(i).push(s[i]) =~= s.take(i + 1));
            }
            assert(s.take(0) =~= Seq::empty());
        }
        let verif_hist""" % (V, V, V)
    f = f.replace("\n        let verif_hist", pre, 1)
    text = MODEL + "impl Rinex {\n" + splice(f, "sampling_histogram", "        ensures histogram(r@, steps(self.epochs())),", ret="r") + "\n"
    f = get("steady_sampling")
    a = f.index("{")
    f = f[:a] + "{ proof { assert forall|v: Seq<%s>| #[trigger] histogram(v, steps(self.epochs())) implies (v.len() == 1 <==> even(steps(self.epochs()))) by { alike(v, steps(self.epochs())); } } " % V + f[a + 1:]
    text += splice(f, "steady_sampling", "        ensures r == even(steps(self.epochs())),", ret="r") + "\n"
    f = get("dominant_sampling_interval")
    f = closure(f, "map", V, "Duration", "x.0")
    m = re.search(r"\.max_by\(\|(\(.*?\)), (\(.*?\))\|\s*", f)
    if not m:
        raise Lost("max_by")
    end = close(f, f.index("(", m.start()))
    body = re.sub(r"(\w+)\.cmp\((\w+)\)", r"cmp(\1, \2)", f[m.end():end].strip().rstrip(","))
    f = f[:m.start()] + ".max_by(verif_by)" + f[end + 1:]
    order = f"let verif_by = |verif_a: &{V}, verif_b: &{V}| -> (out: Ordering) ensures out == by(verif_a.1 as int, verif_b.1 as int) {{ let {m[1]} = verif_a; let {m[2]} = verif_b; {body} }};\n        "
    i = f.index(".map(")
    a = f.index("{")
    f = f[:a] + "{ " + order + "let verif_max = " + f[a + 1:i] + """;
        proof {
            let s = steps(self.epochs());
            MAX
        }
        verif_max""" + f[i:]
    f = f.replace("MAX", """assert forall|v: Seq<%s>, m: %s| #[trigger] histogram(v, s) && #[trigger] v.contains(m) && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 <= m.1) implies most(s, m.0) by { biggest(v, s, m); }
            assert forall|v: Seq<%s>| #[trigger] histogram(v, s) implies (v.len() == 0 <==> s.len() == 0) by { alike(v, s); }
            let g = |x: %s| x.1 as int;
            assert(orders(verif_by, g));""" % (V, V, V, V))
    text += splice(f, "dominant_sampling_interval", "        ensures r is None <==> steps(self.epochs()).len() == 0, r matches Some(d) ==> most(steps(self.epochs()), d),", ret="r") + "\n"
    text += "}\n" + st + """
pub open spec fn even(s: Seq<Duration>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == s[0] }
/// no interval is more frequent
pub open spec fn most(s: Seq<Duration>, d: Duration) -> bool { s.contains(d) && forall|e: Duration| #[trigger] times(s, e) <= times(s, d) }
pub proof fn biggest(v: Seq<(Duration, usize)>, s: Seq<Duration>, m: (Duration, usize))
    requires histogram(v, s), v.contains(m), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 <= m.1
    ensures most(s, m.0)
{
    let j = choose|j: int| 0 <= j < v.len() && v[j] == m;
    assert(v[j].1 == times(s, v[j].0));
    times_len(s, m.0);
    assert forall|e: Duration| #[trigger] times(s, e) <= times(s, m.0) by {
        times_len(s, e);
        if s.contains(e) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == e;
            assert(has(v, s[k]));
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == e;
            assert(v[i].1 == times(s, v[i].0));
        }
    }
}
"""
    return text + "fn canary(r: &Rinex) { let i = r.sampling_histogram(); assert(false); }\nfn main() {}\n}\n"


if __name__ == "__main__":
    import sys
    print(unit(sys.argv[1]))
