"""NumDiff (src/hatanaka/numdiff.rs): the whole `impl` block is verified."""
import re
from extract import *

FILE = "src/hatanaka/numdiff.rs"
DROPS = [
    "doc comments, derives, `pub` and the test module",
    "`self.buf.copy_within(a..b, c)` -> `verif_copy_within(&mut self.buf, a, b, c)`: the standard library routine behind an assumed contract (memmove semantics, panics out of bounds)",
    "`panic!(..)` -> `verif_unreachable()`, which requires false: reaching a panic is a failed obligation",
]
TRUSTED = ["slice::copy_within (assumed memmove contract)"]

HEAD = """use vstd::prelude::*;
verus! {

#[verifier::external_body]
fn verif_copy_within<const M: usize>(b: &mut [i64; M], from: usize, to: usize, dst: usize)
    requires from <= to <= M, dst + (to - from) <= M,
    ensures forall|i: int| 0 <= i < M ==> (#[trigger] final(b)@[i]) ==
        (if dst <= i < dst + (to - from) { old(b)@[i - dst + from] } else { old(b)@[i] }),
{
    b.copy_within(from..to, dst)
}

#[verifier::external_body]
fn verif_unreachable() -> !
    requires false,
{ panic!() }

/// bound on recovered samples: 2^53 milli cycles is 6 decades above any observation
spec fn small(x: int) -> bool { -0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000 }

/// value extrapolated from the m most recent points (most recent first): the
/// order m backward difference of (x, h[0], h[1], ..) is x - predict(m, h)
spec fn predict(m: int, h: Seq<i64>) -> int {
    if m == 0 { 0 }
    else if m == 1 { h[0] as int }
    else if m == 2 { 2 * h[0] - h[1] }
    else if m == 3 { 3 * h[0] - 3 * h[1] + h[2] }
    else if m == 4 { 4 * h[0] - 6 * h[1] + 4 * h[2] - h[3] }
    else if m == 5 { 5 * h[0] - 10 * h[1] + 10 * h[2] - 5 * h[3] + h[4] }
    else { 6 * h[0] - 15 * h[1] + 20 * h[2] - 15 * h[3] + 6 * h[4] - h[5] }
}

/// the history after x was pushed
spec fn push(h: Seq<i64>, x: i64) -> Seq<i64> {
    Seq::new(h.len(), |i: int| if i == 0 { x } else { h[i - 1] })
}

spec fn next(m: int, level: int) -> int { if m < level { m + 1 } else { m } }

"""

TAIL = """
impl<const M: usize> NumDiff<M> {
    spec fn wf(&self) -> bool {
        &&& 1 <= M
        &&& self.level <= 6 && self.level <= M && self.m <= self.level
        &&& forall|i: int| 0 <= i < M ==> small(#[trigger] self.buf@[i] as int)
    }
}

/// a compressor and a decompressor are synchronised when they agree on the
/// part of the history that can still be read
spec fn sync<const M: usize>(a: &NumDiff<M>, b: &NumDiff<M>) -> bool {
    &&& a.wf() && b.wf()
    &&& a.level == b.level && a.m == b.m
    &&& forall|i: int| 0 <= i <= a.m && i < M ==> (#[trigger] a.buf@[i]) == b.buf@[i]
}

/// the backward difference operator is the inductive one: order m+1 is the
/// difference of two consecutive order m differences (pins the coefficients)
proof fn lemma_backward_difference(m: int, x: i64, h: Seq<i64>)
    requires 0 <= m < 6, h.len() >= 7,
    ensures x - predict(m + 1, h) == (x - predict(m, h)) - (h[0] - predict(m, h.subrange(1, h.len() as int))),
{
}

/// P05, one step: from any synchronised pair of kernels
fn step<const M: usize>(c: &mut NumDiff<M>, d: &mut NumDiff<M>, x: i64) -> (r: i64)
    requires sync(old(c), old(d)), small(x as int),
    ensures sync(final(c), final(d)), r == x,
{
    let y = c.compress(x);
    d.decompress(y)
}

/// P05, (re)initialisation synchronises any two well formed kernels
fn restart<const M: usize>(c: &mut NumDiff<M>, d: &mut NumDiff<M>, x: i64, level: usize)
    requires old(c).wf(), old(d).wf(), small(x as int), level <= 6, level <= M,
    ensures sync(final(c), final(d)),
{
    c.force_init(x, level);
    d.force_init(x, level);
}

/// P05, whole histories of any length, with any re-initialisations
fn history<const M: usize>(first: i64, level: usize, xs: &Vec<i64>, reinit: &Vec<Option<usize>>)
    requires 1 <= M, level <= 6, level <= M, small(first as int), xs.len() == reinit.len(),
        forall|i: int| 0 <= i < xs.len() ==> small(#[trigger] xs@[i] as int),
        forall|i: int| 0 <= i < xs.len() && #[trigger] reinit@[i] is Some ==> reinit@[i]->0 <= 6 && reinit@[i]->0 <= M,
{
    let mut c = NumDiff::<M>::new(first, level);
    let mut d = NumDiff::<M>::new(first, level);
    let mut i = 0;
    while i < xs.len()
        invariant i <= xs.len(), xs.len() == reinit.len(), sync(&c, &d),
            forall|i: int| 0 <= i < xs.len() ==> small(#[trigger] xs@[i] as int),
            forall|i: int| 0 <= i < xs.len() && #[trigger] reinit@[i] is Some ==> reinit@[i]->0 <= 6 && reinit@[i]->0 <= M,
        decreases xs.len() - i,
    {
        match reinit[i] {
            Some(l) => restart(&mut c, &mut d, xs[i], l),
            None => {
                let r = step(&mut c, &mut d, xs[i]);
                assert(r == xs@[i as int]);
            },
        }
        i += 1;
    }
}

/// must fail (vacuity guard): the preconditions are satisfiable
fn canary_step<const M: usize>(c: &mut NumDiff<M>, d: &mut NumDiff<M>, x: i64)
    requires sync(old(c), old(d)), small(x as int),
{
    let y = c.compress(x);
    let r = d.decompress(y);
    assert(false);
}

} // verus!
fn main() {}
"""

CONTRACTS = {
    "new": ("k", """        requires level <= 6, level <= M, 1 <= M, small(data as int),
        ensures k.wf(), k.m == 0, k.level == level, k.buf@[0] == data,
"""),
    "force_init": (None, """        requires old(self).wf(), level <= 6, level <= M, small(data as int),
        ensures final(self).wf(), final(self).m == 0, final(self).level == level,
            final(self).buf@ =~= push(old(self).buf@, data),
"""),
    "rotate_history": (None, """        requires 1 <= M,
        ensures final(self).buf@ =~= push(old(self).buf@, data),
            final(self).m == old(self).m, final(self).level == old(self).level,
"""),
    "decompress": ("r", """        requires old(self).wf(), -0x800_0000_0000_0000 <= data <= 0x800_0000_0000_0000,
        ensures small(r as int) ==> final(self).wf(), final(self).level == old(self).level,
            final(self).m == next(old(self).m as int, old(self).level as int),
            r == data + predict(final(self).m as int, old(self).buf@),
            final(self).buf@ =~= push(old(self).buf@, r),
"""),
    "compress": ("r", """        requires old(self).wf(), small(data as int),
        ensures final(self).wf(), final(self).level == old(self).level,
            final(self).m == next(old(self).m as int, old(self).level as int),
            r == data - predict(final(self).m as int, old(self).buf@),
            final(self).buf@ =~= push(old(self).buf@, data),
"""),
}
THEOREMS = ["step", "restart", "history", "lemma_backward_difference"]
CANARIES = ["canary_step"]


def unit(repo):
    s = strip_tests(open(f"{repo}/{FILE}").read())
    struct = find_item(s, r"pub struct NumDiff\b")
    impl = find_item(s, r"impl<const M: usize> NumDiff<M>")
    impl = re.sub(r"^\s*///.*$", "", impl, flags=re.M)
    impl = re.sub(r"(\bself\.buf)\s*\.copy_within\(\s*([^,]*?)\s*\.\.\s*([^,]*?)\s*,\s*([^)]*?)\s*\)",
                  r"verif_copy_within(&mut \1, \2, \3, \4)", impl)
    impl = re.sub(r'panic!\("[^"]*"\)', "verif_unreachable()", impl)
    for name, (ret, clauses) in CONTRACTS.items():
        impl = splice(impl, name, clauses, ret)
    struct, impl = (re.sub(r"\bpub(\([a-z]+\))?\s+", "", x) for x in (struct, impl))
    return HEAD + struct + "\n\n" + impl + TAIL
