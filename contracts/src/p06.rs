//! P06 text differencing kernel.
use crate::nd;
use rinex::hatanaka::TextDiff;

/// printable, and not the escape character of the algorithm
fn text<const N: usize>() -> [u8; N] {
    let b = nd::bytes_in::<N>(0x20, 0x7e);
    let mut i = 0;
    while i < N {
        nd::assume(b[i] != b'&');
        i += 1;
    }
    b
}

/// one step of the pair (compressor, decompressor) from any history h to any
/// line x that is not shorter
fn step<const H: usize, const X: usize>() {
    let h = text::<H>();
    let x = text::<X>();
    let h = nd::ascii(&h);
    let x = nd::ascii(&x);
    let mut c = TextDiff::new(h);
    let mut d = TextDiff::new(h);
    let y = c.compress(x);
    assert!(y.len() == x.len(), "compressed length");
    let r = d.decompress(y);
    assert!(r == x, "recovered text");
}

/// two steps: the history left by a step is the line itself
fn two<const H: usize, const X: usize, const Z: usize>() {
    let h = text::<H>();
    let x = text::<X>();
    let z = text::<Z>();
    let mut c = TextDiff::new(nd::ascii(&h));
    let mut d = TextDiff::default();
    d.force_init(nd::ascii(&h));
    let y = c.compress(nd::ascii(&x));
    let _ = d.decompress(y);
    let y = c.compress(nd::ascii(&z));
    let r = d.decompress(y);
    assert!(r == nd::ascii(&z), "recovered text");
    reach!(h[0] == b' ' && x[0] != b' ' && z[0] == b' ');
}

/// what one delta does to the history, from the definition of the algorithm
fn apply(h: &[u8], delta: &[u8], out: &mut [u8]) -> usize {
    let n = if h.len() > delta.len() { h.len() } else { delta.len() };
    let mut i = 0;
    while i < n {
        out[i] = if i < delta.len() && delta[i] != b' ' {
            if delta[i] == b'&' { b' ' } else { delta[i] }
        } else if i < h.len() { h[i] } else { b' ' };
        i += 1;
    }
    n
}

fn same(a: &str, b: &[u8]) -> bool {
    let a = a.as_bytes();
    let mut ok = a.len() == b.len();
    let mut i = 0;
    while i < b.len() && ok {
        ok = a[i] == b[i];
        i += 1;
    }
    ok
}

/// any two deltas, applied to any history
fn deltas<const H: usize, const D: usize, const E: usize>() {
    let h = text::<H>();
    let d: [u8; D] = nd::bytes_in(0x20, 0x7e);
    let e: [u8; E] = nd::bytes_in(0x20, 0x7e);
    let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
    let n = apply(&h, &d, &mut x);
    let m = apply(&x[..n], &e, &mut y);
    let mut k = TextDiff::new(nd::ascii(&h));
    assert!(same(k.decompress(nd::ascii(&d)), &x[..n]), "first delta");
    assert!(same(k.decompress(nd::ascii(&e)), &y[..m]), "second delta");
}

/// the delta is the one of the definition
fn delta<const H: usize, const X: usize>() {
    let h = text::<H>();
    let x = text::<X>();
    let mut k = TextDiff::new(nd::ascii(&h));
    let y = k.compress(nd::ascii(&x)).as_bytes();
    assert!(y.len() == X, "length");
    let mut i = 0;
    while i < X {
        let e = if i < H && x[i] == h[i] { b' ' } else if x[i] == b' ' { b'&' } else { x[i] };
        assert!(y[i] == e, "delta");
        i += 1;
    }
}

harness! {
    #[kani::unwind(7)]
    fn p06_deltas_1_2_1() { deltas::<1, 2, 1>() }
    #[kani::unwind(7)]
    fn p06_deltas_2_1_3() { deltas::<2, 1, 3>() }
    #[kani::unwind(7)]
    fn p06_deltas_0_2_2() { deltas::<0, 2, 2>() }
    #[kani::unwind(7)]
    fn p06_delta_2_3() { delta::<2, 3>() }
    #[kani::unwind(7)]
    fn p06_delta_3_2() { delta::<3, 2>() }
    #[kani::unwind(7)]
    fn p06_step_0_2() { step::<0, 2>() }
    #[kani::unwind(7)]
    fn p06_step_2_2() { step::<2, 2>() }
    #[kani::unwind(7)]
    fn p06_step_1_3() { step::<1, 3>() }
    #[kani::unwind(7)]
    fn p06_step_4_5() { step::<4, 5>() }
    #[kani::unwind(7)]
    fn p06_two_1_1_1() { two::<1, 1, 1>() }
    #[kani::unwind(7)]
    fn p06_two_1_1_2() { two::<1, 1, 2>() }
}
fn word(max: usize) -> String {
    let n = nd::r_usize(0, max);
    let mut s = String::new();
    for _ in 0..n {
        let c = match nd::r_u8(0, 3) { 0 => b' ', 1 => nd::r_u8(b'0', b'9'), _ => nd::r_u8(0x20, 0x7e) };
        s.push(if c == b'&' { ' ' } else { c as char });
    }
    s
}
search! {
    fn p06_any_deltas() {
        let first = word(12);
        let mut k = TextDiff::new(&first);
        let mut h = first.into_bytes();
        for _ in 0..nd::r_usize(1, 8) {
            let n = nd::r_usize(0, 16);
            let d: Vec<u8> = (0..n).map(|_| match nd::r_u8(0, 3) { 0 => b' ', 1 => b'&', _ => nd::r_u8(0x20, 0x7e) }).collect();
            let mut x = [0u8; 256];
            let n = apply(&h, &d, &mut x);
            let r = k.decompress(nd::ascii(&d));
            assert!(r.as_bytes() == &x[..n], "{:?} applied to {:?} gives {r:?}", nd::ascii(&d), nd::ascii(&h));
            h = x[..n].to_vec();
        }
    }
    fn p06_history() {
        let first = word(12);
        let mut c = TextDiff::new(&first);
        let mut d = TextDiff::new(&first);
        let mut len = first.len();
        let n = nd::r_usize(0, 12);
        for _ in 0..n {
            let mut x = word(16);
            if nd::r_u8(0, 7) == 0 {
                c.force_init(&x);
                d.force_init(&x);
                len = x.len();
                continue;
            }
            while x.len() < len { x.push(if nd::bool_() { ' ' } else { 'x' }); }
            len = x.len();
            let y = c.compress(&x).to_string();
            assert!(y.len() == x.len(), "compressed length");
            let r = d.decompress(&y).to_string();
            assert!(r == x, "recovered {r:?} expected {x:?}");
        }
    }
}
