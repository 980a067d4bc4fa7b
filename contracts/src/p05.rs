//! P05 numerical differencing kernel. The obligations are discharged by Verus
//! over the extracted source (verus/numdiff.py); this module is the search for
//! a concrete failing history.
use crate::nd;
use rinex::hatanaka::NumDiff;

fn point() -> i64 {
    let m = nd::r_u8(0, 53);
    let b = 1i64 << m;
    nd::r_i64(-b, b)
}

fn history<const M: usize>() {
    let mut level = nd::r_usize(0, M);
    let first = point();
    let mut c = NumDiff::<M>::new(first, level);
    let mut d = NumDiff::<M>::new(first, level);
    // independent oracle: textbook backward differences over the whole history
    let mut hist = vec![first];
    let n = nd::r_usize(0, 20);
    for _ in 0..n {
        let x = point();
        if nd::r_u8(0, 9) == 0 {
            level = nd::r_usize(0, M);
            c.force_init(x, level);
            d.force_init(x, level);
            hist = vec![x];
        } else {
            hist.push(x);
            let y = c.compress(x);
            let order = level.min(hist.len() - 1);
            let mut diffs: Vec<i128> = hist[hist.len() - 1 - order..].iter().map(|v| *v as i128).collect();
            for _ in 0..order {
                diffs = diffs.windows(2).map(|w| w[1] - w[0]).collect();
            }
            assert!(y as i128 == diffs[0], "compressed value is not the order {order} difference: {y} != {}", diffs[0]);
            let r = d.decompress(y);
            assert!(r == x, "recovered {r}, expected {x} at level {level}");
        }
    }
}

harness! {}
search! {
    fn p05_m1() { history::<1>() }
    fn p05_m2() { history::<2>() }
    fn p05_m3() { history::<3>() }
    fn p05_m5() { history::<5>() }
    fn p05_m6() { history::<6>() }
}
