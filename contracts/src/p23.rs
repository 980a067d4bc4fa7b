//! P23 Observation RINEX: formatting then parsing gives the data back
use crate::{gen, nd};

harness! {
}
fn round(major: u8) {
    let d = gen::obs_doc(major);
    let a = gen::parse(&d.text(false)).unwrap();
    d.check(&a);
    let t = gen::format(&a).expect("format");
    let b = gen::parse(&t).expect("parse back");
    gen::same_obs(&a, &b, "format then parse");
    let (x, y) = (a.header.obs.as_ref().unwrap(), b.header.obs.as_ref().unwrap());
    assert!(x.codes == y.codes, "observables: {:?} instead of {:?}", y.codes, x.codes);
    assert!(x.timeof_first_obs == y.timeof_first_obs, "time of first obs: {:?} instead of {:?}", y.timeof_first_obs, x.timeof_first_obs);
    assert!(a.header.constellation == b.header.constellation, "constellation");
    assert!(a.header.version == b.header.version, "version");
    // standard layout
    let body = t.split_once("END OF HEADER").unwrap().1.split_once('\n').unwrap().1;
    d.check_text(body);
    d.check_header_text(&t);
    for l in t.lines() {
        assert!(d.major > 2 || l.len() <= 80, "V2 line longer than 80 columns: {l:?}");
    }
    for (i, l) in t.lines().take_while(|l| !l.contains("END OF HEADER")).enumerate() {
        assert!(l.len() > 60 && l.len() <= 80, "header line {i}: {l:?}");
    }
}
search! {
    fn p23_v3() {
        round(3);
    }
    fn p23_v2() {
        round(2);
    }
}
