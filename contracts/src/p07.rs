//! P07 Observation RINEX V3/V4: fixed columns
use crate::{gen, nd};

harness! {
}
search! {
    /// events (flags 2 to 5) are not observations and hide none
    fn p07_events() {
        let d = gen::obs_doc(3);
        let r = gen::parse(&d.text_events(nd::bool_())).unwrap();
        d.check(&r);
    }
    fn p07_document() {
        let mut d = gen::obs_doc(3);
        d.clock = nd::bool_();
        let trim = nd::bool_();
        let r = gen::parse(&d.text(trim)).unwrap();
        d.check(&r);
        reach!(d.sys == 'M' && d.epochs.len() == 3 && trim);
        reach!(d.codes.iter().any(|(_, c)| c.len() > 13));
    }

    /// damaged files are rejected or read, never a panic
    fn p07_damaged() {
        let d = gen::obs_doc(3);
        let b = gen::damage(&d.text(nd::bool_()));
        let _ = rinex::Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
}
