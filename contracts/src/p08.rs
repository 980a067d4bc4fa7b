//! P08 Observation RINEX V2: fixed columns
use crate::{gen, nd};

harness! {
}
search! {
    /// events (flags 2 to 5) are not observations and hide none
    fn p08_events() {
        let d = gen::obs_doc(2);
        let r = gen::parse(&d.text_events(nd::bool_())).unwrap();
        d.check(&r);
    }
    fn p08_document() {
        let mut d = gen::obs_doc(2);
        d.clock = nd::bool_();
        let trim = nd::bool_();
        let r = gen::parse(&d.text(trim)).unwrap();
        d.check(&r);
        reach!(d.sys == 'M' && d.epochs.len() == 3 && trim);
        reach!(d.epochs.iter().any(|e| e.sats.len() > 24));
    }
    /// known finding: witness of KNOWN_FINDINGS
    fn p08_trailing_blanks() {
        let h = format!("{}{}{}{}", gen::hl("     2.11           OBSERVATION DATA    G", "RINEX VERSION / TYPE"),
            gen::hl("     2    C1    L1", "# / TYPES OF OBSERV"),
            gen::hl("  2021     1     1     0     0    0.0000000     GPS", "TIME OF FIRST OBS"),
            gen::hl("", "END OF HEADER"));
        let t = format!("{h} 21  1  1  0  0  0.0000000  0  2G01G02\n  20000000.000\n  20000001.000           5.000\n");
        let r = gen::parse(&t).unwrap();
        let n = r.record.as_obs().unwrap().values().map(|o| o.signals.len()).sum::<usize>();
        assert!(n == 3, "{n} observations instead of 3");
    }

    /// damaged files are rejected or read, never a panic
    fn p08_damaged() {
        let d = gen::obs_doc(2);
        let b = gen::damage(&d.text(nd::bool_()));
        let _ = rinex::Rinex::parse(&mut std::io::BufReader::new(&b[..]));
    }
}
