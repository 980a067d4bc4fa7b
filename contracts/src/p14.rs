//! P14 Signal combinations, multipath and differences follow their definitions
use crate::nd;
use crate::siggen::{record, Obs};
use rinex::observation::Combination;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::types;
use std::collections::BTreeMap;
use std::str::FromStr;

const C: f64 = 299792458.0;

/// frequency of a band, as the standard tells
fn freq(sys: char, band: char) -> Option<f64> {
    let mhz = match (sys, band) {
        ('G' | 'J' | 'E' | 'S' | 'C', '1') => 1575.42,
        ('G' | 'J', '2') => 1227.60,
        ('G' | 'J' | 'E' | 'S', '5') => 1176.45,
        ('J' | 'E', '6') => 1278.75,
        ('E', '7') => 1207.14,
        ('E', '8') => 1191.795,
        ('C', '2') => 1561.098,
        ('C', '7') => 1207.14,
        ('C', '6') => 1268.52,
        _ => return None,
    };
    Some(mhz * 1.0e6)
}
fn pivot(sys: char, band: char) -> bool { band == '1' || sys == 'C' && band == '2' }
fn close(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-9 * scale.max(1.0) }
fn sys(sv: &str) -> char { sv.chars().next().unwrap() }
fn band(code: &str) -> char { code.chars().nth(1).unwrap() }
/// frequency and range in meters
fn fm(o: &Obs) -> (f64, f64) {
    let f = freq(sys(&o.1), band(&o.2)).unwrap();
    (f, if o.2.starts_with('L') { o.3 * C / f } else { o.3 })
}
fn combined(kind: Combination, p: &Obs, o: &Obs) -> (f64, f64) {
    let ((f1, v1), (f2, v2)) = (fm(p), fm(o));
    match kind {
        Combination::GeometryFree => (if o.2.starts_with('L') { v1 - v2 } else { v2 - v1 }, v1.abs().max(v2.abs())),
        Combination::IonosphereFree => ((f1 * f1 * v1 - f2 * f2 * v2) / (f1 * f1 - f2 * f2), v1.abs().max(v2.abs()) * f1 * f1 / (f1 * f1 - f2 * f2).abs()),
        Combination::WideLane => ((f1 * v1 - f2 * v2) / (f1 - f2), v1.abs().max(v2.abs()) * f1 / (f1 - f2).abs()),
        _ => ((f1 * v1 + f2 * v2) / (f1 + f2), v1.abs().max(v2.abs())),
    }
}
fn pivots<'a>(all: &'a [Obs], o: &'a Obs) -> impl Iterator<Item = &'a Obs> + 'a {
    all.iter().filter(move |p| p.0 == o.0 && p.1 == o.1 && p.2[..1] == o.2[..1] && pivot(sys(&o.1), band(&p.2)))
}

harness! {
}
search! {
    fn p14_combination() {
        let (r, all) = record(3);
        let kind = nd::pick(&[Combination::GeometryFree, Combination::IonosphereFree, Combination::WideLane, Combination::NarrowLane]);
        let got = r.signals_combination(kind);
        let mut n = 0;
        for o in all.iter().filter(|o| o.2.starts_with(['C', 'L']) && !pivot(sys(&o.1), band(&o.2))) {
            if pivots(&all, o).next().is_none() { continue; }
            n += 1;
            let hits: Vec<_> = got.iter().filter(|(k, _)| k.epoch == o.0.epoch && k.flag == o.0.flag && k.sv.to_string() == o.1 && k.lhs.to_string() == o.2).collect();
            assert!(hits.len() == 1, "{kind}: {} combinations of {} {} at {}", hits.len(), o.1, o.2, o.0.epoch);
            let (k, v) = hits[0];
            let p = pivots(&all, o).find(|p| p.2 == k.reference.to_string()).unwrap_or_else(|| panic!("{kind}: {} refers to {}", o.2, k.reference));
            let (want, scale) = combined(kind, p, o);
            assert!(close(*v, want, scale), "{kind} of {} {} and {} at {} is {v} instead of {want}", o.1, p.2, o.2, o.0.epoch);
        }
        assert!(got.len() == n, "{kind}: {} combinations instead of {n}", got.len());
        reach!(n > 3);
    }
    fn p14_melbourne_wubbena() {
        let (r, all) = record(3);
        let got = r.signals_combination(Combination::MelbourneWubbena);
        let mut n = 0;
        for o in all.iter().filter(|o| o.2.starts_with('L') && !pivot(sys(&o.1), band(&o.2)) && pivots(&all, o).next().is_some()) {
            let Some(c) = all.iter().find(|c| c.0 == o.0 && c.1 == o.1 && c.2.starts_with('C') && c.2[1..] == o.2[1..]) else { continue };
            if pivots(&all, c).next().is_none() { continue; }
            n += 1;
            let hits: Vec<_> = got.iter().filter(|(k, _)| k.epoch == o.0.epoch && k.flag == o.0.flag && k.sv.to_string() == o.1 && k.lhs.to_string() == o.2).collect();
            assert!(hits.len() == 1, "Melbourne-Wubbena: {} combinations of {} {} at {}", hits.len(), o.1, o.2, o.0.epoch);
            let (k, v) = hits[0];
            let p = pivots(&all, o).find(|p| p.2 == k.reference.to_string()).unwrap_or_else(|| panic!("{} refers to {}", o.2, k.reference));
            let (wl, s) = combined(Combination::WideLane, p, o);
            let want: Vec<f64> = pivots(&all, c).map(|q| wl - combined(Combination::NarrowLane, q, c).0).collect();
            assert!(want.iter().any(|w| close(*v, *w, s)), "Melbourne-Wubbena of {} {} at {} is {v} instead of {want:?}", o.1, o.2, o.0.epoch);
        }
        assert!(got.len() == n, "Melbourne-Wubbena: {} combinations instead of {n}", got.len());
        reach!(n > 3);
    }
    fn p14_multipath() {
        let (r, all) = record(3);
        let got = r.signals_multipath();
        let mut n = 0;
        for c in all.iter().filter(|o| o.2.starts_with('C')) {
            let Some(i) = all.iter().find(|i| i.0 == c.0 && i.1 == c.1 && i.2.starts_with('L') && i.2[1..] == c.2[1..]) else { continue };
            for j in all.iter().filter(|j| j.0 == c.0 && j.1 == c.1 && j.2.starts_with('L') && band(&j.2) != band(&i.2)) {
                let ((fi, pi), (fj, pj)) = (fm(i), fm(j));
                n += 1;
                let hits: Vec<_> = got.iter().filter(|(k, _)| k.epoch == c.0.epoch && k.sv.to_string() == c.1 && k.signal.to_string() == i.2 && k.rhs.to_string() == j.2).collect();
                assert!(hits.len() == 1, "multipath of {} {} and {} at {}: {} values", c.1, i.2, j.2, c.0.epoch, hits.len());
                let g = fj * fj / (fi * fi - fj * fj);
                let want = c.3 - pi - 2.0 * g * (pi - pj);
                let s = (c.3.abs() + pi.abs() + pj.abs()) * (1.0 + 2.0 * g.abs());
                assert!(close(*hits[0].1, want, s), "multipath of {} {} and {} at {} is {} instead of {want}", c.1, i.2, j.2, c.0.epoch, hits[0].1);
            }
        }
        assert!(got.len() == n, "{} multipath values instead of {n}", got.len());
        reach!(n > 3);
    }
    fn p14_difference() {
        let (a, _) = record(3);
        let (mut b, _) = record(3);
        // some observations of a are those of b
        if nd::bool_() {
            b = a.clone();
            for (_, o) in b.record.as_mut_obs().unwrap().iter_mut() {
                o.signals.retain(|_| nd::r_u8(0, 3) > 0);
                for s in o.signals.iter_mut() { s.value = nd::r_i64(-9_000_000_000, 9_000_000_000) as f64 / 1000.0; }
                if nd::bool_() { o.signals.reverse(); }
            }
        }
        let d = a.observation_substract(&b);
        let (ra, rb, rd) = (a.record.as_obs().unwrap(), b.record.as_obs().unwrap(), d.record.as_obs().unwrap());
        assert!(d.header == a.header && ra.len() == rd.len(), "other epochs");
        for ((ka, va), (kd, vd)) in ra.iter().zip(rd) {
            assert!(ka == kd && va.signals.len() == vd.signals.len() && va.clock == vd.clock, "difference at {ka:?}");
            for (x, y) in va.signals.iter().zip(&vd.signals) {
                let rhs = rb.get(ka).and_then(|o| o.signals.iter().find(|s| s.sv == x.sv && s.observable == x.observable)).map_or(0.0, |s| s.value);
                assert!(x.sv == y.sv && x.observable == y.observable && x.lli == y.lli && x.snr == y.snr, "{y:?} instead of {x:?}");
                assert!(y.value == x.value - rhs, "difference of {} {} at {} is {} instead of {} - {rhs}", x.sv, x.observable, ka.epoch, y.value, x.value);
            }
        }
        // meteo files
        let met = || {
            let mut rec = BTreeMap::new();
            for i in 0..nd::r_u8(1, 6) {
                for c in ["PR", "TD", "HR"] {
                    if nd::bool_() { rec.insert(MeteoKey { epoch: Epoch::from_gregorian_utc(2015, 1, 1, 0, i, 0, 0), observable: Observable::from_str(c).unwrap() }, nd::r_i64(-9999, 9999) as f64 / 10.0); }
                }
            }
            let mut h = Header::default();
            h.rinex_type = types::Type::MeteoData;
            Rinex::new(h, Record::MeteoRecord(rec))
        };
        let (a, b) = (met(), met());
        let d = a.observation_substract(&b);
        let (ra, rb, rd) = (a.record.as_meteo().unwrap(), b.record.as_meteo().unwrap(), d.record.as_meteo().unwrap());
        assert!(ra.len() == rd.len(), "other epochs");
        for (k, v) in ra {
            assert!(rd.get(k) == Some(&(v - rb.get(k).unwrap_or(&0.0))), "difference of {k:?}: {:?}", rd.get(k));
        }
    }
}
