//! Random observation records of several vehicles and signals, shared by P14 and P18
use crate::nd;
use rinex::observation::Observations;
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::types;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

fn bands(sys: char) -> &'static [char] {
    match sys { 'G' => &['1', '2', '5'], 'J' => &['1', '2', '5', '6'], 'E' => &['1', '5', '6', '7', '8'], 'S' => &['1', '5'], _ => &['1', '2', '6', '7'] }
}
fn attrs(sys: char, band: char) -> &'static [char] {
    match (sys, band) {
        ('G', '1') => &['C', 'W'],
        ('G', '2') => &['W', 'S'],
        ('E', '1' | '6') => &['C', 'X'],
        ('S', '1') => &['C'],
        ('C', '1') => &['P'],
        ('J', '1') => &['C', 'S'],
        ('J', '2' | '6') => &['S', 'X'],
        _ => &['Q', 'X'],
    }
}

pub type Obs = (ObsKey, String, String, f64);

fn key(e: Epoch, flag: u8) -> ObsKey {
    ObsKey { epoch: e, flag: match flag { 0 => EpochFlag::Ok, 1 => EpochFlag::PowerFailure, _ => EpochFlag::CycleSlip } }
}

/// intervals of a receiver whose clock drifts
pub fn jitter() -> Duration { Duration::from_nanoseconds(nd::pick(&[0.0, 0.0, 0.0, 0.0, 100.0, -100.0, 1.0, 300_000.0, 1_000_000.0, -2_000_000.0])) }

/// a record with random vehicles and signals, in any order
pub fn record(max: usize) -> (Rinex, Vec<Obs>) {
    let mut rec: BTreeMap<ObsKey, Observations> = BTreeMap::new();
    let mut all = Vec::new();
    let mut t = Epoch::from_gregorian(2021, 12, 21, 0, 0, 0, 0, TimeScale::GPST);
    for _ in 0..nd::r_usize(1, max) {
        let k = key(t, nd::pick(&[0u8, 0, 0, 0, 1, 6]));
        t += Duration::from_seconds(nd::pick(&[30.0, 30.0, 30.0, 1.0, 3600.0])) + jitter();
        let mut list = Vec::new();
        for _ in 0..nd::r_usize(1, 4) {
            let sys = nd::pick(&['G', 'E', 'C', 'J', 'S', 'G']);
            let sv = format!("{sys}{:02}", nd::r_u8(1, 4));
            for b in bands(sys) {
                for a in attrs(sys, *b) {
                    for kind in ['C', 'L', 'D', 'S'] {
                        if nd::r_u8(0, 2) == 0 { continue; }
                        list.push((sv.clone(), format!("{kind}{b}{a}")));
                    }
                }
            }
        }
        let mut seen = BTreeSet::new();
        list.retain(|x| seen.insert(x.clone()));
        for i in (1..list.len()).rev() { if nd::bool_() { let j = nd::r_usize(0, i); list.swap(i, j); } }
        let mut o = Observations::default();
        for (sv, code) in list {
            let v = match &code[..1] { "C" => nd::r_i64(20_000_000_000, 26_000_000_000), "L" => nd::r_i64(-9_000_000_000, 140_000_000_000), _ => nd::r_i64(-5_000_000, 60_000) } as f64 / 1000.0;
            let mut s = SignalObservation::new(SV::from_str(&sv).unwrap(), Observable::from_str(&code).unwrap(), v);
            s.lli = nd::pick(&[None, Some(0u8), Some(1), Some(2), Some(3)]).map(|b| LliFlags::from_bits(b).unwrap());
            o.signals.push(s);
            all.push((k, sv, code, v));
        }
        if nd::bool_() { o.with_clock(); }
        rec.insert(k, o);
    }
    all.retain(|x| rec.contains_key(&x.0));
    let mut h = Header::default();
    h.rinex_type = types::Type::ObservationData;
    if nd::bool_() { h.sampling_interval = Some(Duration::from_seconds(30.0)); }
    (Rinex::new(h, Record::ObsRecord(rec)), all)
}
trait Clk { fn with_clock(&mut self); }
impl Clk for Observations {
    fn with_clock(&mut self) { self.clock = Some(Default::default()); }
}

