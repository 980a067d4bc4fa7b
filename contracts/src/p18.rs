//! P18 Iterators and sampling statistics describe the record, and nothing else
use crate::nd;
use crate::siggen::jitter;
use crate::siggen::record;
use rinex::navigation::{BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType, NavKey, NavMessageType, NgModel, SystemTime};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::types;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

fn meteo() -> (Rinex, Vec<(Epoch, &'static str, f64)>) {
    let mut rec = BTreeMap::new();
    let mut t = Epoch::from_gregorian_utc(2015, 1, 1, 0, 0, 0, 0);
    let mut all = Vec::new();
    for _ in 0..nd::r_u8(0, 7) {
        t += Duration::from_seconds(nd::pick(&[60.0, 60.0, 60.0, 30.0, 7200.0])) + jitter();
        for c in ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"] {
            if nd::r_u8(0, 2) > 0 { continue; }
            let v = nd::pick(&[0, 0, 1, nd::r_i64(0, 9999)]) as f64 / 10.0;
            rec.insert(MeteoKey { epoch: t, observable: Observable::from_str(c).unwrap() }, v);
            all.push((t, c, v));
        }
    }
    let mut h = Header::default();
    h.rinex_type = types::Type::MeteoData;
    (Rinex::new(h, Record::MeteoRecord(rec)), all)
}

fn nav() -> (Rinex, Vec<(Epoch, SV)>) {
    let mut rec = BTreeMap::new();
    let mut all = Vec::new();
    let mut t = Epoch::from_gregorian(2022, 1, 1, 0, 0, 0, 0, TimeScale::GPST);
    for _ in 0..nd::r_u8(0, 6) {
        t += Duration::from_seconds(nd::pick(&[7200.0, 7200.0, 600.0]));
        for sv in ["G01", "G02", "E07", "C30", "R24"] {
            if nd::bool_() { continue; }
            let sv = SV::from_str(sv).unwrap();
            let mut eph = Ephemeris::default();
            eph.clock_bias = nd::r_i32(-999, 999) as f64;
            eph.clock_drift = nd::r_i32(-999, 999) as f64;
            eph.clock_drift_rate = nd::r_i32(-999, 999) as f64;
            rec.insert(NavKey { epoch: t, sv, msgtype: NavMessageType::LNAV, frmtype: NavFrameType::Ephemeris }, NavFrame::EPH(eph));
            all.push((t, sv));
        }
    }
    let mut h = Header::default();
    h.rinex_type = types::Type::NavigationData;
    (Rinex::new(h, Record::NavRecord(rec)), all)
}

/// sampling statistics of a file that has these epochs
fn sampling(r: &Rinex, epochs: &[Epoch]) {
    let got: Vec<Epoch> = r.epoch_iter().collect();
    assert!(got == epochs, "epochs {got:?} instead of {epochs:?}");
    assert!(r.first_epoch() == epochs.first().copied() && r.last_epoch() == epochs.last().copied(), "first {:?} and last {:?} epochs of {epochs:?}", r.first_epoch(), r.last_epoch());
    assert!(r.duration() == epochs.last().map(|l| *l - epochs[0]), "duration {:?}", r.duration());
    let steps: Vec<Duration> = epochs.windows(2).map(|w| w[1] - w[0]).collect();
    let mut want: BTreeMap<Duration, usize> = BTreeMap::new();
    for d in &steps { *want.entry(*d).or_default() += 1; }
    let hist: Vec<(Duration, usize)> = r.sampling_histogram().collect();
    let map: BTreeMap<Duration, usize> = hist.iter().copied().collect();
    assert!(hist.len() == map.len() && map == want, "sampling histogram {hist:?} instead of {want:?}");
    assert!(r.steady_sampling() == (want.len() == 1), "steady sampling of {want:?}");
    let dominant = r.dominant_sampling_interval();
    match dominant {
        None => assert!(want.is_empty(), "no dominant interval in {want:?}"),
        Some(d) => assert!(want.get(&d) == want.values().max(), "dominant interval {d} of {want:?}"),
    }
    if let Some(d) = dominant {
        assert!(r.dominant_sampling_rate_hz() == Some(1.0 / d.to_seconds()), "dominant rate of {d}");
        if let Some(s) = r.timeseries() {
            let s: Vec<Epoch> = s.collect();
            assert!(s[0] == epochs[0] && s.windows(2).all(|w| w[1] - w[0] == d) && *s.last().unwrap() <= epochs[epochs.len() - 1] && *s.last().unwrap() + d > epochs[epochs.len() - 1], "time series {s:?}");
        } else { panic!("no time series"); }
    }
    let near = if steps.is_empty() { Duration::ZERO } else { steps[nd::r_usize(0, steps.len() - 1)] + Duration::from_nanoseconds(nd::pick(&[0.0, 1.0, -1.0])) };
    for tol in [None, Some(near), Some(Duration::from_seconds(nd::pick(&[0.0, 1.0, 30.0, 60.0, 3600.0, 7200.0])))] {
        let Some(limit) = tol.or(dominant).or(r.header.sampling_interval) else { continue };
        let gaps: Vec<(Epoch, Duration)> = r.data_gaps(tol).collect();
        let want: Vec<(Epoch, Duration)> = epochs.windows(2).filter(|w| w[1] - w[0] > limit).map(|w| (w[0], w[1] - w[0])).collect();
        assert!(gaps == want, "gaps over {limit}: {gaps:?} instead of {want:?}");
    }
}
fn distinct(it: impl Iterator<Item = Epoch>) -> Vec<Epoch> { it.collect::<BTreeSet<_>>().into_iter().collect() }

harness! {
}
search! {
    fn p18_observations() {
        let (mut r, _) = record(4);
        // two records of the same instant
        let dup = nd::bool_();
        if dup {
            let rec = r.record.as_mut_obs().unwrap();
            let (k, v) = rec.iter().next().map(|(k, v)| (*k, v.clone())).unwrap();
            rec.insert(ObsKey { epoch: k.epoch, flag: EpochFlag::AntennaBeingMoved }, v);
        }
        let rec = r.record.as_obs().unwrap().clone();
        sampling(&r, &distinct(rec.keys().map(|k| k.epoch)));
        let all: Vec<(ObsKey, SignalObservation)> = rec.iter().flat_map(|(k, v)| v.signals.iter().map(|s| (*k, s.clone()))).collect();
        macro_rules! same {
            ($what:literal, $it:expr, |$k:ident, $s:ident| $keep:expr) => {{
                let got: Vec<(ObsKey, SignalObservation)> = $it.map(|(k, s)| (k, s.clone())).collect();
                let want: Vec<(ObsKey, SignalObservation)> = all.iter().filter(|($k, $s)| $keep).cloned().collect();
                assert!(got == want, "{}: {} instead of {} observations", $what, got.len(), want.len());
            }};
        }
        macro_rules! same_at {
            ($what:literal, $it:expr, |$k:ident, $s:ident| $keep:expr) => {{
                let got: Vec<(Epoch, SignalObservation)> = $it.map(|(k, s)| (k, s.clone())).collect();
                let want: Vec<(Epoch, SignalObservation)> = all.iter().filter(|($k, $s)| $keep).map(|(k, s)| (k.epoch, s.clone())).collect();
                assert!(got == want, "{}: {} instead of {} observations", $what, got.len(), want.len());
            }};
        }
        let letter = |s: &SignalObservation| s.observable.to_string().chars().next().unwrap();
        let ok = |k: &ObsKey| k.flag == EpochFlag::Ok;
        let lli = |s: &SignalObservation| s.lli.map_or(0, |l| l.bits());
        same!("signals", r.signal_observations_iter(), |_k, _s| true);
        same!("pseudo ranges", r.pseudo_range_observations_iter(), |_k, s| letter(s) == 'C');
        same!("phase ranges", r.phase_range_observations_iter(), |_k, s| letter(s) == 'L');
        same!("doppler", r.doppler_observations_iter(), |_k, s| letter(s) == 'D');
        same!("signal strengths", r.ssi_observations_iter(), |_k, s| letter(s) == 'S');
        same_at!("sampling ok", r.signal_observations_sampling_ok_iter(), |k, _s| ok(k));
        same_at!("pseudo range sampling ok", r.pseudo_range_sampling_ok_iter(), |k, s| ok(k) && letter(s) == 'C');
        same_at!("phase range sampling ok", r.phase_range_sampling_ok_iter(), |k, s| ok(k) && letter(s) == 'L');
        same_at!("phase range tracking ok", r.phase_range_tracking_ok_iter(), |k, s| ok(k) && letter(s) == 'L' && lli(s) == 0);
        same!("cycle slips", r.phase_cycle_slip_events(), |_k, s| letter(s) == 'L' && lli(s) & 1 != 0);
        same!("half and full cycle slips", r.phase_half_full_cycle_slip_events(), |_k, s| letter(s) == 'L' && lli(s) & 3 != 0);
        let clocks: Vec<_> = r.clock_observations_iter().map(|(k, c)| (k, c)).collect();
        let want: Vec<_> = rec.iter().filter_map(|(k, v)| v.clock.map(|c| (*k, c))).collect();
        assert!(clocks == want, "clock observations");
        let odd: Vec<ObsKey> = r.epoch_anomalies().copied().collect();
        let want: Vec<ObsKey> = rec.keys().filter(|k| !ok(k)).copied().collect();
        assert!(odd == want, "anomalies {odd:?} instead of {want:?}");
        let sv: Vec<SV> = r.sv_iter().collect();
        let want: Vec<SV> = all.iter().map(|(_, s)| s.sv).collect::<BTreeSet<_>>().into_iter().collect();
        assert!(sv == want, "vehicles {sv:?} instead of {want:?}");
        let c: Vec<Constellation> = r.constellations_iter().collect();
        let want: Vec<Constellation> = want.iter().map(|s| s.constellation).collect::<BTreeSet<_>>().into_iter().collect();
        assert!(c == want, "constellations {c:?} instead of {want:?}");
        let o: Vec<Observable> = r.observables_iter().cloned().collect();
        let want: Vec<Observable> = all.iter().map(|(_, s)| s.observable.clone()).collect::<BTreeSet<_>>().into_iter().collect();
        assert!(o == want, "observables {o:?} instead of {want:?}");
        let o: Vec<String> = r.signal_code_iter().collect();
        let want: BTreeSet<String> = all.iter().map(|(_, s)| s.observable.to_string()[1..].to_string()).collect();
        assert!(o.len() == want.len() && o.iter().cloned().collect::<BTreeSet<_>>() == want, "signal codes {o:?} instead of {want:?}");
        let o: Vec<Carrier> = r.carrier_iter().collect();
        let mut want: Vec<Carrier> = Vec::new();
        for (_, s) in &all {
            let c = Carrier::from_observable(s.sv.constellation, &s.observable).unwrap();
            if !want.contains(&c) { want.push(c); }
        }
        assert!(o.len() == want.len() && want.iter().all(|c| o.contains(c)), "carriers {o:?} instead of {want:?}");
        // masking: phases whose loss of lock indicator meets the mask, and everything that is not a phase
        let mask = nd::pick(&[1u8, 2, 3]);
        let m = r.observation_phase_tracking_lli_masking(LliFlags::from_bits(mask).unwrap());
        let got: Vec<(ObsKey, SignalObservation)> = m.signal_observations_iter().map(|(k, s)| (k, s.clone())).collect();
        let want: Vec<(ObsKey, SignalObservation)> = all.iter().filter(|(_, s)| letter(s) != 'L' || lli(s) & mask != 0).cloned().collect();
        assert!(got == want, "loss of lock mask {mask}: {} instead of {} observations", got.len(), want.len());
        assert!(r.is_observation_rinex() && !r.is_meteo_rinex() && !r.is_navigation_rinex() && !r.is_clock_rinex() && !r.is_ionex() && !r.is_antex() && !r.is_doris(), "kind of file");
        reach!(dup && all.len() > 3);
    }
    fn p18_meteo() {
        let (r, all) = meteo();
        sampling(&r, &distinct(all.iter().map(|x| x.0)));
        let of = |c: &str| -> Vec<(Epoch, f64)> { all.iter().filter(|x| x.1 == c).map(|x| (x.0, x.2)).collect() };
        for (c, got) in [
            ("PR", r.pressure_iter().collect::<Vec<_>>()), ("TD", r.temperature_iter().collect()), ("HR", r.moisture_rate_iter().collect()),
            ("ZW", r.zenith_wet_delay_iter().collect()), ("ZD", r.zenith_dry_delay_iter().collect()), ("ZT", r.zenith_total_delay_iter().collect()),
            ("WD", r.wind_direction_iter().collect()), ("WS", r.wind_speed_iter().collect()), ("RI", r.accumulated_rain_iter().collect()),
        ] {
            assert!(got == of(c), "{c}: {got:?} instead of {:?}", of(c));
        }
        let rain: f64 = of("RI").iter().map(|x| x.1).sum();
        assert!((r.total_accumulated_rain() - rain).abs() < 1e-9 && r.rain_detected() == (rain > 0.0), "rain {} instead of {rain}", r.total_accumulated_rain());
        assert!(r.hail_detected() == of("HI").iter().any(|x| x.1 > 0.0), "hail");
        let o: Vec<String> = r.observables_iter().map(|o| o.to_string()).collect();
        let want: BTreeSet<String> = all.iter().map(|x| x.1.to_string()).collect();
        assert!(o.len() == want.len() && o.iter().cloned().collect::<BTreeSet<_>>() == want, "observables {o:?} instead of {want:?}");
        assert!(r.sv_iter().next().is_none() && r.is_meteo_rinex() && !r.is_observation_rinex(), "kind of file");
        reach!(of("RI").len() > 1);
    }
    fn p18_navigation() {
        let (r, all) = nav();
        let t: Vec<Epoch> = r.epoch_iter().collect();
        let want: Vec<Epoch> = all.iter().map(|x| x.0).collect();
        assert!(t == want, "epochs of the frames {t:?} instead of {want:?}");
        assert!(r.first_epoch() == want.first().copied() && r.last_epoch() == want.last().copied() && r.duration() == want.last().map(|l| *l - want[0]), "first and last epochs of {want:?}");
        let sv: Vec<SV> = r.sv_iter().collect();
        let want: Vec<SV> = all.iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
        assert!(sv == want, "vehicles {sv:?} instead of {want:?}");
        let got: BTreeSet<(Epoch, SV)> = r.nav_ephemeris_frames_iter().map(|(k, _)| (k.epoch, k.sv)).collect();
        assert!(got == all.iter().copied().collect(), "ephemeris frames");
        assert!(r.nav_message_types_iter().count() == all.len() && r.nav_message_types_iter().all(|(t, s, _)| all.contains(&(t, s))), "message types");
        for (k, (a, b, c)) in r.nav_sv_clock_iter() {
            let e = r.record.as_nav().unwrap()[&k].as_ephemeris().unwrap();
            assert!((a, b, c) == (e.clock_bias, e.clock_drift, e.clock_drift_rate), "clock of {k:?}");
        }
        assert!(r.nav_sv_clock_iter().count() == all.len() && r.nav_ionosphere_models_iter().next().is_none() && r.nav_earth_orientation_frames_iter().next().is_none() && r.nav_system_time_frames_iter().next().is_none(), "frames");
        reach!(all.len() > 5);
    }
    fn p18_frames() {
        let mut rec = BTreeMap::new();
        let mut t = Epoch::from_gregorian(2023, 3, 1, 0, 0, 0, 0, TimeScale::GPST);
        let mut n = 0u32;
        for _ in 0..nd::r_u8(0, 4) {
            t += Duration::from_seconds(nd::pick(&[0.0, 30.0, 3600.0]));
            for sv in ["G01", "C30", "E07"] {
                for k in 0..6 {
                    if nd::r_u8(0, 2) > 0 { continue; }
                    n += 1;
                    let x = n as f64;
                    let (frmtype, f) = match k {
                        0 => (NavFrameType::Ephemeris, NavFrame::EPH(Ephemeris { clock_bias: x, clock_drift: -x, clock_drift_rate: x + 0.5, ..Default::default() })),
                        1 => (NavFrameType::EarthOrientation, NavFrame::EOP(EarthOrientation { t_tm: n, ..Default::default() })),
                        2 => (NavFrameType::SystemTimeOffset, NavFrame::STO(SystemTime { t_tm: n, ..Default::default() })),
                        _ => (NavFrameType::IonosphereModel, NavFrame::ION(match nd::r_u8(0, 2) {
                            0 => IonosphereModel::Klobuchar(KbModel { alpha: (x, 0.0, 0.0, 0.0), ..Default::default() }),
                            1 => IonosphereModel::NequickG(NgModel { a: (x, 0.0, 0.0), ..Default::default() }),
                            _ => IonosphereModel::Bdgim(BdModel { alpha: (x, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0) }),
                        })),
                    };
                    let msgtype = nd::pick(&[NavMessageType::LNAV, NavMessageType::CNAV, NavMessageType::IFNV]);
                    rec.insert(NavKey { epoch: t, sv: SV::from_str(sv).unwrap(), msgtype, frmtype }, f);
                }
            }
        }
        let mut h = Header::default();
        h.rinex_type = types::Type::NavigationData;
        let r = Rinex::new(h, Record::NavRecord(rec.clone()));
        macro_rules! same {
            ($what:literal, $it:expr, $pat:pat => $e:expr) => {{
                let got: Vec<_> = $it.map(|(k, v)| (*k, v.clone())).collect();
                let want: Vec<_> = rec.iter().filter_map(|(k, f)| match f { $pat => Some((*k, $e.clone())), _ => None }).collect();
                assert!(got == want, "{}: {} instead of {} frames", $what, got.len(), want.len());
            }};
        }
        same!("ephemeris frames", r.nav_ephemeris_frames_iter(), NavFrame::EPH(e) => e);
        same!("earth orientation", r.nav_earth_orientation_frames_iter(), NavFrame::EOP(e) => e);
        same!("system time offsets", r.nav_system_time_frames_iter(), NavFrame::STO(e) => e);
        same!("ionosphere models", r.nav_ionosphere_models_iter(), NavFrame::ION(e) => e);
        same!("Klobuchar models", r.nav_klobuchar_models_iter(), NavFrame::ION(IonosphereModel::Klobuchar(e)) => e);
        same!("NeQuick G models", r.nav_nequickg_models_iter(), NavFrame::ION(IonosphereModel::NequickG(e)) => e);
        same!("BDGIM models", r.nav_bdgim_models_iter(), NavFrame::ION(IonosphereModel::Bdgim(e)) => e);
        let got: Vec<_> = r.nav_sv_clock_iter().collect();
        let want: Vec<_> = rec.iter().filter_map(|(k, f)| match f { NavFrame::EPH(e) => Some((*k, (e.clock_bias, e.clock_drift, e.clock_drift_rate))), _ => None }).collect();
        assert!(got == want, "clock states");
        let got: Vec<_> = r.nav_message_types_iter().collect();
        let want: Vec<_> = rec.keys().map(|k| (k.epoch, k.sv, k.msgtype)).collect();
        assert!(got == want, "message types");
        let t: Vec<Epoch> = r.epoch_iter().collect();
        assert!(t == rec.keys().map(|k| k.epoch).collect::<Vec<_>>(), "epochs of the frames");
        let sv: Vec<SV> = r.sv_iter().collect();
        assert!(sv == rec.keys().map(|k| k.sv).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>(), "vehicles of the frames");
        reach!(rec.len() > 20);
    }
}
