//! P10 standard file names
use crate::nd;
use hifitime::Unit;
use rinex::prelude::{Constellation, Epoch, Header, ProductionAttributes, Rinex, RinexType, TimeScale};
use rinex::production::{DataSource, DetailedProductionAttributes, FFU, PPU};
use std::str::FromStr;

const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const PERIODS: [(PPU, &str); 5] = [(PPU::QuarterHour, "15M"), (PPU::Hourly, "01H"), (PPU::Daily, "01D"), (PPU::Yearly, "01Y"), (PPU::Unspecified, "00U")];

fn word(n: usize, t: &[u8]) -> String {
    (0..n).map(|_| nd::pick(t) as char).collect()
}

fn ffu() -> (FFU, String) {
    let (u, top, l) = nd::pick(&[(Unit::Second, 59u32, 'S'), (Unit::Minute, 59, 'M'), (Unit::Hour, 23, 'H'), (Unit::Day, 99, 'D')]);
    let v = nd::r_u32(1, top);
    (FFU { val: v, unit: u }, format!("{v:02}{l}"))
}

/// kind of file: rinex, extension letter (V2), format code (V3), V3 extension
fn kind() -> (Rinex, char, String, &'static str) {
    match nd::r_u8(0, 5) {
        0 => (Rinex::basic_obs(), 'O', "MO".to_string(), "rnx"),
        1 => (Rinex::basic_crinex(), 'D', "MO".to_string(), "crx"),
        2 => (Rinex::basic_obs().with_header(Header::default().with_type(RinexType::MeteoData)), 'M', "MM".to_string(), "rnx"),
        3 => (Rinex::basic_nav(), 'N', "MN".to_string(), "rnx"),
        _ => {
            let (c, l) = nd::pick(&[(Constellation::GPS, 'G'), (Constellation::Glonass, 'R'), (Constellation::Galileo, 'E'), (Constellation::BeiDou, 'C'), (Constellation::QZSS, 'J'), (Constellation::IRNSS, 'I'), (Constellation::SBAS, 'S')]);
            let h = Header::basic_nav().with_constellation(c);
            (Rinex::basic_nav().with_header(h), if l == 'R' { 'G' } else { 'N' }, format!("{l}N"), "rnx")
        },
    }
}

harness! {
}
search! {
    fn p10_short() {
        let (rnx, ext, _, _) = kind();
        let name = word(4, ALNUM);
        let year = nd::r_u32(1980, 2079);
        let doy = nd::r_u32(1, 366);
        let s = format!("{name}{doy:03}0.{:02}{ext}", year % 100);
        let a = ProductionAttributes::from_str(&s).unwrap();
        assert!(a.name == name && a.year == year && a.doy == doy, "{s} is {a:?}");
        assert!(a.region.is_none() && a.v3_details.is_none(), "{s} is {a:?}");
        assert!(ProductionAttributes::from_str(&s.to_lowercase()).unwrap() == a, "case");
        let r = rnx.standard_filename(true, None, Some(a));
        assert!(r == s, "{s} became {r}");
    }
    fn p10_ionex() {
        let name = word(3, ALNUM);
        let region = nd::pick(b"GR") as char;
        let year = nd::r_u32(1980, 2079);
        let doy = nd::r_u32(1, 366);
        let s = format!("{name}{region}{doy:03}0.{:02}I", year % 100);
        let a = ProductionAttributes::from_str(&s).unwrap();
        assert!(a.name == name && a.region == Some(region) && a.year == year && a.doy == doy, "{s} is {a:?}");
        let rnx = Rinex::basic_obs().with_header(Header::default().with_type(RinexType::IonosphereMaps));
        let r = rnx.standard_filename(nd::bool_(), Some(".gz"), Some(a));
        assert!(r == format!("{s}.gz"), "{s} became {r}");
    }
    fn p10_long() {
        let (rnx, _, fmt, ext) = kind();
        let obs = rnx.is_observation_rinex();
        let name = word(4, ALNUM);
        let country = word(3, &ALNUM[..26]);
        let batch = nd::r_u8(0, 99);
        let (src, letter) = nd::pick(&[(DataSource::Receiver, 'R'), (DataSource::Stream, 'S'), (DataSource::Unknown, 'U')]);
        let year = nd::r_u32(1980, 2999);
        let doy = nd::r_u32(1, 366);
        let (hh, mm) = (nd::r_u8(0, 23), nd::r_u8(0, 59));
        let (ppu, p) = nd::pick(&PERIODS);
        let (ffu, f) = ffu();
        let f = if obs { format!("_{f}") } else { String::new() };
        let s = format!("{name}{batch:02}{country}_{letter}_{year:04}{doy:03}{hh:02}{mm:02}_{p}{f}_{fmt}.{ext}");
        let a = ProductionAttributes::from_str(&s).unwrap();
        let e = ProductionAttributes {
            name, year, doy, region: None,
            v3_details: Some(DetailedProductionAttributes { country, batch, data_src: src, ppu, ffu: obs.then_some(ffu), hh, mm }),
        };
        assert!(a == e, "{s} is {a:?}, expected {e:?}");
        assert!(ProductionAttributes::from_str(&format!("{s}.gz")).unwrap() == e, "{s}.gz");
        let r = rnx.standard_filename(false, None, Some(a));
        assert!(r == s, "{s} became {r}");
    }
    fn p10_epoch() {
        // date of the first epoch
        let (ts, c, tsys) = nd::pick(&[(TimeScale::GPST, 'G', "GPS"), (TimeScale::GST, 'E', "GAL"), (TimeScale::BDT, 'C', "BDT"), (TimeScale::QZSST, 'J', "QZS")]);
        let year = nd::r_i32(2007, 2079);
        let leap = year % 4 == 0;
        let doy = nd::r_u32(1, if leap { 366 } else { 365 });
        let (hh, mm, ss) = (nd::r_u8(0, 23), nd::r_u8(0, 59), nd::r_u8(0, 59));
        let mut d = doy;
        let mut month = 1u8;
        for l in [31, 28 + leap as u32, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
            if d <= l { break }
            d -= l;
            month += 1;
        }
        let head = format!("{:<60}{}\n{:<60}{}\n{:<60}{}\n{:<60}{}\n",
            format!("     3.04           OBSERVATION DATA    {c}"), "RINEX VERSION / TYPE",
            format!("{c}    1 C1C"), "SYS / # / OBS TYPES",
            format!("  {year:4}    {month:2}    {d:2}    {hh:2}    {mm:2}   {ss:2}.0000000     {tsys}"), "TIME OF FIRST OBS",
            "", "END OF HEADER");
        let body = format!("> {year:4} {month:02} {d:02} {hh:02} {mm:02} {ss:02}.0000000  0  1\n{c}01  20000000.000\n");
        let text = format!("{head}{body}");
        let rnx = crate::gen::parse(&text).unwrap();
        let t = rnx.first_epoch().unwrap();
        assert!(t.time_scale == ts, "time system of {text}: {t:?}");
        let short = rnx.standard_filename(true, None, None);
        assert!(short == format!("{doy:03}0.{:02}O", year % 100), "short name {short} {text}");
        let long = rnx.standard_filename(false, None, None);
        let e = format!("00CCC_U_{year:04}{doy:03}{hh:02}{mm:02}_00U_XXX_MO.rnx");
        assert!(long == e, "{long} instead of {e}: {text}");
        let g = rnx.guess_production_attributes();
        assert!(g.year == year as u32 && g.doy == doy, "guessed {g:?}: {text}");
    }
    fn p10_total() {
        // any text is attributes, or an error: never a panic
        let n = nd::r_usize(0, 48);
        let s: String = if nd::bool_() {
            (0..n).map(|_| nd::pick("A0129_.IODSMé_.".chars().collect::<Vec<_>>().as_slice())).collect()
        } else {
            let base: Vec<char> = nd::pick(&["ACOR00ESP_R_20213550000_01D_30S_MO.crx", "AMEL00NLD_R_20210010000_01D_MN.rnx", "AJAC3550.21D", "CKMG0020.22I"]).chars().collect();
            let mut b = base;
            for _ in 0..nd::r_usize(0, 3) {
                let i = nd::r_usize(0, b.len() - 1);
                match nd::r_u8(0, 2) {
                    0 => { b.remove(i); },
                    1 => b.insert(i, nd::pick(&['A', '0', '.', '_', 'é', '+'])),
                    _ => b[i] = nd::pick(&['A', '0', '.', '_', 'é', '+']),
                }
            }
            b.into_iter().collect()
        };
        let _ = ProductionAttributes::from_str(&s);
    }
}
