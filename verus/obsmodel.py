"""The opaque types of src/observation shared by obs_v2 and obs_v3."""
import strs

TRUSTED = [
    "HashMap::get, Clone for Observable, SV::from_str, LliFlags::from_bits, SNR: functions of their argument (the codes are proved by P02)",
]

MODEL = r"""
#[derive(Clone, Copy)]
pub enum Constellation { GPS, Glonass, BeiDou, QZSS, Galileo, IRNSS, SBAS, Mixed, Other(u8) }
pub uninterp spec fn sbas(c: Constellation) -> bool;
impl Constellation {
    #[verifier::external_body]
    pub fn is_sbas(&self) -> (r: bool) ensures r == sbas(*self) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SV { pub prn: u8, pub constellation: Constellation }
pub struct Observable { c: u8 }
impl Observable {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Observable) ensures r == *self { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct LliFlags { b: u8 }
pub uninterp spec fn lli_bits(b: u8) -> Option<LliFlags>;
impl LliFlags {
    #[verifier::external_body]
    pub fn from_bits(b: u8) -> (r: Option<LliFlags>) ensures r == lli_bits(b) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SNR { b: u8 }
pub uninterp spec fn snr_of(b: u8) -> SNR;
impl SNR {
    #[verifier::external_body]
    pub fn from(b: u8) -> (r: SNR) ensures r == snr_of(b) { unimplemented!() }
}
#[verifier::external_body]
pub struct Codes { c: u8 }
impl Codes {
    pub uninterp spec fn spec_get(&self, c: Constellation) -> Option<Seq<Observable>>;
    #[verifier::external_body]
    pub fn get(&self, c: &Constellation) -> (r: Option<&Vec<Observable>>)
        ensures match r { Some(v) => self.spec_get(*c) == Some(v@), None => self.spec_get(*c) is None }
    { unimplemented!() }
}
pub struct SignalObservation { pub sv: SV, pub observable: Observable, pub value: f64, pub lli: Option<LliFlags>, pub snr: Option<SNR> }
pub open spec fn codes_of(codes: Codes, sv: SV) -> Option<Seq<Observable>> {
    if sbas(sv.constellation) { codes.spec_get(Constellation::SBAS) } else { codes.spec_get(sv.constellation) }
}
pub trait VMin { fn vmin(self, b: usize) -> usize; }
impl VMin for usize { fn vmin(self, b: usize) -> (r: usize) ensures r == min(self as int, b as int) { if self < b { self } else { b } } }
""" + strs.fromstr("SV")
