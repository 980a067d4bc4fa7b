//! ASCII versions of standard library routines, substituted under Kani only.
pub fn trim(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = 0;
    let mut j = b.len();
    while i < j && (b[i] == 32 || (b[i] >= 9 && b[i] <= 13)) { i += 1; }
    while j > i && (b[j - 1] == 32 || (b[j - 1] >= 9 && b[j - 1] <= 13)) { j -= 1; }
    unsafe { std::str::from_utf8_unchecked(&b[i..j]) }
}
pub fn to_uppercase(s: &str) -> String { s.to_ascii_uppercase() }
pub fn memchr(x: u8, b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() { if b[i] == x { return Some(i); } i += 1; }
    None
}
pub fn f64_from_str(s: &str) -> Result<f64, std::num::ParseFloatError> {
    let b = s.as_bytes();
    if b.len()==0 || b[0] == b'x' { return "".parse::<f32>().map(|x| x as f64) }
    Ok(b[0] as f64)
}
/// allocation free formatting target
pub struct Sink<const N: usize> { pub b: [u8; N], pub n: usize }
impl<const N: usize> Sink<N> {
    pub fn new() -> Self { Self { b: [0; N], n: 0 } }
    pub fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) } }
}
impl<const N: usize> std::fmt::Write for Sink<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.as_bytes() {
            if self.n == N { return Err(std::fmt::Error); }
            self.b[self.n] = *c;
            self.n += 1;
        }
        Ok(())
    }
}
impl<const N: usize> std::io::Write for Sink<N> {
    fn write(&mut self, s: &[u8]) -> std::io::Result<usize> {
        let mut i = 0;
        while i < s.len() && self.n < N {
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
        Ok(i)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
