// Runtime of the generated harness: value transport and buffer plumbing. No knowledge of layouts.
pub type P<'a> = std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>>;
pub fn tok(p: &mut P) -> u128 { u128::from_str_radix(p.next().expect("TOOL: token"), 16).expect("TOOL: hex token") }
pub fn bits(x: u128, o: &mut String) {
    o.push('[');
    let mut first = true;
    for i in 0..128 {
        if x >> i & 1 == 1 {
            if !first { o.push(',') }
            first = false;
            o.push_str(&i.to_string());
        }
    }
    o.push(']');
}
pub trait V: Sized {
    fn get(p: &mut P) -> Self;
    fn put(&self, o: &mut String);
}
macro_rules! num { ($($t:ty, $u:ty);*) => { $(impl V for $t {
    fn get(p: &mut P) -> Self { tok(p) as $t }
    fn put(&self, o: &mut String) { bits(*self as $u as u128, o) }
})* } }
num!(u8,u8;u16,u16;u32,u32;u64,u64;u128,u128;i8,u8;i16,u16;i32,u32;i64,u64;i128,u128);
impl V for f32 { fn get(p: &mut P) -> Self { f32::from_bits(tok(p) as u32) } fn put(&self, o: &mut String) { bits(self.to_bits() as u128, o) } }
impl V for f64 { fn get(p: &mut P) -> Self { f64::from_bits(tok(p) as u64) } fn put(&self, o: &mut String) { bits(self.to_bits() as u128, o) } }
impl V for bool { fn get(p: &mut P) -> Self { tok(p) != 0 } fn put(&self, o: &mut String) { bits(*self as u128, o) } }
impl V for char { fn get(p: &mut P) -> Self { char::from_u32(tok(p) as u32).expect("TOOL: char") } fn put(&self, o: &mut String) { bits(*self as u32 as u128, o) } }
impl<T: V, const N: usize> V for [T; N] {
    fn get(p: &mut P) -> Self { std::array::from_fn(|_| T::get(p)) }
    fn put(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() { if i > 0 { o.push(',') } x.put(o) }
        o.push(']');
    }
}
pub type R = (&'static str, String);
pub fn ok<T: V>(x: T) -> R { let mut s = String::new(); x.put(&mut s); ("ok", s) }
pub fn done() -> R { ("ok", "[]".into()) }
pub fn raw(s: String) -> R { ("ok", s) }
pub fn codes(v: &[u8]) -> R { ("ok", format!("{:?}", v)) }
pub fn arr<const N: usize>(m: &[u8]) -> &[u8; N] { m[..N].try_into().unwrap() }
pub fn arm<const N: usize>(m: &mut [u8]) -> &mut [u8; N] { (&mut m[..N]).try_into().unwrap() }
pub fn own<const N: usize>(m: &[u8]) -> [u8; N] { *arr(m) }
pub fn list(p: &mut P) -> Vec<u8> { let mut o = vec![]; while p.peek().is_some() { o.push(tok(p) as u8) } o }
#[cfg(dyn_fns)]
pub fn len(e: bondrewd::BitfieldLengthError) -> R { (says("len", &e, &[e.0.to_string(), e.1.to_string()]), format!("[{},{}]", e.0, e.1)) }
#[cfg(hex_fns)]
pub fn hex(e: bondrewd::BitfieldHexError) -> R { (says("hex", &e, &[e.0.to_string(), e.1.to_string()]), format!("[{},{}]", e.0 as u32, e.1)) }
// an error's text names what went wrong
fn says(kind: &'static str, e: &dyn std::fmt::Display, parts: &[String]) -> &'static str {
    let s = e.to_string();
    if parts.iter().any(|p| !s.contains(p.as_str())) { return "mute"; }
    // numbers as whole words, and where the text says which of two lengths is which it does not mix them up
    let words: Vec<&str> = s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
    let number = |p: &str| !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit());
    if parts.iter().any(|p| number(p) && !words.contains(&p.as_str())) { return "mute"; }
    if kind == "len" {
        for w in words.windows(2) {
            if w[0].eq_ignore_ascii_case("expected") && number(w[1]) && w[1] != parts[1] { return "mixed"; }
        }
        for w in words.windows(4) {
            if number(w[0]) && w[1..] == ["bytes", "were", "provided"] && w[0] != parts[0] { return "mixed"; }
        }
    }
    kind
}
#[cfg(all(dyn_fns, hex_fns))]
pub fn hexd(e: bondrewd::BitfieldHexDynError) -> R {
    use bondrewd::BitfieldHexDynError::*;
    let s = e.to_string();
    let (r, p) = match e {
        Hex(e) => { let p = [e.0.to_string(), e.1.to_string()]; (hex(e), p) }
        Length(e) => { let p = [e.0.to_string(), e.1.to_string()]; (len(e), p) }
    };
    (says(r.0, &s, &p), r.1)
}
fn membits(m: &[u8], o: &mut String) {
    o.push('[');
    let mut first = true;
    for (i, b) in m.iter().enumerate() {
        for j in 0..8 {
            if b >> (7 - j) & 1 == 1 {
                if !first { o.push(',') }
                first = false;
                o.push_str(&(8 * i + j).to_string());
            }
        }
    }
    o.push(']');
}
pub fn drive(run: fn(usize, &str, usize, usize, &mut Vec<u8>, &mut P) -> R) {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    let mut m: Vec<u8> = vec![];
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut p: P = line.split_ascii_whitespace().peekable();
        let d: usize = p.next().unwrap().parse().unwrap();
        let op = p.next().unwrap();
        let v: usize = p.next().unwrap().parse().unwrap();
        let f: usize = p.next().unwrap().parse().unwrap();
        let r = if op == "load" {
            m = match p.next() { Some(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(), None => vec![] };
            done()
        } else {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(d, op, v, f, &mut m, &mut p))) {
                Ok(r) => r,
                Err(e) => {
                    let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    if s.contains("TOOL:") { eprintln!("{s}: {line}"); std::process::exit(3) }
                    ("panic", format!("{:?}", s))
                }
            }
        };
        let mut o = format!("{}\t{}\t{}\t", r.0, r.1, m.len());
        membits(&m, &mut o);
        o.push('\n');
        out.write_all(o.as_bytes()).unwrap();          // stdout is flushed at the end of every line
    }
}
