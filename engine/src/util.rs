use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0 | 1;
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 20) % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { if self.chance(1, 4) { [0u8, 1, 2, 3, 0x7f, 0x80, 0xff, b'a'][self.below(8)] } else { (self.next() >> 30) as u8 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Unit, U(u64), Bytes(Vec<u8>), Str(String), Opt(Option<Box<Val>>), List(Vec<Val>) }
impl Val {
    pub fn u(self) -> u64 { match self { Val::U(x) => x, v => panic!("engine: U expected, {:?}", v) } }
    pub fn bytes(self) -> Vec<u8> { match self { Val::Bytes(x) => x, v => panic!("engine: Bytes expected, {:?}", v) } }
    pub fn str(self) -> String { match self { Val::Str(x) => x, v => panic!("engine: Str expected, {:?}", v) } }
    pub fn list(self) -> Vec<Val> { match self { Val::List(x) => x, v => panic!("engine: List expected, {:?}", v) } }
    pub fn opt(self) -> Option<Val> { match self { Val::Opt(x) => x.map(|b| *b), v => panic!("engine: Opt expected, {:?}", v) } }
}

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
/// shows the watchdog that the engine moves, and what it is doing
pub fn beat(what: &dyn Fn() -> String) {
    let n = BEAT.fetch_add(1, Ordering::Relaxed);
    let _ = n;
    if let Ok(mut c) = CURRENT.lock() { *c = what(); }
}

#[derive(Clone, Debug)]
pub struct Fail { pub tags: Vec<&'static str>, pub what: String, pub case: String }
pub fn fail(tags: &[&'static str], what: String) -> Fail { Fail { tags: tags.to_vec(), what, case: String::new() } }

#[macro_export]
macro_rules! ck {
    ($c:expr, $tags:expr, $($a:tt)*) => { if !$c { return Err($crate::util::fail(&$tags, format!($($a)*))); } };
}
pub type Ck = Result<(), Fail>;

pub fn utf8(r: &mut Rng, n: usize) -> Vec<u8> {
    // mostly valid UTF-8 of about n bytes, including multi-byte characters
    let mut s = String::new();
    while s.len() < n {
        s.push(match r.below(6) { 0 => 'é', 1 => '漢', 2 => '😀', 3 => '\u{0}', _ => (b'a' + r.below(26) as u8) as char });
    }
    s.into_bytes()
}
pub fn stream(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => { let mut b = utf8(r, n); if r.chance(1, 3) && !b.is_empty() { let i = r.below(b.len()); b[i] = r.byte(); } if r.chance(1, 3) { b.truncate(n) } b }
        1 => { let x = r.byte(); let mut v = vec![x; n]; if n > 0 && r.chance(1, 2) { let i = r.below(n); v[i] = r.byte(); } v }
        2 => (0..n).map(|_| r.below(4) as u8).collect(),
        _ => (0..n).map(|_| r.byte()).collect(),
    }
}
