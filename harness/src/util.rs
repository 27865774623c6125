//! JSON output, random streams, gene and fitness palettes, panic capture and a watchdog.
use rand::prelude::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

/// ---- JSON -----------------------------------------------------------------------------------
pub fn arr<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i != 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}
pub fn qs(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "/").replace('"', "'").replace('\n', " "))
}
pub fn strs<'a>(v: impl IntoIterator<Item = &'a str>) -> String {
    arr(v.into_iter().map(qs))
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub cases: u64,
    pub events: u64,
    pub bytes: u64,
}
impl Out {
    pub fn new(path: &str) -> Self {
        Out { f: std::io::BufWriter::new(std::fs::File::create(path).unwrap()), cases: 0, events: 0, bytes: 0 }
    }
    /// Writes one case (one JSON object on a line) that holds `events` recorded events.
    pub fn case(&mut self, line: String, events: u64) {
        writeln!(self.f, "{line}").unwrap();
        self.cases += 1;
        self.events += events;
        self.bytes += line.len() as u64;
    }
    pub fn finish(mut self) {
        self.f.flush().unwrap();
        println!("{{\"cases\":{},\"events\":{},\"bytes\":{}}}", self.cases, self.events, self.bytes);
    }
}

/// ---- panics and hangs -----------------------------------------------------------------------
static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Notes which case is being executed, for the watchdog.
pub fn at(s: impl Into<String>) {
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = s.into();
    BEAT.fetch_add(1, SeqCst);
}
pub const HANG_EXIT: i32 = 3;
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// Runs everything; a panic that no `guard` was there for ends the process with a status of its own,
/// unless it comes from writing the trace.
pub fn all(f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let what = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let case = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        println!("PANIC in {case}: {what}");
        if what.starts_with("src/util.rs") || what.starts_with("src/main.rs") {
            std::panic::resume_unwind(e);
        }
        std::process::exit(PANIC_EXIT);
    }
}
pub const PANIC_EXIT: i32 = 4;
pub fn start_watchdog(hang_path: String, limit_s: u64) {
    std::panic::set_hook(Box::new(|p| {
        let at = p.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{at}: {p}");
    }));
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(SeqCst);
            if b != last {
                last = b;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= limit_s {
                let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let _ = std::fs::write(&hang_path, &c);
                println!("HANG {c}");
                std::process::exit(HANG_EXIT);
            }
        }
    });
}
/// Runs the code under test; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// ---- random streams -------------------------------------------------------------------------
/// `spiky` mixes the extreme outputs 0 and MAX (and their neighborhood) into the stream.
#[derive(Clone)]
pub struct HRng {
    s: SmallRng,
    spiky: bool,
}
impl HRng {
    pub fn new(seed: u64, spiky: bool) -> Self {
        HRng { s: SmallRng::seed_from_u64(seed), spiky }
    }
}
impl RngCore for HRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.s.next_u64();
        if self.spiky {
            match self.s.next_u64() % 8 {
                0 => return 0,
                1 => return u64::MAX,
                2 => return u64::MAX - (v & 0xfff),
                3 => return v & 0xfff,
                4 => return 1 << 63,
                // at any distance from either end
                5 => return v >> (self.s.next_u64() % 64),
                6 => return u64::MAX - (v >> (self.s.next_u64() % 64)),
                _ => {}
            }
        }
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
pub fn rng(seed: u64, tag: u64) -> SmallRng {
    SmallRng::seed_from_u64(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ tag.wrapping_mul(0xD1B5_4A32_D192_ED03))
}

/// ---- fitness palettes: strictly increasing values; the trace holds the index ----------
/// `scale` is set if value = base + index * scale exactly enough for the moments to be compared.
pub struct Palette {
    pub v: Vec<f64>,
    pub base: f64,
    pub scale: f64,
}
pub const NPAL: usize = 14;
pub fn palette(kind: usize, n: usize) -> Palette {
    let aff = |b: f64, s: f64| Palette { v: (0..n).map(|i| b + i as f64 * s).collect(), base: b, scale: s };
    let raw = |v: Vec<f64>| Palette { v, base: 0.0, scale: 0.0 };
    match kind {
        0 => aff(0.0, 1.0),
        1 => aff(-(n as f64) / 2.0, 1.0),
        2 => aff(1000.0, 0.125),
        3 => aff(-100.0, 1.0),
        4 => {
            // neighboring floating point numbers
            let mut x = 1.0f64;
            raw((0..n).map(|_| { let y = x; x = f64::from_bits(x.to_bits() + 1); y }).collect())
        }
        5 => raw((0..n).map(|i| f64::from_bits(1 + i as u64)).collect()), // subnormal
        6 => raw((0..n).map(|i| (i as f64 - n as f64 / 2.0) * 1e300).collect()),
        7 => raw((0..n).map(|i| 1e-300 * (i as f64 + 1.0)).collect()),
        8 => raw((0..n).map(|i| 10f64.powi(i as i32 * 2 - n as i32)).collect()),
        9 => raw((0..n).map(|i| -10f64.powi(n as i32 - i as i32 * 2)).collect()),
        10 => aff(0.0, 0.0009765625),
        11 => aff(1.0e6, 1.0),
        12 => aff(1.0e9, 1.0),
        NPAL => {
            // up to infinity, if it is for order alone
            let mut v: Vec<f64> = (0..n).map(|i| i as f64 - 2.0).collect();
            v[n - 1] = f64::INFINITY;
            if n > 2 {
                v[0] = f64::NEG_INFINITY
            }
            raw(v)
        }
        _ => raw((0..n).map(|i| i as f64 * 0.1 + if i % 3 == 1 { 1e-12 } else { 0.0 }).collect()),
    }
}

/// ---- nested lists of integers -----------------------------------------------------------------
#[derive(Debug)]
pub enum J {
    N(i64),
    L(Vec<J>),
}
impl J {
    pub fn num(&self) -> i64 {
        match self {
            J::N(x) => *x,
            _ => panic!("a list is no number"),
        }
    }
    pub fn list(&self) -> &[J] {
        match self {
            J::L(x) => x,
            _ => panic!("a number is no list"),
        }
    }
    pub fn nums(&self) -> Vec<i64> {
        self.list().iter().map(J::num).collect()
    }
}
pub fn parse_nested(s: &str) -> Vec<J> {
    let mut stack = vec![vec![]];
    let mut num = String::new();
    for c in s.chars() {
        if !num.is_empty() && !c.is_ascii_digit() {
            stack.last_mut().unwrap().push(J::N(num.parse().unwrap()));
            num.clear();
        }
        match c {
            '[' => stack.push(vec![]),
            ']' => {
                let l = stack.pop().unwrap();
                stack.last_mut().unwrap().push(J::L(l));
            }
            '-' | '0'..='9' => num.push(c),
            _ => {}
        }
    }
    match stack.pop().unwrap().pop() {
        Some(J::L(x)) => x,
        _ => panic!("no list: {s}"),
    }
}
