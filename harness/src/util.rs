use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// A counting allocator, to observe the memory a reader keeps.
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        PEAK.fetch_max(n, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn read_cases(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).expect("cases");
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("case"))
        .collect()
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string())
    })
}

/// Run each case and write its result.  The results are written in the order of the cases,
/// and each one before the next case of its group starts, so that a crash can be attributed.
pub fn each(inp: &str, out: &str, threads: usize, f: impl Fn(&Value) -> Value + Sync) {
    let cases = read_cases(inp);
    let mut w = std::fs::File::create(out).expect("out");
    if threads <= 1 {
        for c in &cases {
            let r = catch(|| f(c)).unwrap_or_else(|e| json!({ "panic": e }));
            writeln!(w, "{}", r).unwrap();
            w.flush().unwrap();
        }
        return;
    }
    // Batches, so that the results before a crash are known.
    let batch = 256;
    for group in cases.chunks(batch * threads) {
        let mut res: Vec<Vec<Value>> = Vec::new();
        std::thread::scope(|s| {
            let per = (group.len() + threads - 1) / threads;
            let hs: Vec<_> = group
                .chunks(per.max(1))
                .map(|part| {
                    let f = &f;
                    s.spawn(move || {
                        part.iter()
                            .map(|c| catch(|| f(c)).unwrap_or_else(|e| json!({ "panic": e })))
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            res = hs.into_iter().map(|h| h.join().unwrap()).collect();
        });
        for r in res.into_iter().flatten() {
            writeln!(w, "{}", r).unwrap();
        }
        w.flush().unwrap();
    }
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

// ---- runs of character classes ------------------------------------------------------------
pub fn class_byte(c: &str) -> u8 {
    match c {
        "N" => b'\n',
        "b" => b'\\',
        "c" => b',',
        "o" => b'[',
        "p" => b']',
        "u" => b'{',
        "v" => b'}',
        "q" => b'"',
        _ => c.as_bytes()[0],
    }
}
pub fn byte_class(b: u8) -> String {
    match b {
        b'\n' => "N".into(),
        b'\\' => "b".into(),
        b',' => "c".into(),
        b'[' => "o".into(),
        b']' => "p".into(),
        b'{' => "u".into(),
        b'}' => "v".into(),
        b'"' => "q".into(),
        // anything which is not a class of the specification is shown as such
        b if b.is_ascii_lowercase() && !b"bcopuvq".contains(&b) => (b as char).to_string(),
        b => format!("0x{:02x}", b),
    }
}
pub fn decode_runs(v: &Value) -> Vec<u8> {
    let mut res = Vec::new();
    for r in v.as_array().expect("runs") {
        let c = class_byte(r[0].as_str().unwrap());
        res.resize(res.len() + r[1].as_u64().unwrap() as usize, c);
    }
    res
}
pub fn encode_runs(bytes: &[u8]) -> Value {
    let mut res: Vec<(u8, usize)> = Vec::new();
    for b in bytes {
        match res.last_mut() {
            Some((c, n)) if c == b => *n += 1,
            _ => res.push((*b, 1)),
        }
    }
    Value::Array(res.into_iter().map(|(c, n)| json!([byte_class(c), n])).collect())
}

// ---- a reader with a chosen schedule ------------------------------------------------------
#[derive(Clone)]
pub enum Sched {
    /// as much as asked
    Full,
    /// at most n bytes per read
    Fixed(usize),
    /// stop at these offsets
    Cuts(Vec<usize>),
}
impl Sched {
    pub fn json(&self) -> Value {
        match self {
            Sched::Full => json!("full"),
            Sched::Fixed(n) => json!({ "fixed": n }),
            Sched::Cuts(c) => json!({ "cuts": c }),
        }
    }
}

pub struct ChoppyReader<'a> {
    pub data: &'a [u8],
    pub off: usize,
    pub sched: Sched,
    pub fail: bool,
    /// the number of reads after the end or the failure
    pub late: usize,
}
impl<'a> ChoppyReader<'a> {
    pub fn new(data: &'a [u8], sched: Sched, fail: bool) -> Self {
        ChoppyReader { data, off: 0, sched, fail, late: 0 }
    }
}
impl<'a> Read for ChoppyReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.off;
        if left == 0 {
            self.late += 1;
            return if self.fail {
                use std::io::ErrorKind::*;
                let kinds = [Other, UnexpectedEof, ConnectionReset, BrokenPipe, TimedOut, InvalidData, ConnectionAborted, PermissionDenied, InvalidInput, WouldBlock];
                Err(std::io::Error::new(kinds[self.data.len() % kinds.len()], "injected failure"))
            } else {
                Ok(0)
            };
        }
        let n = match &self.sched {
            Sched::Full => left,
            Sched::Fixed(n) => *n,
            Sched::Cuts(c) => c.iter().find(|c| **c > self.off).map(|c| c - self.off).unwrap_or(left),
        };
        let n = n.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.off..self.off + n]);
        self.off += n;
        Ok(n)
    }
}
