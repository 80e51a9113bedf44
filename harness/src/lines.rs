//! The line reader.
use crate::util::*;
use logreduce_iterator::BytesLines;
use serde_json::{json, Value};
use std::io::{Read, Write};

#[derive(PartialEq)]
struct Obs {
    out: Vec<(Vec<u8>, usize)>,
    err: Option<String>,
    panic: Option<String>,
    endless: bool,
}
impl Obs {
    fn json(&self) -> Value {
        let out: Vec<Value> = self
            .out
            .iter()
            .map(|(b, no)| json!({"no": no, "txt": encode_runs(b)}))
            .collect();
        json!({"out": out, "err": self.err, "panic": self.panic, "endless": self.endless})
    }
}

fn observe<R: Read>(reader: R, is_json: bool, limit: usize) -> Obs {
    let mut obs = Obs { out: Vec::new(), err: None, panic: None, endless: false };
    let res = catch(|| {
        for item in BytesLines::new(reader, is_json) {
            if obs.out.len() > limit {
                obs.endless = true;
                break;
            }
            match item {
                Ok((bytes, no)) => obs.out.push((bytes.to_vec(), no)),
                Err(e) => {
                    obs.err = Some(e.to_string());
                    break;
                }
            }
        }
    });
    obs.panic = res.err();
    obs
}

fn schedules(data: &[u8], runs: &Value, rng: &mut Rng) -> Vec<Sched> {
    let n = data.len();
    let mut res = vec![Sched::Full];
    if n <= 1 {
        return res;
    }
    if n <= 7 {
        for mask in 1u32..(1 << (n - 1)) {
            res.push(Sched::Cuts((0..n - 1).filter(|i| mask & (1 << i) != 0).map(|i| i + 1).collect()));
        }
        return res;
    }
    if n <= 40_000 {
        res.push(Sched::Fixed(1));
    }
    for k in [2, 3, 4096, 5999, 6000, 6001, 6002, 8191, 8192] {
        res.push(Sched::Fixed(k))
    }
    let mut cand: Vec<usize> = Vec::new();
    let mut p = 0;
    for r in runs.as_array().unwrap() {
        p += r[1].as_u64().unwrap() as usize;
        for q in [p.wrapping_sub(1), p, p + 1] {
            if q > 0 && q < n && q < 1 << 40 {
                cand.push(q)
            }
        }
    }
    for q in [5999, 6000, 6001, 6002, 8191, 8193] {
        if q < n {
            cand.push(q)
        }
    }
    cand.sort();
    cand.dedup();
    for c in cand.iter().take(24) {
        res.push(Sched::Cuts(vec![*c]));
    }
    for w in cand.windows(2).take(24) {
        res.push(Sched::Cuts(w.to_vec()));
    }
    for _ in 0..10 {
        res.push(Sched::Cuts(cand.iter().filter(|_| rng.below(2) == 0).cloned().collect()));
    }
    res
}

/// The bytes that stand for the letters x, y and z: what an ordinary character is does not matter.
type Palette = [(u8, &'static [u8]); 3];
const PALETTES: [Palette; 9] = [
    [(b'x', b"x"), (b'y', b"y"), (b'z', b"z")],
    [(b'x', b"\x00"), (b'y', b"\r"), (b'z', b" ")],
    [(b'x', b" "), (b'y', b"\t"), (b'z', b"\x0b")],
    [(b'x', b"\r"), (b'y', b"r"), (b'z', b"t")],
    [(b'x', "\u{e9}".as_bytes()), (b'y', "\u{4e2d}".as_bytes()), (b'z', "\u{1f600}".as_bytes())],
    [(b'x', b"\xef\xbb\xbf"), (b'y', b"\xff"), (b'z', b"\xc0")],
    [(b'x', b"0"), (b'y', b"N"), (b'z', b"x")],
    [(b'x', "\u{2028}".as_bytes()), (b'y', "\u{85}".as_bytes()), (b'z', b"\x0c")],
    [(b'x', b"'"), (b'y', b"/"), (b'z', b"\x1b#")],
];

fn paint(data: &[u8], pal: &Palette) -> Vec<u8> {
    let mut res = data.to_vec();
    let mut from = 0;
    for i in 0..data.len() {
        if i > 0 && data[i] != data[i - 1] {
            from = i;
        }
        if let Some((_, bs)) = pal.iter().find(|(c, _)| *c == data[i]) {
            res[i] = bs[(i - from) % bs.len()];
        }
    }
    res
}

/// The letters of the lines, `?` for a byte that is not in the input, or for a line that is not.
fn unpaint(obs: &mut Obs, data: &[u8], painted: &[u8], pal: &Palette) {
    let mut table = [b'?'; 256];
    for (c, b) in data.iter().zip(painted) {
        table[*b as usize] = *c;
    }
    for (c, bs) in pal {
        bs.iter().for_each(|b| table[*b as usize] = *c);
    }
    let mut at = 0;
    for (txt, _) in obs.out.iter_mut() {
        match painted[at..].windows(txt.len().max(1)).position(|w| w == &txt[..]) {
            Some(p) => {
                at += p + txt.len();
                txt.iter_mut().for_each(|b| *b = table[*b as usize]);
            }
            None => txt.iter_mut().for_each(|b| *b = b'?'),
        }
    }
}

/// One input, under many schedules, complete and failing at its end.
pub fn run(case: &Value) -> Value {
    let plain = decode_runs(&case["runs"]);
    let pal = &PALETTES[case["pal"].as_u64().unwrap_or(0) as usize % PALETTES.len()];
    let data = paint(&plain, pal);
    let is_json = case["json"].as_bool().unwrap();
    let mut rng = Rng(seed() ^ data.len() as u64);
    let scheds = schedules(&data, &case["runs"], &mut rng);
    let mut seen: [Vec<(Obs, &Sched)>; 2] = [Vec::new(), Vec::new()];
    let limit = data.len() + 8;
    for s in &scheds {
        for (k, fail) in [(0, false), (1, true)] {
            let mut r = observe(ChoppyReader::new(&data, s.clone(), fail), is_json, limit);
            unpaint(&mut r, &plain, &data, pal);
            if !seen[k].iter().any(|(o, _)| *o == r) {
                seen[k].push((r, s));
            }
        }
    }
    let show = |xs: &Vec<(Obs, &Sched)>| -> Vec<Value> {
        xs.iter().map(|(o, s)| json!({"sched": s.json(), "res": o.json()})).collect()
    };
    json!({"runs": scheds.len() * 2, "full": show(&seen[0]), "failing": show(&seen[1])})
}

/// Random inputs and schedules, recorded for the trace specification.
pub fn fuzz(out: &str, args: &[String]) {
    let n: usize = args[0].parse().unwrap();
    let mut rng = Rng(seed().wrapping_mul(0x1234567));
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for _ in 0..n {
        let is_json = rng.below(2) == 0;
        let mut data: Vec<u8> = Vec::new();
        let segs = 1 + rng.below(14);
        for _ in 0..segs {
            let len = match rng.below(8) {
                0 => 0,
                1 | 2 => rng.below(40),
                3 => 5990 + rng.below(20),
                4 => rng.below(6000),
                5 => 8180 + rng.below(24),
                6 => rng.below(30),
                _ => rng.below(13000),
            };
            let c = *rng.pick(b"xyzwkm");
            data.resize(data.len() + len, c);
            for _ in 0..rng.below(4) {
                data.push(*rng.pick(b"\n\n\n\\\\nn,\"[]{}x"));
            }
        }
        let sched = match rng.below(4) {
            0 => Sched::Full,
            1 => Sched::Fixed(1 + rng.below(9000)),
            2 => {
                let k = rng.below(12);
                let mut cuts: Vec<usize> = (0..k).map(|_| rng.below(data.len() + 1)).collect();
                cuts.sort();
                cuts.dedup();
                Sched::Cuts(cuts)
            }
            // cut right at the separators
            _ => Sched::Cuts(
                data.iter()
                    .enumerate()
                    .filter(|(_, b)| b"\n\\n,".contains(b))
                    .map(|(i, _)| i + rng.below(2))
                    .filter(|i| *i > 0)
                    .collect(),
            ),
        };
        let fail = rng.below(4) == 0;
        let r = observe(ChoppyReader::new(&data, sched.clone(), fail), is_json, data.len() + 8).json();
        writeln!(
            w,
            "{}",
            json!({"runs": encode_runs(&data), "json": is_json, "fail": fail, "sched": sched.json(),
                   "out": r["out"], "err": r["err"], "panic": r["panic"], "endless": r["endless"]})
        )
        .unwrap();
    }
}

/// A large input made of a repeated pattern: observes the lines (first, last, count), the
/// number of lines, and the memory kept by the iterator.
pub fn big(case: &Value) -> Value {
    let pat = decode_runs(&case["pattern"]);
    let times = case["times"].as_u64().unwrap() as usize;
    let is_json = case["json"].as_bool().unwrap();
    let step = case["read"].as_u64().unwrap() as usize;
    struct Rep {
        pat: Vec<u8>,
        left: usize,
        pos: usize,
        step: usize,
    }
    impl Read for Rep {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let mut n = 0;
            let max = buf.len().min(self.step);
            while n < max && self.left > 0 {
                let k = (self.pat.len() - self.pos).min(max - n);
                buf[n..n + k].copy_from_slice(&self.pat[self.pos..self.pos + k]);
                n += k;
                self.pos += k;
                if self.pos == self.pat.len() {
                    self.pos = 0;
                    self.left -= 1;
                }
            }
            Ok(n)
        }
    }
    let rep = Rep { pat, left: times, pos: 0, step };
    let mut first = Value::Null;
    let mut last = Value::Null;
    let (mut count, mut bytes, mut errs) = (0usize, 0usize, 0usize);
    let base = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    PEAK.store(base, std::sync::atomic::Ordering::SeqCst);
    let res = catch(|| {
        for item in BytesLines::new(rep, is_json) {
            match item {
                Ok((b, no)) => {
                    count += 1;
                    bytes += b.len();
                    if first.is_null() {
                        first = json!({"no": no, "txt": encode_runs(&b)});
                    }
                    if count % 50 == 0 || no > case["tail_from"].as_u64().unwrap_or(0) as usize {
                        last = json!({"no": no, "txt": encode_runs(&b)});
                    }
                }
                Err(_) => {
                    errs += 1;
                    break;
                }
            }
        }
    });
    let peak = PEAK.load(std::sync::atomic::Ordering::SeqCst) - base;
    json!({"first": first, "last": last, "count": count, "bytes": bytes, "errs": errs, "peak": peak, "panic": res.err()})
}
