//! The content cache: each history runs in a process of its own, with its own cache directory.
use crate::store::with_limit;
use crate::tree::Scratch;
use crate::util::*;
use logreduce_cache::{Cache, CacheReader};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{ErrorKind, Read};
use std::rc::Rc;
use url::Url;

/// The content of a response.
pub fn content(salt: u64, c: u64) -> Vec<u8> {
    let mut rng = Rng(c.wrapping_mul(7919) + salt);
    match (c + salt) % 4 {
        0 => vec![],
        1 => format!("the response {} {:x}\n\u{e9}", c, rng.next()).into_bytes(),
        2 => (0..100_000).map(|_| rng.next() as u8).collect(),
        _ => format!("line of the response {}\n", c).repeat(12_000).into_bytes(),
    }
}
fn listing(salt: u64, c: u64, base: &Url) -> Vec<Url> {
    let n = match (c + salt) % 3 {
        0 => 0,
        1 => 3,
        _ => 2000,
    };
    (0..n).map(|i| base.join(&format!("{}-{}/file-{}.log", c, i % 7, i)).unwrap()).collect()
}

struct State {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    fail: Option<ErrorKind>,
}
#[derive(Clone)]
struct Remote(Rc<RefCell<State>>);
impl Read for Remote {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if let Some(kind) = s.fail.take() {
            if kind != ErrorKind::Interrupted {
                // what was in flight is lost
                s.pos = (s.pos + 5).min(s.data.len());
            }
            return Err(kind.into());
        }
        let n = buf.len().min(s.chunk).min(s.data.len() - s.pos);
        buf[..n].copy_from_slice(&s.data[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    }
}

struct Writer {
    reader: CacheReader<Remote>,
    remote: Remote,
    data: Vec<u8>,
    got: Vec<u8>,
}

impl Writer {
    /// read n bytes
    fn take(&mut self, n: usize, buf: usize) -> Result<(), String> {
        let mut left = n;
        let mut b = vec![0u8; buf];
        while left > 0 {
            let m = buf.min(left);
            match self.reader.read(&mut b[..m]) {
                Ok(0) => return Err("early end".into()),
                Ok(k) => {
                    self.got.extend_from_slice(&b[..k]);
                    left -= k;
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e.to_string()),
            }
        }
        Ok(())
    }
    fn rest(&mut self) -> Result<(), String> {
        self.reader.read_to_end(&mut self.got).map(|_| ()).map_err(|e| e.to_string())
    }
}

/// Run each history in a process of its own.
pub fn run(case: &Value) -> Value {
    let scratch = Scratch::new();
    child(&scratch.0, "cache-one", case, 60, &[])
}

pub fn child(dir: &std::path::Path, cmd: &str, case: &Value, secs: u64, env: &[(&str, &str)]) -> Value {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let id = format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
    let inp = dir.join(format!("in-{}", id));
    let out = dir.join(format!("out-{}", id));
    std::fs::write(&inp, case.to_string()).unwrap();
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args([cmd, inp.to_str().unwrap(), out.to_str().unwrap()])
        .env("XDG_CACHE_HOME", dir.join("cache"))
        .env("HOME", dir.join("home"))
        .env("VH_SCRATCH", dir)
        .env_remove("LOGREDUCE_CACHE")
        .envs(env.iter().cloned())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t = std::time::Instant::now();
    loop {
        if let Some(st) = p.try_wait().unwrap() {
            let res = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(s.trim()).ok());
            return res.unwrap_or_else(|| json!({"ended": format!("{:?}", st)}));
        }
        if t.elapsed().as_secs() > secs {
            let _ = p.kill();
            let _ = p.wait();
            return json!({"hang": true});
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
}

fn key(case: &Value, k: u64) -> (Url, Url) {
    let k = &case["keys"][k as usize - 1];
    (Url::parse(k[0].as_str().unwrap()).unwrap(), Url::parse(k[1].as_str().unwrap()).unwrap())
}
fn dir(case: &Value, d: u64) -> Url {
    Url::parse(case["dirs"][d as usize - 1].as_str().unwrap()).unwrap()
}

/// One history.
pub fn one(case: &Value) -> Value {
    let salt = case["salt"].as_u64().unwrap();
    let mut rng = Rng(salt * 31 + case["n"].as_u64().unwrap_or(0));
    let cache = Cache::new().expect("cache");
    let mut writers: HashMap<u64, Writer> = HashMap::new();
    let mut readers: HashMap<u64, flate2::read::GzDecoder<std::fs::File>> = HashMap::new();
    let total = 64u64;
    // which contents these bytes are
    let which = |data: &[u8]| -> Value {
        let ids: Vec<u64> = (1..=total).filter(|c| content(salt, *c) == data).collect();
        if ids.is_empty() {
            json!(format!("{} bytes that are no response", data.len()))
        } else {
            json!(ids)
        }
    };
    let get = |k: u64| -> Value {
        let (b, u) = key(case, k);
        match cache.remote_get(&b, &u) {
            None => json!("miss"),
            Some(Err(e)) => json!(format!("error {}", e)),
            Some(Ok(mut r)) => {
                let mut data = Vec::new();
                match r.read_to_end(&mut data) {
                    Ok(_) => which(&data),
                    Err(e) => json!(format!("error {} after {} bytes", e, data.len())),
                }
            }
        }
    };
    let dirget = |d: u64| -> Value {
        let u = dir(case, d);
        match cache.httpdir_get(&u) {
            None => json!("miss"),
            Some(Err(e)) => json!(format!("error {}", e)),
            Some(Ok(l)) => {
                let ids: Vec<u64> = (1..=total).filter(|c| listing(salt, *c, &u) == l).collect();
                if ids.is_empty() {
                    json!(format!("{} urls that are no listing", l.len()))
                } else {
                    json!(ids)
                }
            }
        }
    };
    let mut obs = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let (w, k, c) = (op["who"].as_u64().unwrap(), op["k"].as_u64().unwrap(), op["c"].as_u64().unwrap());
        let name = op["op"].as_str().unwrap();
        let buf = *rng.pick(&[1usize << 13, 1 << 16, 1009]);
        let r: Value = match name {
            "add" => {
                let (b, u) = key(case, k);
                let data = content(salt, c);
                let chunk = *rng.pick(&[1usize << 20, 4096, 7001]);
                let remote = Remote(Rc::new(RefCell::new(State { data: data.clone(), pos: 0, chunk, fail: None })));
                match cache.remote_add(&b, &u, remote.clone()) {
                    Ok(reader) => {
                        writers.insert(w, Writer { reader, remote, data, got: vec![] });
                        json!("ok")
                    }
                    Err(e) => json!(format!("error {:#}", e)),
                }
            }
            "step" | "end" | "fail" | "interrupt" | "abandon" | "full" if !writers.contains_key(&w) => json!("no writer"),
            "step" => {
                let wr = writers.get_mut(&w).unwrap();
                // an empty read is not the end
                let z = wr.reader.read(&mut []).map_err(|e| e.to_string());
                let half = wr.data.len() / 2;
                let n = if wr.got.is_empty() { half } else { wr.data.len() - half };
                json!([format!("{:?}", z), format!("{:?}", wr.take(n, buf))])
            }
            "end" => {
                let mut wr = writers.remove(&w).unwrap();
                match wr.rest() {
                    Ok(()) if wr.got == wr.data => json!("exact"),
                    Ok(()) => json!(format!("{} bytes read instead of {}", wr.got.len(), wr.data.len())),
                    Err(e) => json!(format!("error {}", e)),
                }
            }
            "fail" | "interrupt" => {
                let wr = writers.get_mut(&w).unwrap();
                let kinds = [ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof];
                wr.remote.0.borrow_mut().fail = Some(if name == "fail" { *rng.pick(&kinds) } else { ErrorKind::Interrupted });
                let mut b = vec![0; 100];
                match wr.reader.read(&mut b) {
                    Ok(n) => {
                        wr.got.extend_from_slice(&b[..n]);
                        json!("no error")
                    }
                    Err(e) => json!(format!("error {}", e)),
                }
            }
            "abandon" => {
                writers.remove(&w);
                json!("ok")
            }
            "full" => {
                let mut wr = writers.remove(&w).unwrap();
                let limit = if (c + salt) % 4 == 2 { rng.below(60_000) } else { rng.below(15) };
                let r = with_limit(Some(limit as u64), move || {
                    let r = wr.rest();
                    drop(wr);
                    r
                });
                json!(format!("{:?}", r))
            }
            "other" | "crash" => {
                let add = json!({"op": "add", "who": 1, "k": k, "c": c, "want": 0});
                let next = json!({"op": if name == "other" { "end" } else { "step" }, "who": 1, "k": k, "c": c, "want": 0});
                let die = json!({"op": "die", "who": 1, "k": k, "c": c, "want": 0});
                let mut ops = vec![add, next];
                if name == "crash" {
                    ops.push(die);
                }
                let sub = json!({"salt": salt, "n": rng.below(1000), "keys": case["keys"], "dirs": case["dirs"], "ops": ops, "sub": true});
                let dir = std::path::PathBuf::from(std::env::var("VH_SCRATCH").unwrap());
                child(&dir, "cache-one", &sub, 20, &[])
            }
            "die" => unsafe { libc::_exit(9) },
            "get" => get(k),
            "open" => {
                let (b, u) = key(case, k);
                match cache.remote_get(&b, &u) {
                    Some(Ok(mut r)) => {
                        // a part is read now
                        let n = content(salt, c).len() / 3;
                        let mut got = vec![0; n];
                        let ok = r.read_exact(&mut got).is_ok() && content(salt, c)[..n] == got[..];
                        readers.insert(w, r);
                        json!(if ok { "ok" } else { "bad start" })
                    }
                    Some(Err(e)) => json!(format!("error {}", e)),
                    None => json!("miss"),
                }
            }
            "rest" => match readers.remove(&w) {
                None => json!("no reader"),
                Some(mut r) => {
                    let want = content(salt, op["want"].as_u64().unwrap());
                    let mut data = want[..want.len() / 3].to_vec();
                    match r.read_to_end(&mut data) {
                        Ok(_) => which(&data),
                        Err(e) => json!(format!("error {} after {} bytes", e, data.len())),
                    }
                }
            },
            "drop" => {
                let (b, u) = key(case, k);
                json!(cache.remote_drop(&b, &u).map_or_else(|e| format!("error {:#}", e), |_| "ok".into()))
            }
            "headset-yes" | "headset-no" => {
                let (b, u) = key(case, k);
                let r = cache.head_set(&b, &u, name == "headset-yes");
                json!(r.map_or_else(|e| format!("error {:#}", e), |x| if x { "yes".into() } else { "no".into() }))
            }
            "diradd" => {
                let u = dir(case, k);
                json!(cache.httpdir_add(&u, &listing(salt, c, &u)).map_or_else(|e| format!("error {:#}", e), |_| "ok".into()))
            }
            "dirfull" => {
                let u = dir(case, k);
                let l = listing(salt, c, &u);
                let limit = if l.len() > 10 { rng.below(60_000) } else { rng.below(8) };
                let r = with_limit(Some(limit as u64), || cache.httpdir_add(&u, &l));
                json!(r.map_or_else(|e| format!("error {:#}", e), |_| "ok".into()))
            }
            "dirget" => dirget(k),
            "dirdrop" => json!(cache.httpdir_drop(&dir(case, k)).map_or_else(|e| format!("error {:#}", e), |_| "ok".into())),
            k => panic!("op {}", k),
        };
        obs.push(r);
    }
    if case["sub"] == true {
        return json!({ "ops": obs });
    }
    drop(writers);
    let nk = case["keys"].as_array().unwrap().len() as u64;
    let nd = case["dirs"].as_array().unwrap().len() as u64;
    let heads: Vec<Value> = (1..=nk)
        .map(|k| {
            let (b, u) = key(case, k);
            json!(match cache.head(&b, &u) {
                None => "none",
                Some(true) => "yes",
                Some(false) => "no",
            })
        })
        .collect();
    json!({
        "ops": obs,
        "keys": (1..=nk).map(get).collect::<Vec<_>>(),
        "dirs": (1..=nd).map(dirget).collect::<Vec<_>>(),
        "heads": heads,
    })
}
