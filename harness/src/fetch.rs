//! Reading urls through the cache, over several processes.
use crate::cache::content;
use crate::tree::Scratch;
use crate::util::*;
use crate::web::*;
use logreduce_model::{Content, Source};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use url::Url;

struct Plan {
    how: String,
    next: u64,
    count: u64,
}

fn body(salt: u64, n: u64) -> Vec<u8> {
    let c = content(salt, n);
    if c.is_empty() { format!("short {}", n).into_bytes() } else { c }
}

pub fn run(case: &Value) -> Value {
    let scratch = Scratch::new();
    let salt = case["salt"].as_u64().unwrap();
    let plan = Arc::new(Mutex::new(Plan { how: "ok".into(), next: 1, count: 0 }));
    let p2 = plan.clone();
    let server = Server::new(move |r: &Request| {
        let mut p = p2.lock().unwrap();
        let parts: Vec<&str> = r.path.split('/').collect();
        if parts[1] == "ctl" {
            if parts.len() == 4 {
                p.how = parts[2].into();
                p.next = parts[3].parse().unwrap();
            }
            return Answer::new(200, p.count.to_string());
        }
        p.count += 1;
        let data = if r.path.contains("/dir") {
            format!("<html><body><a href=\"file-{}\">x</a><a href=\"file.log\">x</a></body></html>", p.next).into_bytes()
        } else if p.how == "cut" {
            body(salt, p.next)
        } else {
            content(salt, p.next)
        };
        match p.how.as_str() {
            "ok" => Answer::new(200, data),
            h @ ("cut" | "drop") => Answer { how: h.into(), ..Answer::new(200, data) },
            code => Answer::new(code.parse().unwrap(), data),
        }
    });
    let mut obs = Vec::new();
    let ops = case["ops"].as_array().unwrap();
    let segs: Vec<Vec<Value>> = ops.split(|o| o["op"] == "restart").map(|s| s.to_vec()).collect();
    let n = segs.len();
    for (i, seg) in segs.into_iter().enumerate() {
        let sub = json!({"salt": salt, "ops": seg, "port": server.port, "urls": case["urls"], "dirs": case["dirs"]});
        let mut env = vec![];
        if case["use"] == true {
            env.push(("LOGREDUCE_CACHE", "1"));
        }
        let r = crate::cache::child(&scratch.0, "fetch-one", &sub, 60, &env);
        match r["ops"].as_array() {
            Some(xs) => obs.extend(xs.iter().cloned()),
            None => return r,
        }
        if i + 1 < n {
            obs.push(json!("restart"));
        }
    }
    json!({ "ops": obs })
}

fn ctl(port: u64, path: &str) -> u64 {
    let mut s = std::net::TcpStream::connect(("127.0.0.1", port as u16)).expect("ctl");
    s.write_all(format!("GET {} HTTP/1.1\r\n\r\n", path).as_bytes()).unwrap();
    let mut r = String::new();
    s.read_to_string(&mut r).unwrap();
    r.rsplit("\r\n").next().unwrap().parse().expect("count")
}

pub fn one(case: &Value) -> Value {
    let salt = case["salt"].as_u64().unwrap();
    let port = case["port"].as_u64().unwrap();
    let mut obs = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let how = op["how"].as_str().unwrap();
        ctl(port, &format!("/ctl/{}/{}", how, op["next"]));
        let u = op["u"].as_u64().unwrap() as usize - 1;
        let full = op["full"] == true;
        let what: Value = match op["op"].as_str().unwrap() {
            "fetch" => {
                let d = &case["urls"][u];
                let url = Url::parse(&format!("http://127.0.0.1:{}{}", port, d[0].as_str().unwrap())).unwrap();
                let prefix = match d[1].as_u64().unwrap() {
                    0 => 0,
                    n => format!("http://127.0.0.1:{}", port).len() + n as usize,
                };
                match catch(|| Source::url_open(prefix, &url)) {
                    Err(e) => json!({ "panic": e }),
                    Ok(Err(e)) => json!({"error": format!("{:#}", e), "data": 0}),
                    Ok(Ok(mut r)) => {
                        let mut data = Vec::new();
                        let want = content(salt, op["res"].as_u64().unwrap());
                        let res = if full {
                            r.read_to_end(&mut data).map(|_| ())
                        } else {
                            // a part only, strictly less than everything
                            data = vec![0; want.len() / 2];
                            r.read_exact(&mut data)
                        };
                        let ids: Vec<u64> = (1..64)
                            .filter(|c| {
                                let x = content(salt, *c);
                                if full { x == data } else { x.starts_with(&data) }
                            })
                            .collect();
                        json!({"error": res.err().map(|e| e.to_string()), "data": data.len(), "ids": ids})
                    }
                }
            }
            _ => {
                let url = Url::parse(&format!("http://127.0.0.1:{}{}", port, case["dirs"][u].as_str().unwrap())).unwrap();
                match catch(|| Content::Directory(Source::Remote(0, url.clone())).get_sources()) {
                    Err(e) => json!({ "panic": e }),
                    Ok(Err(e)) => json!({"error": format!("{:#}", e)}),
                    Ok(Ok(xs)) => {
                        let names: Vec<String> = xs
                            .iter()
                            .map(|s| match s {
                                Source::Remote(n, u) => u.as_str().get(*n..).unwrap_or("?").to_string(),
                                _ => "local".to_string(),
                            })
                            .collect();
                        json!({"error": null, "files": names})
                    }
                }
            }
        };
        obs.push(json!({"got": what, "req": ctl(port, "/ctl")}));
    }
    json!({ "ops": obs })
}
