//! A loopback HTTP server whose answers can be held back, and the crawler.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use url::Url;

pub struct Request {
    pub method: String,
    pub path: String,
}

/// What to answer.
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// ok, drop: close without an answer, cut: close in the middle of the body
    pub how: String,
}
impl Answer {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Answer {
        Answer { status, headers: vec![], body: body.into(), how: "ok".into() }
    }
}

pub struct Server {
    pub port: u16,
    stop: Arc<AtomicBool>,
}

impl Server {
    pub fn new(handler: impl Fn(&Request) -> Answer + Send + Sync + 'static) -> Server {
        let listener = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = listener.local_addr().unwrap().port();
        let stop = Arc::new(AtomicBool::new(false));
        let (stop2, handler) = (stop.clone(), Arc::new(handler));
        std::thread::spawn(move || {
            for s in listener.incoming() {
                if stop2.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(s) = s {
                    let h = handler.clone();
                    std::thread::spawn(move || serve(s, &*h));
                }
            }
        });
        Server { port, stop }
    }
    pub fn url(&self, path: &str) -> Url {
        Url::parse(&format!("http://127.0.0.1:{}{}", self.port, path)).expect("url")
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn serve(mut s: TcpStream, handler: &(dyn Fn(&Request) -> Answer)) {
    let _ = s.set_read_timeout(Some(Duration::from_secs(30)));
    let mut head = Vec::new();
    let mut buf = [0u8; 2048];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut buf) {
            Ok(0) | Err(_) => return,
            Ok(n) => head.extend_from_slice(&buf[..n]),
        }
    }
    let head = String::from_utf8_lossy(&head).to_string();
    let mut first = head.lines().next().unwrap_or("").split(' ');
    let (method, path) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
    let a = handler(&Request { method: method.clone(), path });
    if a.how == "drop" {
        return;
    }
    let mut out = format!("HTTP/1.1 {} X\r\nConnection: close\r\nContent-Length: {}\r\n", a.status, a.body.len()).into_bytes();
    if !a.headers.iter().any(|(k, _)| k == "Content-Type") {
        out.extend_from_slice(b"Content-Type: text/html; charset=utf-8\r\n");
    }
    for (k, v) in &a.headers {
        out.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
    }
    out.extend_from_slice(b"\r\n");
    if method != "HEAD" {
        let n = if a.how == "cut" { a.body.len() / 2 } else { a.body.len() };
        out.extend_from_slice(&a.body[..n]);
    }
    let _ = s.write_all(&out);
    let _ = s.flush();
    let _ = s.shutdown(std::net::Shutdown::Write);
    // wait for the peer, so that the end of the answer is not lost
    let _ = s.read(&mut buf);
}

#[derive(Default)]
struct Gate {
    flying: Vec<(u64, String)>,
    next: u64,
    released: Vec<u64>,
    requests: Vec<String>,
    open: bool,
}

fn page(p: &Value) -> String {
    let mut s = String::from("<html><head><title>Index of</title></head><body><table>\n");
    for h in p["hrefs"].as_array().unwrap() {
        let h = h.as_str().unwrap();
        s.push_str(&format!("<tr><td><img src=\"/icons/a.gif\" alt=\"[X]\"></td><td><a href=\"{}\">{}</a></td><td align=\"right\">817 </td></tr>\n", h, h));
    }
    s.push_str("</table></body></html>\n");
    s
}

/// Crawl a site with a given order of the answers.
pub fn crawl(case: &Value) -> Value {
    let res: Vec<Value> = ["walk", "list"].iter().map(|form| crawl_once(case, form)).collect();
    json!({"walk": res[0], "list": res[1]})
}

fn crawl_once(case: &Value, form: &str) -> Value {
    let pages: HashMap<String, Value> =
        case["pages"].as_array().unwrap().iter().map(|p| (p["path"].as_str().unwrap().to_string(), p.clone())).collect();
    let gate = Arc::new((Mutex::new(Gate::default()), Condvar::new()));
    let g = gate.clone();
    let server = Server::new(move |r: &Request| {
        let (m, c) = &*g;
        {
            let mut st = m.lock().unwrap();
            let id = st.next;
            st.next += 1;
            st.requests.push(r.path.clone());
            st.flying.push((id, r.path.clone()));
            c.notify_all();
            while !st.open && !st.released.contains(&id) {
                st = c.wait(st).unwrap();
            }
            st.flying.retain(|x| x.0 != id);
            c.notify_all();
        }
        match pages.get(&r.path) {
            None => Answer::new(404, "not found"),
            Some(p) => {
                let body = page(p);
                let redir = p["redir"].as_u64().unwrap() as u16;
                match p["how"].as_str().unwrap() {
                    "ok" if redir > 0 => {
                        let to = p["hrefs"][0].as_str().unwrap().to_string();
                        Answer { headers: vec![("Location".into(), to)], ..Answer::new(redir, "moved") }
                    }
                    "ok" => Answer::new(200, body),
                    h @ ("drop" | "cut") => Answer { how: h.into(), ..Answer::new(200, body) },
                    code => Answer::new(code.parse().unwrap(), body),
                }
            }
        }
    });
    let url = server.url(case["root"].as_str().unwrap());
    let form = form.to_string();
    let (tx, rx) = std::sync::mpsc::channel();
    let u = url.clone();
    let f2 = form.clone();
    std::thread::spawn(move || {
        let r = catch(|| {
            let show = |u: &Url| u.path().to_string();
            if f2 == "walk" {
                let mut files = Vec::new();
                let mut errors = Vec::new();
                for x in httpdir::Crawler::new().walk(u) {
                    match x {
                        Ok(u) => files.push(show(&u)),
                        Err(e) => errors.push(e.to_string()),
                    }
                    if files.len() + errors.len() > 20_000 {
                        return json!({"endless": true});
                    }
                }
                json!({"files": files, "errors": errors})
            } else {
                match httpdir::list(u) {
                    Ok(us) => json!({"files": us.iter().map(show).collect::<Vec<_>>(), "errors": []}),
                    Err(e) => json!({"files": [], "errors": [e.to_string()]}),
                }
            }
        });
        let _ = tx.send(r);
    });
    let (m, c) = &*gate;
    let prio: Vec<String> = case["prio"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let rank = |p: &str| prio.iter().position(|x| x == p).unwrap_or(usize::MAX);
    let batch = case["batch"].as_u64().unwrap() as usize;
    let mut late = 0;
    let mut expect = 1usize;
    let fly: Vec<usize> = case["fly"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let t0 = Instant::now();
    for step in 0..=fly.len() {
        // wait for the requests of this step
        let mut st = m.lock().unwrap();
        let t = Instant::now();
        let left = |st: &Gate| st.flying.iter().filter(|x| !st.released.contains(&x.0)).count();
        while left(&st) < expect && late < 3 {
            let (s, to) = c.wait_timeout(st, Duration::from_millis(2000)).unwrap();
            st = s;
            if to.timed_out() || t.elapsed() > Duration::from_millis(2000) {
                late += 1;
                break;
            }
        }
        if step == fly.len() || late >= 3 {
            break;
        }
        let mut ids: Vec<(usize, u64)> =
            st.flying.iter().filter(|x| !st.released.contains(&x.0)).map(|x| (rank(&x.1), x.0)).collect();
        ids.sort();
        let rel: Vec<u64> = ids.iter().take(batch).map(|x| x.1).collect();
        st.released.extend(rel);
        c.notify_all();
        expect = fly[step];
    }
    m.lock().unwrap().open = true;
    c.notify_all();
    let r = rx.recv_timeout(Duration::from_secs(20));
    let st = m.lock().unwrap();
    let mut res = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({ "panic": e }),
        Err(_) => json!({"hang": format!("{} requests in {:?}", st.requests.len(), t0.elapsed())}),
    };
    res["requests"] = json!(st.requests);
    res["late"] = json!(late);
    res
}
