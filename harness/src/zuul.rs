//! Zuul builds, with a loopback api.
use crate::tree::Scratch;
use crate::util::*;
use crate::web::*;
use logreduce_model::Content;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use url::Url;

fn subst(v: &Value, port: u16) -> Value {
    let s = v.to_string().replace("http://@", &format!("http://127.0.0.1:{}", port));
    serde_json::from_str(&s).unwrap()
}

fn back(s: &str, port: u16) -> String {
    s.replace(&format!("http://127.0.0.1:{}", port), "http://@")
}

fn params(query: &str) -> Vec<(String, String)> {
    url::form_urlencoded::parse(query.as_bytes()).map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

struct Api {
    round: Value,
    requests: Vec<String>,
}

fn answer(a: &Api, port: u16, r: &Request) -> Answer {
    let round = subst(&a.round, port);
    let (path, query) = r.path.split_once('?').unwrap_or((r.path.as_str(), ""));
    let reply = |body: String, how: &Value| match how.as_str().unwrap_or("ok") {
        "ok" => Answer::new(200, body),
        h @ ("drop" | "cut") => Answer { how: h.into(), ..Answer::new(200, body) },
        code => Answer::new(code.parse().unwrap(), body),
    };
    let text = |v: &Value| v.as_str().map(|s| s.replace("http://@", &format!("http://127.0.0.1:{}", port)));
    if r.method == "HEAD" {
        return match round["heads"][path].as_str() {
            Some("yes") => Answer::new(200, ""),
            Some("no") => Answer::new(404, ""),
            Some("error") => Answer { how: "drop".into(), ..Answer::new(200, "") },
            // the status of logs that are not available
            Some(code) => Answer::new(code.parse().unwrap(), ""),
            None => Answer::new(500, ""),
        };
    }
    if round["build_path"].as_str() == Some(path) || (round["any"] == true && path.contains("/api/")) {
        return reply(text(&a.round["build_text"]).unwrap_or_else(|| round["build"].to_string()), &round["build_how"]);
    }
    if round["builds_path"].as_str() == Some(path) {
        if let Some(t) = text(&a.round["list_text"]) {
            return reply(t, &round["list_how"]);
        }
        // the api selects the builds, 50 of them by default
        let ps = params(query);
        let get = |k: &str| ps.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let limit: usize = get("limit").and_then(|x| x.parse().ok()).unwrap_or(50);
        let skip: usize = get("skip").and_then(|x| x.parse().ok()).unwrap_or(0);
        let keep = |b: &Value| {
            ["job_name", "result", "project", "branch", "pipeline", "uuid"]
                .iter()
                .all(|k| ps.iter().filter(|x| x.0 == *k).count() == 0 || ps.iter().any(|x| x.0 == *k && Some(x.1.as_str()) == b[*k].as_str()))
        };
        let list: Vec<Value> = round["builds"].as_array().unwrap().iter().filter(|b| keep(b)).skip(skip).take(limit).cloned().collect();
        return reply(Value::Array(list).to_string(), &round["list_how"]);
    }
    Answer::new(404, "not found")
}

/// A list of rounds: the build page is resolved, then its baselines discovered.
pub fn run(case: &Value) -> Value {
    if case["use"] == true || case["own"] == true {
        let scratch = Scratch::new();
        let env: Vec<(&str, &str)> = if case["use"] == true { vec![("LOGREDUCE_CACHE", "1")] } else { vec![] };
        return crate::cache::child(&scratch.0, "zuul-one", case, 60, &env);
    }
    one(case)
}

pub fn one(case: &Value) -> Value {
    let api = Arc::new(Mutex::new(Api { round: Value::Null, requests: vec![] }));
    let a2 = api.clone();
    let port = Arc::new(Mutex::new(0u16));
    let p2 = port.clone();
    let server = Server::new(move |r: &Request| {
        let mut a = a2.lock().unwrap();
        a.requests.push(format!("{} {}", r.method, r.path));
        answer(&a, *p2.lock().unwrap(), r)
    });
    *port.lock().unwrap() = server.port;
    let mut res = Vec::new();
    for round in case["rounds"].as_array().unwrap() {
        {
            let mut a = api.lock().unwrap();
            a.round = round.clone();
            a.requests.clear();
        }
        let url = Url::parse(&back(round["page"].as_str().unwrap(), 0).replace("http://@", &format!("http://127.0.0.1:{}", server.port))).unwrap();
        let show = |c: &Content| serde_json::from_str::<Value>(&back(&serde_json::to_string(c).unwrap(), server.port)).unwrap();
        let content = catch(|| Content::from_url(url.clone()));
        let mut o = json!({});
        match &content {
            Err(e) => o["panic"] = json!(e),
            Ok(Err(e)) => o["error"] = json!(format!("{:#}", e)),
            Ok(Ok(c)) => o["content"] = show(c),
        }
        o["requests"] = json!(api.lock().unwrap().requests.clone());
        if round["discover"] == true {
            if let Ok(Ok(c)) = &content {
                match catch(|| c.discover_baselines()) {
                    Err(e) => o["panic"] = json!(e),
                    Ok(Err(e)) => o["found_error"] = json!(format!("{:#}", e)),
                    Ok(Ok(bs)) => o["found"] = json!(bs.iter().map(show).collect::<Vec<_>>()),
                }
            }
            o["all_requests"] = json!(api.lock().unwrap().requests.len());
        }
        res.push(o);
    }
    json!({ "rounds": res })
}

/// The replies, decoded.
pub fn decode(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap();
    let rd = || ChoppyReader::new(text.as_bytes(), Sched::Fixed(7), case["fail"] == true);
    let r = catch(|| {
        if case["what"] == "list" {
            zuul_build::decode_builds(rd()).map(|x| serde_json::to_value(x).unwrap())
        } else {
            zuul_build::decode_build(rd()).map(|x| serde_json::to_value(vec![x]).unwrap())
        }
    });
    match r {
        Err(e) => json!({ "panic": e }),
        Ok(Err(e)) => json!({"error": e.to_string()}),
        Ok(Ok(v)) => json!({ "ok": v }),
    }
}
