//! Saving and loading.
use crate::pipeline::*;
use crate::tree::*;
use crate::util::*;
use logreduce_model::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

/// Limit the size of the files: the writes beyond it fail.
pub fn with_limit<T>(limit: Option<u64>, f: impl FnOnce() -> T) -> T {
    let set = |n: u64| unsafe {
        let l = libc::rlimit { rlim_cur: n as _, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    };
    if let Some(n) = limit {
        unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
        set(n);
    }
    let r = catch(f);
    if limit.is_some() {
        set(libc::RLIM_INFINITY as u64);
    }
    r.unwrap_or_else(|e| panic!("{}", e))
}

struct World {
    root: PathBuf,
    models: Vec<Model>,
    reports: Vec<Report>,
    target: Content,
}

fn world(root: &Path, case: &Value) -> anyhow::Result<World> {
    make(root, &case["files"]);
    let target = contents(root, &json!(["target"]))?.remove(0);
    let mut models = Vec::new();
    let mut reports = Vec::new();
    for b in case["bases"].as_array().unwrap() {
        let m = Model::train(OutputMode::Quiet, contents(root, &json!([b]))?, hashing_index::new)?;
        reports.push(m.report(OutputMode::Quiet, target.clone())?);
        models.push(m);
    }
    Ok(World { root: root.to_path_buf(), models, reports, target })
}

/// Which object was loaded: its number, "other", or "error".
fn load(w: &World, kind: &str, path: &Path, dump: &dyn Fn(&Report) -> Value) -> Value {
    let res = catch(|| -> anyhow::Result<Value> {
        let (r, whole) = match kind {
            "model" => (Model::load(path)?.report(OutputMode::Quiet, w.target.clone())?, false),
            _ => (Report::load(path)?, true),
        };
        let got = strip(&dump(&r), whole);
        for (i, x) in w.reports.iter().enumerate() {
            if strip(&dump(x), whole) == got {
                return Ok(json!(i));
            }
        }
        Ok(json!("other"))
    });
    match res {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!(format!("error: {:#}", e)),
        Err(e) => json!(format!("panic: {}", e)),
    }
}

/// The times of a new report are its own.
fn strip(v: &Value, whole: bool) -> Value {
    let mut v = v.clone();
    if !whole {
        for k in ["created_at", "run_time"] {
            v.as_object_mut().unwrap().remove(k);
        }
        for l in v["log_reports"].as_array_mut().unwrap() {
            l.as_object_mut().unwrap().remove("test_time");
        }
    }
    for k in ["log_reports", "index_errors", "read_errors"] {
        let xs = v[k].as_array_mut().unwrap();
        xs.sort_by_key(|x| x.to_string());
    }
    v
}

fn raw(r: &Report) -> Value {
    serde_json::to_value(r).unwrap()
}

/// A history of operations on a file, or a list of truncation points.
pub fn run(case: &Value) -> Value {
    let scratch = Scratch::new();
    let w = match catch(|| world(&scratch.0, case)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return json!({ "error": format!("{:#}", e) }),
        Err(e) => return json!({ "panic": e }),
    };
    let kind = case["kind"].as_str().unwrap();
    let save = |o: usize, path: &Path, limit: Option<u64>| -> Value {
        let r = with_limit(limit, || match kind {
            "model" => w.models[o].save(path),
            _ => w.reports[o].save(path),
        });
        match r {
            Ok(()) => json!("ok"),
            Err(e) => json!(format!("error: {:#}", e)),
        }
    };
    // the size of each object
    let sizes: Vec<u64> = (0..w.models.len())
        .map(|o| {
            let p = w.root.join("size");
            save(o, &p, None);
            std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0)
        })
        .collect();
    let path = w.root.join("the-file");
    let mut all = Vec::new();
    for hist in case["hists"].as_array().unwrap_or(&vec![]) {
        let _ = std::fs::remove_file(&path);
        let mut res = Vec::new();
        for op in hist.as_array().unwrap() {
            let o = op["o"].as_u64().unwrap_or(0) as usize;
            // a position given as a number of bytes, from the end when negative
            let at = op["bytes"].as_i64().map(|b| if b >= 0 { b as u64 } else { sizes[o].saturating_sub((-b) as u64) });
            let r = match op["op"].as_str().unwrap() {
                "save" => save(o, &path, at.map(|a| a.min(sizes[o].saturating_sub(1)))),
                "truncate" => {
                    let f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
                    let n = f.metadata().unwrap().len();
                    // the size depends on the run (times, order of the maps): at least one byte is removed
                    f.set_len(at.unwrap().min(n.saturating_sub(1))).unwrap();
                    json!("ok")
                }
                "junk" => {
                    let data: Vec<u8> = match op["junk"].as_u64().unwrap() {
                        0 => vec![],
                        1 => b"just some text\n".to_vec(),
                        2 => bytes(&json!({"lines": ["a compressed text", "that is not a model"], "gz": true})),
                        3 => {
                            // the other kind of file
                            let p = w.root.join("foreign");
                            if kind == "model" { w.reports[0].save(&p).unwrap() } else { w.models[0].save(&p).unwrap() };
                            std::fs::read(&p).unwrap()
                        }
                        4 => vec![0; 4096],
                        7 => {
                            // a compressed file of zeros
                            use std::io::Write;
                            let mut enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
                            enc.write_all(&[0; 4096]).unwrap();
                            enc.finish().unwrap()
                        }
                        8 => {
                            // the first object followed by something else, compressed together
                            use std::io::{Read, Write};
                            save(0, &path, None);
                            let mut data = Vec::new();
                            flate2::read::GzDecoder::new(std::fs::File::open(&path).unwrap()).read_to_end(&mut data).unwrap();
                            data.push(0);
                            let mut enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
                            enc.write_all(&data).unwrap();
                            enc.finish().unwrap()
                        }
                        6 => {
                            // a corrupt copy of the first object
                            save(0, &path, None);
                            let mut data = std::fs::read(&path).unwrap();
                            let at = (at.unwrap() as usize).min(data.len() - 1);
                            data[at] ^= 0x10;
                            data
                        }
                        _ => bytes(&json!({"lines": [], "gz": true})),
                    };
                    std::fs::write(&path, data).unwrap();
                    json!("ok")
                }
                "remove" => {
                    let _ = std::fs::remove_file(&path);
                    json!("ok")
                }
                "load" => load(&w, kind, &path, &raw),
                k => panic!("op {}", k),
            };
            res.push(r);
        }
        all.push(json!(res));
    }
    json!({"hists": all, "sizes": sizes})
}

/// Two processes: the first one saves, the second one loads.
pub fn phase(case: &Value) -> Value {
    let dir = Path::new(case["dir"].as_str().unwrap());
    let res = catch(|| -> anyhow::Result<Value> {
        let target = || contents(dir, &json!(["target"])).map(|mut x| x.remove(0));
        if case["phase"] == "save" {
            make(dir, &case["files"]);
            let m = Model::train(OutputMode::Quiet, contents(dir, &case["base"])?, hashing_index::new)?;
            let r = m.report(OutputMode::Quiet, target()?)?;
            m.save(&dir.join("the-model"))?;
            r.save(&dir.join("the-report"))?;
            Ok(json!({"report": strip(&raw(&r), false), "whole": strip(&raw(&r), true)}))
        } else {
            let m = Model::load(&dir.join("the-model"))?;
            let r = m.report(OutputMode::Quiet, target()?)?;
            let w = Report::load(&dir.join("the-report"))?;
            Ok(json!({"report": strip(&raw(&r), false), "whole": strip(&raw(&w), true)}))
        }
    });
    match res {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({ "error": format!("{:#}", e) }),
        Err(e) => json!({ "panic": e }),
    }
}
