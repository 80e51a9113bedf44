//! Local files, compressed or not.
use crate::tree::Scratch;
use crate::util::*;
use logreduce_iterator::BytesLines;
use logreduce_model::Source;
use serde_json::{json, Value};

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// name: the file; each of cuts: the number of bytes to keep; each of flips: a position and a mask
pub fn run(case: &Value) -> Value {
    let scratch = Scratch::new();
    let path = scratch.0.join(case["name"].as_str().unwrap());
    let all = unhex(case["hex"].as_str().unwrap());
    let mut out = Vec::new();
    for d in case["damage"].as_array().unwrap() {
        let mut bytes = all.clone();
        if let Some(n) = d["cut"].as_u64() {
            bytes.truncate(n as usize);
        }
        if let Some(p) = d["flip"].as_u64() {
            bytes[p as usize] ^= d["mask"].as_u64().unwrap() as u8;
        }
        if let Some(x) = d["add"].as_str() {
            bytes.extend_from_slice(&unhex(x));
        }
        std::fs::write(&path, &bytes).unwrap();
        let r = catch(|| -> Value {
            let source = Source::from_pathbuf(path.clone());
            let reader = match Source::file_open(&path) {
                Ok(r) => r,
                Err(e) => return json!({"lines": [], "error": format!("{:#}", e)}),
            };
            let mut lines = Vec::new();
            for l in BytesLines::new(reader, source.is_json()) {
                match l {
                    Ok((b, nr)) => lines.push(json!([nr, String::from_utf8_lossy(&b)])),
                    Err(e) => return json!({"lines": lines, "error": e.to_string()}),
                }
            }
            json!({ "lines": lines })
        });
        out.push(r.unwrap_or_else(|e| json!({ "panic": e })));
    }
    json!({ "out": out })
}
