//! The page of a report.
use logreduce_model::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::time::Duration;

fn source(v: &Value) -> Source {
    let (n, p) = (v["base"].as_u64().unwrap() as usize, v["path"].as_str().unwrap());
    match v["remote"].as_bool().unwrap_or(false) {
        true => Source::Remote(n, url::Url::parse(p).unwrap()),
        false => Source::Local(n, PathBuf::from(p)),
    }
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}
fn distance(v: &Value) -> f32 {
    match v.as_str() {
        Some("nan") => f32::NAN,
        Some("inf") => f32::INFINITY,
        Some("-inf") => f32::NEG_INFINITY,
        _ => v.as_f64().unwrap() as f32,
    }
}

pub fn report(c: &Value) -> Report {
    let mut index_reports = std::collections::HashMap::new();
    let log_reports = c["logs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|l| {
            let index_name = IndexName(l["index"].as_str().unwrap().to_string());
            if let Some(s) = l["samples"].as_array() {
                index_reports.insert(
                    index_name.clone(),
                    IndexReport { train_time: Duration::from_secs(1), sources: s.iter().map(source).collect() },
                );
            }
            LogReport {
                test_time: Duration::from_millis(3),
                line_count: 7,
                byte_count: 42,
                anomalies: l["as"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|a| AnomalyContext {
                        before: strings(&a["before"]),
                        anomaly: Anomaly {
                            distance: distance(&a["dist"]),
                            pos: a["no"].as_u64().unwrap() as usize,
                            line: a["line"].as_str().unwrap().to_string(),
                        },
                        after: strings(&a["after"]),
                    })
                    .collect(),
                source: source(&l["source"]),
                index_name,
            }
        })
        .collect();
    Report {
        created_at: std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(c["created"].as_u64().unwrap_or(0)),
        run_time: Duration::from_millis(c["run_ms"].as_u64().unwrap_or(0)),
        target: Content::File(source(&c["target"])),
        baselines: c["baselines"].as_array().unwrap().iter().map(|b| Content::Directory(source(b))).collect(),
        log_reports,
        index_reports,
        index_errors: vec![],
        read_errors: vec![],
        total_line_count: c["lines"].as_u64().unwrap() as usize,
        total_anomaly_count: c["anomalies"].as_u64().unwrap() as usize,
    }
}

pub fn run(c: &Value) -> Value {
    match logreduce_report::render(&report(c)) {
        Ok(s) => json!({ "html": s }),
        Err(e) => json!({ "error": e.to_string() }),
    }
}
