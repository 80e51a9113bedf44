//! Train, report, save and load.
use crate::tree::*;
use crate::util::*;
use logreduce_model::*;
use serde_json::{json, Value};
use std::path::Path;

pub fn rel(root: &Path, s: &str) -> String {
    s.strip_prefix(root.to_str().unwrap()).unwrap_or(s).trim_start_matches('/').to_string()
}

pub fn content_json(root: &Path, c: &Content) -> Value {
    match c {
        Content::File(s) => json!({ "file": rel(root, s.as_str()) }),
        Content::Directory(s) => json!({ "dir": rel(root, s.as_str()) }),
        Content::Zuul(b) => json!({ "zuul": b.uuid.to_string() }),
    }
}

pub fn report_json(root: &Path, r: &Report) -> Value {
    let ctx = |a: &AnomalyContext| json!({"line": a.anomaly.line, "no": a.anomaly.pos, "dist": a.anomaly.distance as f64 * 1000.0,
        "before": a.before, "after": a.after});
    json!({
        "target": content_json(root, &r.target),
        "baselines": r.baselines.iter().map(|c| content_json(root, c)).collect::<Vec<_>>(),
        "logs": r.log_reports.iter().map(|l| json!({"path": rel(root, l.source.as_str()), "rel": l.source.get_relative(), "index": l.index_name.as_str(), "count": l.line_count,
            "bytes": l.byte_count, "out": l.anomalies.iter().map(ctx).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "indexes": r.index_reports.iter().map(|(n, i)| json!({"name": n.as_str(),
            "paths": i.sources.iter().map(|s| rel(root, s.as_str())).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "index_errors": r.index_errors.iter().map(|g| g.iter().map(|s| rel(root, s.as_str())).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "read_errors": r.read_errors.iter().map(|(s, e)| json!([rel(root, s.as_str()), e])).collect::<Vec<_>>(),
        "lines": r.total_line_count, "anomalies": r.total_anomaly_count,
        "run_ns": r.run_time.as_nanos() as u64,
        "created": r.created_at.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos().to_string()).unwrap_or_default(),
    })
}

pub fn contents(root: &Path, names: &Value) -> anyhow::Result<Vec<Content>> {
    names
        .as_array()
        .unwrap()
        .iter()
        .map(|n| Content::from_input(Input::from_string(root.join(n.as_str().unwrap()).to_str().unwrap().to_string())))
        .collect()
}

/// files: the tree; base: the baselines (names in the tree); target: the target.
pub fn run(case: &Value) -> Value {
    let scratch = Scratch::new();
    let root = scratch.0.as_path();
    make(root, &case["files"]);
    let save = case["save"].as_bool().unwrap_or(false);
    let res = catch(|| -> anyhow::Result<Value> {
        let base = contents(root, &case["base"])?;
        let model = Model::train(OutputMode::Quiet, base, hashing_index::new)?;
        let target = contents(root, &json!([case["target"]]))?.remove(0);
        let mut extra = json!({});
        let report = if save {
            // the original, the loaded model, the loaded report
            let (mp, rp, rp2) = (root.join("saved.model"), root.join("saved.report"), root.join("saved.report2"));
            model.save(&mp)?;
            let r1 = unprivileged(|| model.report(OutputMode::Quiet, target.clone()))?;
            r1.save(&rp)?;
            let loaded = Model::load(&mp)?;
            let r2 = unprivileged(|| loaded.report(OutputMode::Quiet, target.clone()))?;
            let r3 = Report::load(&rp)?;
            r3.save(&rp2)?;
            loaded.save(&root.join("saved.model2"))?;
            let again = Model::load(&root.join("saved.model2"))?;
            let r4 = unprivileged(|| again.report(OutputMode::Quiet, target.clone()))?;
            extra = json!({"loaded_model": report_json(root, &r2), "loaded_report": report_json(root, &r3), "again": report_json(root, &r4),
                           "loaded_twice": report_json(root, &Report::load(&rp2)?)});
            r1
        } else {
            unprivileged(|| model.report(OutputMode::Quiet, target.clone()))?
        };
        let order: Vec<String> = target.get_sources()?.iter().map(|s| rel(root, s.as_str())).collect();
        Ok(json!({"report": report_json(root, &report), "order": order, "extra": extra}))
    });
    match res {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({ "error": format!("{:#}", e) }),
        Err(e) => json!({ "panic": e }),
    }
}

/// Only create the tree, for the command line.
pub fn tree(case: &Value) -> Value {
    make(Path::new(case["root"].as_str().unwrap()), &case["files"]);
    json!({})
}
