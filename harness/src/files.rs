//! Source discovery and names.
use crate::pipeline::*;
use crate::tree::*;
use crate::util::*;
use logreduce_model::*;
use serde_json::{json, Value};

pub fn name(case: &Value) -> Value {
    match catch(|| IndexName::from_path(case["path"].as_str().unwrap()).0) {
        Ok(n) => json!({ "name": n }),
        Err(e) => json!({ "panic": e }),
    }
}

/// The content of an input, its sources and their groups.
pub fn discover(case: &Value) -> Value {
    let scratch = Scratch::new();
    let root = scratch.0.as_path();
    make(root, &case["files"]);
    // from the scratch directory
    let relative = case["relative"] == true;
    if relative {
        std::env::set_current_dir(root).unwrap();
    }
    let input = match case["input"].as_str() {
        Some(i) if relative => i.to_string(),
        Some(i) if i.starts_with("http:") || i.starts_with("https:") || i.is_empty() => i.to_string(),
        Some(i) => root.join(i).to_str().unwrap().to_string(),
        None => root.join("root").to_str().unwrap().to_string(),
    };
    let r = unprivileged(|| {
        catch(|| {
            let content = match Content::from_input(Input::from_string(input.clone())) {
                Ok(c) => c,
                Err(e) => return json!({ "input_error": format!("{:#}", e) }),
            };
            let kind = match &content {
                Content::File(Source::Local(..)) => "file",
                Content::File(_) => "file-url",
                Content::Directory(Source::Local(..)) => "dir",
                Content::Directory(_) => "dir-url",
                Content::Zuul(_) => "zuul",
            };
            if kind.ends_with("url") {
                return json!({ "kind": kind });
            }
            let iter: Vec<Value> = content
                .get_sources_iter()
                .map(|s| match s {
                    Ok(s) => json!(rel(root, s.as_str())),
                    Err(_) => Value::Null,
                })
                .collect();
            match content.get_sources() {
                Err(e) => json!({"kind": kind, "error": format!("{:#}", e), "iter": iter}),
                Ok(s) => {
                    let groups = Content::group_sources(&[content.clone()]).map(|g| {
                        g.iter()
                            .map(|(n, s)| json!({"name": n.as_str(), "paths": s.iter().map(|s| rel(root, s.as_str())).collect::<Vec<_>>(),
                                                "names": s.iter().map(|s| IndexName::from_source(s).0).collect::<Vec<_>>()}))
                            .collect::<Vec<_>>()
                    });
                    json!({"kind": kind, "iter": iter, "sources": s.iter().map(|s| rel(root, s.as_str())).collect::<Vec<_>>(),
                           "relative": s.iter().map(|s| s.get_relative().to_string()).collect::<Vec<_>>(),
                           "groups": groups.unwrap_or_default()})
                }
            }
        })
    });
    if relative {
        std::env::set_current_dir("/").unwrap();
    }
    r.unwrap_or_else(|e| json!({ "panic": e }))
}
