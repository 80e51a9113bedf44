//! The tokenizer on lines: each line in order, then in the reverse order on another thread.
use serde_json::{json, Value};

pub fn run(c: &Value) -> Value {
    let lines: Vec<String> = c["lines"].as_array().unwrap().iter().map(|l| l.as_str().unwrap().to_string()).collect();
    let one = |l: &String| match crate::util::catch(|| logreduce_tokenizer::process(l)) {
        Ok(s) => json!(s),
        Err(e) => json!({ "panic": e }),
    };
    let first: Vec<Value> = lines.iter().map(one).collect();
    let mut second: Vec<Value> =
        std::thread::scope(|s| s.spawn(|| lines.iter().rev().map(one).collect::<Vec<_>>()).join().unwrap());
    second.reverse();
    let differ: Vec<usize> = (0..lines.len()).filter(|i| first[*i] != second[*i]).collect();
    json!({ "out": first, "differ": differ })
}
