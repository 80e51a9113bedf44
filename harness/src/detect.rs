//! The inspection: ChunkTrainer and ChunkProcessor.
use crate::util::*;
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::ChunkIndex;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

/// A word of at least seven letters, different for each prefix and number.
pub fn word(prefix: &str, n: u64) -> String {
    let letters = b"ghjkmnpqrs";
    let mut s = prefix.to_string();
    for c in format!("{:05}", n).bytes() {
        s.push(letters[(c - b'0') as usize] as char);
    }
    s
}

const WIDE: [&str; 9] = ["wu", "wo", "wy", "wi", "wul", "wol", "wyl", "wil", "wel"];

/// The text of a class, without its volatile part.
pub fn class_text(kind: &str, idx: u64) -> String {
    let three = |a: &str, b: &str, c: &str| format!("{} {} {}", word(a, idx), word(b, idx), word(c, idx));
    let wide = |same: usize, other: &str| {
        WIDE.iter()
            .enumerate()
            .map(|(i, p)| if i < same { word(p, idx) } else { word(&format!("{}{}", other, p), idx) })
            .collect::<Vec<_>>()
            .join(" ")
    };
    match kind {
        "k" => three("zu", "zo", "zy"),
        "s" => three("yu", "yo", "yy"),
        "a" | "A" => three("vu", "vo", "vy"),
        // a long common part, at the beginning or at the end, and twice as many other words
        "L" | "g" => {
            let common = (0..60).map(|i| word(if kind == "L" { "lu" } else { "gu" }, i)).collect::<Vec<_>>().join(" ");
            let (first, count) = if kind == "L" && matches!(idx, 5 | 6) { (idx * 1000, 500) } else { (idx * 200, 120) };
            let own = (0..count).map(|i| word(if kind == "L" { "ly" } else { "gy" }, first + i)).collect::<Vec<_>>().join(" ");
            if idx >= 7 { format!("{} {}", own, common) } else { format!("{} {}", common, own) }
        }
        "w" => wide(9, ""),
        "e" => wide(7, "n"),
        "f" => wide(5, "m"),
        "t" => ["TASK log-classify gather quota", "TASK [log classify : gather quota] *****", "PLAY [log-classify gather] *****",
            "task [log-classify gather] *****", "TASK  [log-classify gather] ****"][idx as usize % 5].to_string(),
        "m" => ["TASK [log-classify : gather quota] *****", "quota gather TASK [log-classify]", "gather (TASK [log-classify-report] quota",
            "PLAY quota TASK [log-classify", "TASK [log-classify] TASK [log-classify] quota",
            // from there without the number of the line
            "\"TASK [log-classify : quota]\",", "TASK [log-classify", "\tTASK [log-classify] *", "{\"msg\": \"TASK [log-classify\"}",
            "\u{1b}[0;32mTASK [log-classify]\u{1b}[0m", "\u{e9}\u{20ac} TASK [log-classify: \u{4e2d}", "TASK [log-classify\\ \"x\"] 'y' <&>",
            "LONG"][idx as usize % 13].replace("LONG", &format!("{}TASK [log-classify]", "quota ".repeat(990))),
        k => panic!("kind {}", k),
    }
}

/// Expand the items into lines; None is a blank line.
pub fn expand(items: &Value) -> Vec<Option<String>> {
    let mut res = Vec::new();
    let mut coord = 0;
    for it in items.as_array().expect("items") {
        let (kind, idx, n) = (it[0].as_str().unwrap(), it[1].as_u64().unwrap(), it[2].as_u64().unwrap());
        for j in 0..n {
            if kind == "z" {
                res.push(None);
                continue;
            }
            if kind == "x" || kind == "y" {
                return res;
            }
            coord += 1;
            if kind == "m" && idx >= 5 {
                res.push(Some(class_text(kind, idx)));
                continue;
            }
            if kind == "b" {
                res.push(Some((0..14).map(|k| if coord >> k & 1 == 1 { ' ' } else { '\t' }).collect()));
                continue;
            }
            let i = match kind {
                "k" | "A" | "w" | "g" => idx + j,
                _ => idx,
            };
            // what ends a line is a part of it
            let end = ["", " ", "", "\t ", "", "", "   ", "\r"][coord % 8];
            res.push(Some(format!("{} {}{}", coord, class_text(kind, i), end)));
        }
    }
    res
}

pub fn text(lines: &[Option<String>]) -> Vec<u8> {
    let mut data = Vec::new();
    for l in lines {
        if let Some(l) = l {
            data.extend_from_slice(l.as_bytes());
        }
        data.push(b'\n');
    }
    data
}

/// A trained index, and what is needed to compute the distance of a single line.
pub struct Trained {
    index: ChunkIndex,
    count: usize,
    features: Vec<logreduce_index::Features>,
    own: Mutex<HashMap<String, f64>>,
}
impl Trained {
    fn own_distance(&self, line: &str) -> f64 {
        let tokens = logreduce_tokenizer::process(line);
        if let Some(d) = self.own.lock().unwrap().get(&tokens) {
            return *d;
        }
        let d = logreduce_index::search(&self.features, &tokens) as f64 * 1000.0;
        self.own.lock().unwrap().insert(tokens, d);
        d
    }
}
type Cache = Mutex<HashMap<String, Arc<Trained>>>;
lazy_static::lazy_static! { static ref INDEXES: Cache = Mutex::new(HashMap::new()); }

fn trained(base: &Value) -> Arc<Trained> {
    let key = base.to_string();
    if let Some(x) = INDEXES.lock().unwrap().get(&key) {
        return x.clone();
    }
    let mut index = logreduce_model::hashing_index::new();
    let mut trainer = ChunkTrainer::new(&mut index, false);
    let mut tokens = Vec::new();
    for items in base.as_array().unwrap() {
        let lines = expand(items);
        tokens.extend(lines.iter().flatten().map(|l| logreduce_tokenizer::process(l)));
        let mut data = text(&lines);
        let has = |k: &str| items.as_array().unwrap().iter().any(|it| it[0] == k);
        if has("y") {
            data.extend_from_slice(b"7 zug\x80ggg zogggg\n");
            data.extend_from_slice(format!("8 {}\n9 {}\n", class_text("a", 1), class_text("a", 2)).as_bytes());
        }
        let res = trainer.add(ChoppyReader::new(&data, Sched::Full, has("x")));
        if !has("x") && !has("y") {
            res.expect("training");
        }
    }
    trainer.complete();
    let count = trainer.line_count;
    let features = logreduce_index::index(&mut tokens.into_iter());
    let x = Arc::new(Trained { index, count, features, own: Mutex::new(HashMap::new()) });
    INDEXES.lock().unwrap().insert(key, x.clone());
    x
}

pub fn run(case: &Value) -> Value {
    let index = match catch(|| trained(&case["base"])) {
        Ok(x) => x,
        Err(e) => return json!({ "panic": e }),
    };
    let mut seen = HashSet::new();
    let end = case["end"].as_str().unwrap_or("eof");
    let mut res = Vec::new();
    for items in case["srcs"].as_array().unwrap() {
        let lines = expand(items);
        let mut data = text(&lines);
        match end {
            "fail" => data.extend_from_slice(format!("7 {}", class_text("a", 90)).as_bytes()),
            e if e.starts_with("utf8") => {
                data.extend_from_slice(match e {
                    // a character cut by the end of the line
                    "utf8-cut" => b"7 zugggg zoggg\xc3\n" as &[u8],
                    "utf8-lone" => b"7 zug\x80ggg zogggg\n",
                    "utf8-over" => b"7 \xc0\xaf zogggg\n",
                    "utf8-surrogate" => b"7 zogggg \xed\xa0\x80\n",
                    "utf8-high" => b"7 \xf4\x90\x80\x80 zogggg\n",
                    "utf8-all" => b"\xe2\x82\n",
                    _ => b"7 \xff\xfe zugggg\n",
                });
                data.extend_from_slice(format!("8 {}\n9 {}\n", class_text("a", 91), class_text("k", 3)).as_bytes());
            }
            _ => {}
        }
        let coords: HashMap<&str, usize> =
            lines.iter().flatten().enumerate().map(|(i, l)| (l.as_str(), i + 1)).collect();
        let id = |s: &str| -> Value {
            match coords.get(s) {
                Some(i) => json!(i),
                None => json!(format!("?{}", s)),
            }
        };
        let sched = if data.len() < 600 { Sched::Fixed(5) } else { Sched::Full };
        let reader = ChoppyReader::new(&data, sched, end == "fail");
        let mut processor = ChunkProcessor::new(reader, &index.index, false, &mut seen);
        let (mut out, mut err, mut endless) = (Vec::new(), None, false);
        let r = catch(|| {
            for x in processor.by_ref() {
                if out.len() > 20_000 {
                    endless = true;
                    break;
                }
                match x {
                    Ok(x) => out.push(json!({
                        "line": id(&x.anomaly.line), "no": x.anomaly.pos, "dist": (x.anomaly.distance as f64 * 1000.0),
                        "own": index.own_distance(&x.anomaly.line),
                        "before": x.before.iter().map(|s| id(s)).collect::<Vec<_>>(),
                        "after": x.after.iter().map(|s| id(s)).collect::<Vec<_>>()})),
                    Err(e) => {
                        err = Some(e.to_string());
                        break;
                    }
                }
            }
        });
        res.push(json!({"out": out, "err": err, "endless": endless, "panic": r.err(), "count": processor.line_count}));
    }
    json!({ "srcs": res, "trained": index.count })
}

/// Random long sources: the items are recorded with what was reported.
pub fn fuzz(out: &str, args: &[String]) {
    use std::io::Write;
    let n: usize = args[0].parse().unwrap();
    let base = json!([[["k", 1, 700], ["m", 0, 1], ["t", 0, 1], ["t", 1, 1], ["t", 2, 1], ["t", 3, 1], ["t", 4, 1], ["s", 0, 40], ["w", 1, 6]], [["z", 0, 3], ["k", 701, 650], ["s", 0, 1], ["b", 0, 1]]]);
    let mut rng = Rng(seed().wrapping_mul(7919));
    let mut w = std::fs::File::create(out).expect("out");
    for _ in 0..n {
        let nsrc = 1 + rng.below(3);
        let mut srcs = Vec::new();
        for _ in 0..nsrc {
            let mut items: Vec<Value> = Vec::new();
            let mut next = 1 + rng.below(400);
            for _ in 0..1 + rng.below(14) {
                let it = match rng.below(17) {
                    16 => json!(["b", 0, 1 + rng.below(3)]),
                    0..=4 => {
                        let c = *rng.pick(&[1, 2, 3, 4, 5, 60, 505, 511, 512]);
                        if next + c > 1350 { next = 1 + rng.below(300) }
                        let x = json!(["k", next, c]);
                        next += c;
                        x
                    }
                    5 | 6 => json!(["s", 0, *rng.pick(&[1, 2, 3, 7, 300, 5118])]),
                    7 => json!(["e", 1 + rng.below(5), 1]),
                    8 => json!(["f", 1 + rng.below(5), 1 + rng.below(2)]),
                    9 => json!(["z", 0, 1 + rng.below(3)]),
                    10 => json!(["t", rng.below(5), 1]),
                    11 if rng.below(6) == 0 => json!(["m", rng.below(5), 1]),
                    11 => json!(["A", 1 + rng.below(20), 1 + rng.below(6)]),
                    _ => json!(["a", 1 + rng.below(9), *rng.pick(&[1, 1, 1, 2, 4])]),
                };
                items.push(it);
            }
            srcs.push(Value::Array(items));
        }
        let case = json!({"base": base, "srcs": srcs, "end": "eof"});
        let r = run(&case);
        writeln!(w, "{}", json!({"srcs": case["srcs"], "obs": r["srcs"], "panic": r["panic"]})).unwrap();
    }
}
