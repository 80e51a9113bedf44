//! The distance computations.
use crate::detect::word;
use crate::util::*;
use logreduce_index::*;
use serde_json::{json, Value};
use std::io::Write;

/// The text of a word; the word 0 is the empty one.
fn text(w: u64, style: u64) -> String {
    if w == 0 {
        return String::new();
    }
    match style {
        0 => word("zu", w),
        // with a long common beginning, or end
        1 => format!("{}{}", "z".repeat(70), word("u", w)),
        2 => format!("{}{}", word("z", w), "-u".repeat(40)),
        // other alphabets
        3 => format!("\u{e9}\u{4e2d}{}\u{20ac}", word("", w)),
        4 => char::from_u32(0x4e00 + w as u32).unwrap().to_string(),
        // differing in the case only
        5 => "abcdefghijklmn".chars().enumerate().map(|(i, c)| if w >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        // in the punctuation, or the order of the letters
        6 => (0..12).map(|i| [".", "/"][(w >> i & 1) as usize]).collect::<Vec<_>>().join("a"),
        _ => {
            let mut left: Vec<char> = "bcdfghjkl".chars().collect();
            let mut n = w;
            let mut s = String::from("%");
            while !left.is_empty() {
                let i = (n % left.len() as u64) as usize;
                n /= left.len() as u64;
                s.push(left.remove(i));
            }
            s
        }
    }
}

fn lines(v: &Value) -> Vec<String> {
    styled(v, 0)
}
fn styled(v: &Value, style: u64) -> Vec<String> {
    let line = |v: &Value| v.as_array().unwrap().iter().map(|w| text(w.as_u64().unwrap(), style)).collect::<Vec<_>>().join(" ");
    v.as_array().unwrap().iter().map(line).collect()
}

/// Every way to cut n lines into chunks, when there are few; some of them otherwise.
fn cuts(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    if n <= 4 {
        return (0..1u32 << (n - 1))
            .map(|m| {
                let mut c = vec![];
                let mut len = 1;
                for i in 0..n - 1 {
                    if m & (1 << i) != 0 {
                        c.push(len);
                        len = 1;
                    } else {
                        len += 1;
                    }
                }
                c.push(len);
                c
            })
            .collect();
    }
    let mut res = vec![vec![n], vec![1, n - 1], vec![n - 1, 1], vec![n / 2, n - n / 2]];
    if n > 512 {
        res.push(vec![512, n - 512]);
        res.push(vec![7; n / 7].into_iter().chain((n % 7 > 0).then(|| n % 7)).collect());
    }
    res
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    if n <= 1 {
        return vec![id];
    }
    if n == 2 {
        return vec![id, vec![1, 0]];
    }
    if n == 3 {
        return vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]];
    }
    let rot = id.iter().map(|i| (i + n / 2) % n).collect();
    let rev = id.iter().rev().copied().collect();
    vec![id, rot, rev]
}

pub fn run(case: &Value) -> Value {
    let style = case["style"].as_u64().unwrap();
    let base = styled(&case["base"], style);
    let targets = styled(&case["targets"], style);
    let n = targets.len();
    let mut methods: Vec<(String, Vec<f64>)> = Vec::new();
    let mut push = |name: String, d: Vec<f32>| {
        methods.push((name, d.into_iter().map(|x| x as f64 * 1000.0).collect()));
    };
    // the large cases are searched in fewer ways
    let large = base.len() > 2000 || n > 1000;
    for o in orders(base.len()).into_iter().take(if large { 1 } else { 6 }) {
        let b: Vec<String> = o.iter().map(|i| base[*i].clone()).collect();
        let feats = index(&mut b.clone().into_iter());
        push(format!("search {:?}", short(&o)), targets.iter().map(|t| search(&feats, t)).collect());
        let mat = index_mat(&b);
        push(format!("search_mat {:?}", short(&o)), search_mat(&mat, &targets));
        push(format!("search_mat saved {:?}", short(&o)), search_mat(&load_mat(&save_mat(&mat)), &targets));
        for c in cuts(b.len()) {
            let mut mats = Vec::new();
            let mut at = 0;
            for len in &c {
                mats.push(index_mat(&b[at..at + len]));
                at += len;
            }
            push(format!("search_mat_chunk {:?} {:?}", short(&c), short(&o)), search_mat_chunk(&mats, &targets));
            // the targets one by one, and reversed
            if !large {
                let single: Vec<f32> = targets.iter().map(|t| search_mat_chunk(&mats, &[t.clone()])[0]).collect();
                push(format!("one by one {:?} {:?}", short(&c), short(&o)), single);
            }
            let rev: Vec<String> = targets.iter().rev().cloned().collect();
            let mut d = search_mat_chunk(&mats, &rev);
            d.reverse();
            push(format!("reversed targets {:?} {:?}", short(&c), short(&o)), d);
            let twice: Vec<String> = targets.iter().flat_map(|t| [t.clone(), t.clone()]).collect();
            let d = search_mat_chunk(&mats, &twice);
            push(format!("duplicated targets {:?}", short(&c)), d.chunks(2).map(|x| if x[0] == x[1] { x[0] } else { f32::NAN }).collect());
            if !mats.is_empty() {
                let all: Vec<String> = b.iter().chain(b.iter()).cloned().collect();
                mats.push(index_mat(&all));
                push(format!("duplicated baselines {:?}", short(&c)), search_mat_chunk(&mats, &targets));
            }
        }
    }
    // for each target, the method with the lowest and the one with the highest distance
    let mut res = Vec::new();
    for i in 0..n {
        let get = |m: &(String, Vec<f64>)| m.1.get(i).copied().unwrap_or(f64::NAN);
        let bad = methods.iter().find(|m| m.1.len() != n || !get(m).is_finite());
        if let Some(m) = bad {
            res.push(json!({ "bad": format!("{} gives {:?}", m.0, m.1.get(i)) }));
            continue;
        }
        let lo = methods.iter().min_by(|a, b| get(a).partial_cmp(&get(b)).unwrap()).unwrap();
        let hi = methods.iter().max_by(|a, b| get(a).partial_cmp(&get(b)).unwrap()).unwrap();
        res.push(json!({"lo": get(lo), "lo_by": lo.0, "hi": get(hi), "hi_by": hi.0}));
    }
    json!({ "targets": res, "methods": methods.len() })
}

fn short(xs: &[usize]) -> Vec<usize> {
    xs.iter().take(6).copied().collect()
}

pub fn fuzz(out: &str, args: &[String]) {
    let n: usize = args[0].parse().unwrap();
    let mut rng = Rng(seed().wrapping_mul(104729));
    let mut w = std::fs::File::create(out).expect("out");
    for _ in 0..n {
        let words = *rng.pick(&[3, 6, 20, 100]);
        let mut mk = |rng: &mut Rng, m: usize| {
            let l = rng.below(m) + (m > 1) as usize;
            Value::Array((0..l).map(|_| json!(1 + rng.below(words))).collect())
        };
        let nb = *rng.pick(&[1, 2, 5, 30, 60]);
        let nt = *rng.pick(&[1, 3, 12]);
        let base: Vec<Value> = (0..nb).map(|_| mk(&mut rng, 30)).collect();
        let mut targets: Vec<Value> = (0..nt).map(|_| mk(&mut rng, 30)).collect();
        targets.push(base[rng.below(nb)].clone());
        let (b, t) = (lines(&json!(base)), lines(&json!(targets)));
        let mut mats = Vec::new();
        let mut at = 0;
        while at < b.len() {
            let len = (1 + rng.below(20)).min(b.len() - at);
            mats.push(index_mat(&b[at..at + len]));
            at += len;
        }
        let obs: Vec<i64> = match catch(|| search_mat_chunk(&mats, &t)) {
            Ok(d) => d.iter().map(|x| (x * 1000.0).round() as i64).collect(),
            Err(_) => vec![-1; t.len()],
        };
        writeln!(w, "{}", json!({"base": base, "targets": targets, "obs": obs})).unwrap();
    }
}
