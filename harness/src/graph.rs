//! The state graph printed by TLC: sources with their routes, states with
//! their expected observations and outgoing transforms.

use crate::cap::src_key;
use serde_json::Value as J;
use std::collections::{BTreeMap, HashMap};

pub struct Node {
    pub key: String,
    pub m: String,
    pub v: String,
    pub f: String,
    pub o: String,
    pub d: bool,
    pub obs: J,
    pub next: Vec<(String, usize)>,
}

pub struct Source {
    pub key: String,
    pub def: J,
    pub routes: Vec<(String, usize)>,
    pub refused: Vec<String>,
    pub nodes: Vec<Node>,
}

pub fn load(path: &str) -> Vec<Source> {
    let text = std::fs::read_to_string(path).expect("graph file");
    let mut defs: BTreeMap<String, J> = BTreeMap::new();
    let mut nodes: HashMap<String, Vec<J>> = HashMap::new();
    for line in text.lines() {
        if !(line.starts_with("\"S{") || line.starts_with("\"N{")) {
            continue;
        }
        let inner: String = serde_json::from_str(line).expect("quoted line");
        let j: J = serde_json::from_str(&inner[1..]).expect("json line");
        let key = src_key(&j["src"]);
        if inner.starts_with('S') {
            defs.insert(key, j);
        } else {
            nodes.entry(key).or_default().push(j);
        }
    }
    let mut out = vec![];
    for (key, s) in defs {
        let mut js = nodes.remove(&key).unwrap_or_default();
        js.sort_by(|a, b| a["key"].as_str().cmp(&b["key"].as_str()));
        let mut index: HashMap<(String, String), usize> = HashMap::new();
        for (i, j) in js.iter().enumerate() {
            let at = (j["key"].as_str().unwrap().to_string(), j["m"].as_str().unwrap().to_string());
            assert!(index.insert(at, i).is_none(), "two states with one key in {key}");
        }
        let find = |k: &str, m: &str| -> usize {
            index
                .get(&(k.to_string(), m.to_string()))
                .or_else(|| index.get(&(k.to_string(), "poison".to_string())))
                .copied()
                .unwrap_or_else(|| panic!("no state {k}/{m} for {key}"))
        };
        let ns = js
            .iter()
            .map(|j| {
                let m = j["m"].as_str().unwrap();
                let k = j["key"].as_str().unwrap();
                let parts: Vec<&str> = k.split('.').collect();
                let mut next: Vec<(String, usize)> = j["next"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| (e["a"].as_str().unwrap().to_string(), find(e["to"].as_str().unwrap(), m)))
                    .collect();
                next.sort();
                Node {
                    key: k.to_string(),
                    m: m.to_string(),
                    v: j["v"].as_str().unwrap().to_string(),
                    f: parts[2].to_string(),
                    o: parts[3].to_string(),
                    d: parts.len() > 4,
                    obs: j["obs"].clone(),
                    next,
                }
            })
            .collect();
        let mut routes: Vec<(String, usize)> = s["routes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|r| {
                (
                    r["r"].as_str().unwrap().to_string(),
                    find(r["to"].as_str().unwrap(), r["m"].as_str().unwrap()),
                )
            })
            .collect();
        routes.sort();
        let refused = s["refused"].as_array().unwrap().iter().map(|r| r.as_str().unwrap().to_string()).collect();
        out.push(Source { key, def: s["src"].clone(), routes, refused, nodes: ns });
    }
    out
}
