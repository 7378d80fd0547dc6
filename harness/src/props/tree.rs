//! Helpers over serialized trees.

use super::basic::child_lists;
use crate::rng::Rng;
use ftml::tree::SyntaxTree;
use serde_json::{json, Value};

/// Every element of an element list in document order (parents first).
pub fn flatten<'a>(list: &'a [Value], out: &mut Vec<&'a Value>) {
    for e in list {
        flatten_one(e, out);
    }
}

fn flatten_one<'a>(e: &'a Value, out: &mut Vec<&'a Value>) {
    out.push(e);
    if e["element"] == "list" {
        for i in e["data"]["items"].as_array().into_iter().flatten() {
            if let Some(l) = i["elements"].as_array() {
                flatten(l, out);
            } else {
                flatten_one(i, out);
            }
        }
        return;
    }
    for l in child_lists(e) {
        flatten(l, out);
    }
}

pub fn elements(json: &Value) -> Vec<&Value> {
    let mut out = vec![];
    if let Some(a) = json["elements"].as_array() {
        flatten(a, &mut out);
    }
    out
}

pub fn walk_names(json: &Value) -> Vec<String> {
    elements(json)
        .into_iter()
        .map(|e| {
            let n = e["element"].as_str().unwrap_or("?");
            if n == "container" {
                let t = match &e["data"]["type"] {
                    Value::String(s) => s.clone(),
                    Value::Object(m) => m.keys().next().cloned().unwrap_or_default(),
                    _ => String::new(),
                };
                format!("container {t}")
            } else {
                n.to_string()
            }
        })
        .collect()
}

/// Turns a tree into one which uses what no wikitext denotes (or seldom does): e-mails, variables
/// and included scopes, every link target, embed, alignment, and so on.
pub fn vary(v: &mut Value, r: &mut Rng) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| vary(x, r)),
        Value::Object(m) => {
            m.values_mut().for_each(|x| vary(x, r));
            let Some(kind) = m.get("element").and_then(|k| k.as_str()).map(|k| k.to_string()) else {
                return;
            };
            if m.contains_key("item-type") {
                return;
            }
            let word = r.pick(WORDS).to_string();
            let other = r.pick(WORDS).to_string();
            match kind.as_str() {
                "text" if r.chance(1, 6) => {
                    let k = r.pick(&["email", "raw", "variable", "variable", "equation-reference"]);
                    m.insert("element".into(), json!(k));
                    if k == "variable" || r.chance(1, 3) {
                        m.insert("data".into(), json!(word));
                    }
                }
                "link" | "anchor" if r.chance(2, 3) => {
                    let t = r.pick(&["new-tab", "parent", "top", "same"]);
                    m["data"]["target"] = if r.chance(1, 5) { Value::Null } else { json!(t) };
                    if kind == "link" && r.coin() {
                        m["data"]["label"] = match r.below(4) {
                            0 => json!("page"),
                            1 => json!({ "url": null }),
                            2 => json!({ "url": word }),
                            _ => json!({ "text": word }),
                        };
                        if r.chance(1, 4) {
                            m["data"]["extra"] = json!("/edit#x");
                        }
                    }
                }
                "embed" => {
                    m["data"] = match r.below(4) {
                        0 => json!({"embed": "github-gist", "data": {"username": word, "hash": other}}),
                        1 => json!({"embed": "gitlab-snippet", "data": {"snippet-id": word}}),
                        2 => json!({"embed": "vimeo", "data": {"video-id": word}}),
                        _ => json!({"embed": "youtube", "data": {"video-id": word}}),
                    };
                }
                "image" if r.coin() => {
                    let a = r.pick(&["left", "right", "center", "justify"]);
                    m["data"]["alignment"] = json!({"align": a, "float": r.coin()});
                }
                "date" if r.coin() => {
                    let d = r.pick(&[
                        "2008-07-19", "1899-12-31", "0001-01-01", "2008-07-19 21:26:58.0", "2008-07-19 21:26:58.123 -04:30:00",
                        "1850-06-07 01:02:03.0 +00:00:00", "2020-02-29 23:59:59.0 +03:25:45", "-0044-03-15 12:00:00.0",
                    ]);
                    m["data"]["value"] = json!(d);
                }
                "horizontal-rule" if r.coin() => {
                    m.insert("element".into(), json!("clear-float"));
                    m.insert("data".into(), json!(r.pick(&["left", "right", "both"])));
                }
                "line-break" if r.chance(1, 4) => {
                    m.insert("element".into(), json!("line-breaks"));
                    m.insert("data".into(), json!(r.range(1, 4)));
                }
                "user" => m["data"]["show-avatar"] = json!(r.coin()),
                _ => {}
            }
            if r.chance(1, 25) {
                let inner = Value::Object(std::mem::take(m));
                let mut scope = serde_json::Map::new();
                for _ in 0..r.below(3) {
                    let (k, x) = (r.pick(WORDS).to_string(), r.pick(WORDS).to_string());
                    scope.insert(k, json!(x));
                }
                let site = if r.coin() { Value::Null } else { json!("www") };
                let safe = r.coin();
                *m = json!({"element": "include", "data": {
                    "paragraph-safe": safe, "variables": scope, "location": {"site": site, "page": word}, "elements": [inner],
                }})
                .as_object()
                .unwrap()
                .clone();
            }
        }
        _ => {}
    }
}

const WORDS: &[&str] = &["x", "name", "a b", "<b>", "\"q\"", "é", "a@b.c", "0", "scp-001", "&amp;", "{$x}"];

/// The tree with its elements varied, if asked for by the input.
pub fn varied(tree: SyntaxTree<'static>, input: &Value) -> Result<SyntaxTree<'static>, String> {
    let Some(seed) = input["vary"].as_u64() else {
        return Ok(tree);
    };
    let mut json = crate::pipe::json_of(&tree);
    let mut r = Rng::new(seed);
    for k in ["elements", "footnotes", "bibliographies"] {
        vary(&mut json[k], &mut r);
    }
    let mut t: SyntaxTree<'static> = serde_json::from_value(json).map_err(|e| e.to_string())?;
    t.wikitext_len = tree.wikitext_len;
    Ok(t)
}
