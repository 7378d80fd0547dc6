//! P17: conditional blocks, against an evaluator of conditions and a builder of what is left.

use super::wellformed::diff;
use crate::gen::model::merged;
use crate::pipe::{self, Env};
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P17]
}

struct P17;

const POOL: &[&str] = &["scp", "safe", "tale", "_cc", "a-b", "Scp", "x:y", "été", "t1", "sc"];

/// The conditions of a head: (kind, name) each.
fn specs(head: &str) -> Vec<(char, &str)> {
    head.split(' ')
        .filter(|s| !s.is_empty())
        .map(|s| match s.as_bytes()[0] {
            b'+' => ('+', &s[1..]),
            b'-' => ('-', &s[1..]),
            _ => (' ', s),
        })
        .collect()
}

fn holds(kind: &str, head: &str, env: &Env) -> bool {
    let list = specs(head);
    if kind == "tags" {
        let has = |t: &str| env.tags.iter().any(|x| x == t);
        let plain: Vec<&str> = list.iter().filter(|s| s.0 == ' ').map(|s| s.1).collect();
        list.iter().filter(|s| s.0 == '+').all(|s| has(s.1))
            && !list.iter().any(|s| s.0 == '-' && has(s.1))
            && (plain.is_empty() || plain.iter().any(|t| has(t)))
    } else {
        let own = env.category.as_deref().unwrap_or("_default");
        let wanted: Vec<&str> = list.iter().filter(|s| s.0 != '-').map(|s| s.1).collect();
        !list.iter().any(|s| s.0 == '-' && s.1 == own) && (wanted.is_empty() || wanted.contains(&own))
    }
}

#[derive(Default)]
struct W {
    src: String,
    /// The same document with excluded bodies and all conditional tags taken out.
    plain: String,
    on: bool,
    foot: Vec<Value>,
    code: Vec<Value>,
    html: Vec<Value>,
    bibs: Vec<Value>,
    heads: Vec<String>,
    fnblock: bool,
    names: Vec<String>,
    included: u64,
    excluded: u64,
    deep: u64,
    blocky: bool,
    /// Line breaks outside of the conditional tags.
    breaks: bool,
    env: Env,
    err: Option<String>,
}

fn text(s: &str) -> Value {
    json!({"element": "text", "data": s})
}
fn cont(ty: Value, c: Vec<Value>) -> Value {
    json!({"element": "container", "data": {"type": ty, "attributes": {}, "elements": c}})
}

fn okword(v: &Value) -> Option<&str> {
    v.as_str().filter(|s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric()))
}

impl W {
    fn put(&mut self, s: &str) {
        self.src.push_str(s);
        if self.on {
            self.plain.push_str(s);
        }
    }

    fn bad(&mut self, s: &str) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }

    /// Items of a body without paragraphs; `line`: no line breaks.
    fn items(&mut self, v: &Value, line: bool, depth: u64, foot: bool) -> Vec<Value> {
        let mut out = vec![];
        let Some(list) = v.as_array() else {
            self.bad("list");
            return out;
        };
        for it in list {
            out.extend(self.item(it, line, depth, foot));
        }
        out
    }

    fn item(&mut self, v: &Value, line: bool, depth: u64, foot: bool) -> Vec<Value> {
        if v.is_string() {
            let Some(w) = okword(v) else {
                self.bad("word");
                return vec![];
            };
            let w = w.to_string();
            self.put(&format!("{w} "));
            return vec![text(&w)];
        }
        if depth > 8 {
            self.bad("depth");
            return vec![];
        }
        let k = v["k"].as_str().unwrap_or("").to_string();
        let block = !matches!(k.as_str(), "bold" | "sym" | "span" | "foot" | "tags" | "cat" | "file");
        if block {
            if line {
                self.bad("block on a line");
                return vec![];
            }
            if self.on {
                self.blocky = true;
            }
        }
        let w = v["w"].as_str().unwrap_or("w").to_string();
        if okword(&json!(w)).is_none() {
            self.bad("word");
            return vec![];
        }
        match k.as_str() {
            "bold" | "span" | "sym" => {
                let (open, close, ty) = match k.as_str() {
                    "bold" => ("[[b]]", "[[/b]] ", "bold"),
                    "span" => ("[[span]]", "[[/span]] ", "span"),
                    // Needs something in it, and nests no bold symbols.
                    _ => ("//", "// ", "italics"),
                };
                self.put(open);
                let mut c = vec![];
                if k == "sym" {
                    // Neither starts nor ends with a space.
                    self.put(&w);
                    c.push(text(&w));
                    self.put(" ");
                    if v.to_string().matches("\"sym\"").count() > 1 {
                        self.bad("nested symbols");
                    }
                    c.extend(self.items(&v["c"], true, depth + 1, foot));
                    self.put(&w);
                    c.push(text(&w));
                } else {
                    c.extend(self.items(&v["c"], line, depth + 1, foot));
                }
                self.put(close);
                vec![cont(json!(ty), c)]
            }
            "foot" => {
                if foot {
                    self.bad("footnote in one");
                }
                self.put("[[footnote]]");
                // Numbered before what its body has.
                let mut c = vec![text(&w)];
                self.put(&format!("{w} "));
                c.extend(self.items(&v["c"], true, depth + 1, true));
                self.put("[[/footnote]] ");
                if self.on {
                    self.foot.push(Value::Array(c));
                }
                vec![json!({"element": "footnote"})]
            }
            "file" => {
                self.put(&format!("[[[{w}]]] "));
                vec![json!({"element": "link", "data": {"type": "page", "link": {"site": null, "page": w}, "extra": null, "label": {"url": null}, "target": null}})]
            }
            "div" | "para" => {
                let score = k == "div";
                self.put(if score { "[[div_]]\n" } else { "[[div]]\n" });
                let c = self.items(&v["c"], false, depth + 1, foot);
                self.put("\n[[/div]]\n");
                vec![cont(json!("div"), c)]
            }
            "ul" => {
                self.put("[[ul]]\n[[li]]\n");
                let c = self.items(&v["c"], false, depth + 1, foot);
                self.put("\n[[/li]]\n[[/ul]]\n");
                vec![json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [{"item-type": "elements", "attributes": {}, "elements": c}]}})]
            }
            "table" => {
                self.put("[[table]]\n[[row]]\n[[cell]]\n");
                let c = self.items(&v["c"], false, depth + 1, foot);
                self.put("\n[[/cell]]\n[[/row]]\n[[/table]]\n");
                vec![json!({"element": "table", "data": {"attributes": {}, "rows": [{"attributes": {}, "cells": [{"header": false, "column-span": 1, "align": null, "attributes": {}, "elements": c}]}]}})]
            }
            "coll" => {
                self.put("[[collapsible]]\n");
                let c = self.items(&v["c"], false, depth + 1, foot);
                self.put("\n[[/collapsible]]\n");
                vec![json!({"element": "collapsible", "data": {"attributes": {}, "elements": c, "hide-text": null, "show-text": null, "show-top": true, "show-bottom": false, "start-open": false}})]
            }
            "quote" => {
                self.put("[[blockquote]]\n");
                let c = self.items(&v["c"], false, depth + 1, foot);
                self.put("\n[[/blockquote]]\n");
                vec![cont(json!("blockquote"), c)]
            }
            "code" => {
                let (name, head) = if v["n"] == true { (json!(w), format!(" name=\"{w}\"")) } else { (Value::Null, String::new()) };
                if v["n"] == true {
                    if self.names.contains(&w) {
                        self.bad("name in use");
                    }
                    self.names.push(w.clone());
                }
                self.put(&format!("[[code{head}]]\n{w}\n[[/code]]\n"));
                if self.on {
                    self.code.push(json!({"contents": w, "name": name, "language": null}));
                }
                vec![json!({"element": "code", "data": {"contents": w, "language": null}})]
            }
            "html" => {
                self.put(&format!("[[html]]\n{w}\n[[/html]]\n"));
                if self.on {
                    self.html.push(json!(w));
                }
                vec![json!({"element": "html", "data": {"contents": w}})]
            }
            "head" => {
                if self.on {
                    self.heads.push(w.clone());
                }
                self.put(&format!("\n++ {w}\n"));
                vec![cont(json!({"header": {"level": 2, "has-toc": true}}), vec![text(&w)])]
            }
            "toc" => {
                self.put("[[toc]]\n");
                vec![json!({"element": "table-of-contents", "data": {"align": null, "attributes": {}}})]
            }
            "hr" => {
                self.put("\n----\n");
                vec![json!({"element": "horizontal-rule"})]
            }
            "bib" => {
                if foot {
                    self.bad("bibliography in a footnote");
                }
                self.put("[[bibliography]]\n");
                self.put(&format!(": k{w} : {w}\n"));
                self.put("[[/bibliography]]\n");
                let n = self.bibs.len();
                if self.on {
                    self.bibs.push(json!([[format!("k{w}"), [text(&w)]]]));
                }
                vec![json!({"element": "bibliography-block", "data": {"index": n, "title": null, "hide": false}})]
            }
            "fnblock" => {
                // Its place is the end of the last context: only the first one counts, a second
                // one fails.
                if self.fnblock || foot {
                    self.bad("footnote block");
                }
                self.put("[[footnoteblock]]\n");
                if self.on {
                    self.fnblock = true;
                }
                vec![json!({"element": "footnote-block", "data": {"title": null, "hide": false}})]
            }
            "list" => {
                self.put(&format!("\n* {w}\n\n{w} "));
                vec![
                    json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [{"item-type": "elements", "attributes": {}, "elements": [text(&w)]}]}}),
                    text(&w),
                ]
            }
            "tags" | "cat" => {
                let head = v["h"].as_str().unwrap_or("").to_string();
                if specs(&head).is_empty() || head.contains(['[', ']', '\n', '"']) {
                    self.bad("conditions");
                }
                let n = if k == "tags" { "iftags" } else { "ifcategory" };
                let (a, b) = match v["sp"].as_u64().unwrap_or(0) {
                    0 => (n.to_string(), n.to_string()),
                    1 => (n.to_uppercase(), n.to_string()),
                    _ => (format!(" {n}"), n.replace("if", "If")),
                };
                let on = self.on;
                let yes = holds(&k, &head, &self.env);
                let nl = if line || v["nl"] != true { "" } else { "\n" };
                let nl2 = if line || v["nl2"] != true { "" } else { "\n" };
                if on && !nl2.is_empty() {
                    self.breaks = true;
                }
                self.src.push_str(&format!("{nl2}[[{a} {head}]]{nl}"));
                if on {
                    *(if yes { &mut self.included } else { &mut self.excluded }) += 1;
                    self.deep = self.deep.max(depth);
                }
                self.on = on && yes;
                let fnb = self.fnblock;
                let names = self.names.len();
                let c = self.items(&v["c"], line, depth + 1, foot);
                if !self.on {
                    self.fnblock = fnb;
                    self.names.truncate(names);
                }
                self.on = on;
                self.src.push_str(&format!("{nl}[[/{b}]]{nl2}"));
                if yes {
                    c
                } else {
                    vec![]
                }
            }
            _ => {
                self.bad("kind");
                vec![]
            }
        }
    }
}

/// Paragraphs unwrapped, line breaks and blanks between things dropped.
fn loose(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut out: Vec<Value> = vec![];
            for x in a {
                if x["element"] == "line-break" {
                    continue;
                }
                if x["element"] == "container" && x["data"]["type"] == "paragraph" {
                    if let Value::Array(l) = loose(&x["data"]["elements"]) {
                        out.extend(l);
                    }
                    continue;
                }
                let x = loose(x);
                if x["element"] == "text" {
                    if x["data"].as_str().is_some_and(|s| s.trim().is_empty()) {
                        continue;
                    }
                }
                out.push(x);
            }
            Value::Array(out)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), loose(v))).collect()),
        _ => v.clone(),
    }
}

fn head(r: &mut Rng, tags: bool) -> String {
    let n = if r.chance(1, 150) { crate::gen::big::few(r) } else { [1, 1, 1, 2, 2, 3, 4][r.below(7)] };
    let mut out = String::new();
    for i in 0..n {
        if i > 0 {
            out.push_str(r.pick(&[" ", " ", "  "]));
        }
        out.push_str(r.pick(&["", "+", "-"]));
        if r.chance(1, 40) {
            out.push_str(r.pick(&["+", "-"]));
        }
        if tags {
            out.push_str(r.pick(POOL));
        } else {
            out.push_str(r.pick(&["_default", "component", "fragment", "Component", "scp", "comp"]));
        }
    }
    out
}

fn items(r: &mut Rng, d: usize, line: bool, foot: bool, sym: bool, ids: &mut u64) -> Value {
    let n = if r.chance(1, 3000) { crate::gen::big::few(r) } else { [1, 1, 2, 2, 3, 4][r.below(6)] };
    let d = if n > 4 { d.min(1) } else { d };
    let mut out = vec![];
    for _ in 0..n {
        *ids += 1;
        let w = format!("w{ids}");
        if d == 0 || r.chance(1, 3) {
            out.push(json!(w));
            continue;
        }
        let pick = if line { r.below(12) } else { r.below(26) };
        out.push(match pick {
            0..=4 | 12..=15 => {
                let tags = r.chance(2, 3);
                let mut b = json!({"k": if tags {"tags"} else {"cat"}, "h": head(r, tags), "sp": r.below(3), "c": items(r, d - 1, line, foot, sym, ids)});
                if r.coin() {
                    b["nl"] = json!(true);
                }
                if r.chance(1, 3) {
                    b["nl2"] = json!(true);
                }
                b
            }
            5 => json!({"k": "bold", "c": items(r, d - 1, line, foot, sym, ids)}),
            6 => json!({"k": "span", "c": items(r, d - 1, line, foot, sym, ids)}),
            7 if !sym => json!({"k": "sym", "w": w, "c": items(r, d - 1, true, foot, true, ids)}),
            8 | 9 if !foot => json!({"k": "foot", "w": w, "c": items(r, d - 1, true, true, sym, ids)}),
            10 => json!({"k": "file", "w": w}),
            16 => json!({"k": r.s(&["div", "para"]), "c": items(r, d - 1, line, foot, sym, ids)}),
            17 => json!({"k": r.s(&["ul", "table", "coll", "quote"]), "c": items(r, d - 1, line, foot, sym, ids)}),
            18 => json!({"k": "code", "w": w, "n": r.coin()}),
            19 => json!({"k": "html", "w": w}),
            20 | 21 => json!({"k": "head", "w": w}),
            22 if !foot => json!({"k": "bib", "w": w}),
            23 => json!({"k": "toc", "w": w}),
            24 if !foot => json!({"k": r.s(&["fnblock", "hr"]), "w": w}),
            25 => json!({"k": "list", "w": w}),
            _ => json!(w),
        });
    }
    Value::Array(out)
}

impl Prop for P17 {
    fn id(&self) -> &'static str {
        "P17"
    }
    fn rule(&self) -> &'static str {
        "random nestings of iftags and ifcategory within and around 17 kinds of constructs (footnotes, code, html, headings, bibliographies, tables of contents, lists among them), with random condition lists, tag sets and categories; oracle: an evaluator of conditions and a builder of the elements and lists left; where included bodies are inline or there are none the tree is exactly that of the source with the conditional markup taken out; all small condition lists over two names are enumerated; non-trivial: a condition was evaluated"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        // All lists of up to three conditions over two names, and all sets of these names.
        let one: Vec<String> = ["", "+", "-"].iter().flat_map(|p| ["scp", "tale"].map(|t| format!("{p}{t}"))).collect();
        let mut heads: Vec<String> = one.clone();
        for a in &one {
            for b in &one {
                heads.push(format!("{a} {b}"));
                for c in &one {
                    heads.push(format!("{a} {b} {c}"));
                }
            }
        }
        for h in &heads {
            for tags in [json!([]), json!(["scp"]), json!(["tale"]), json!(["tale", "scp"])] {
                out.push(json!({"tags": tags, "c": ["a", {"k": "tags", "h": h, "c": ["b"]}]}));
            }
            for cat in [json!(null), json!("scp"), json!("tale"), json!("x")] {
                out.push(json!({"tags": [], "cat": cat, "c": ["a", {"k": "cat", "h": h, "c": ["b"]}]}));
            }
        }
        // Every kind of thing excluded and included, in each context.
        for ctx in 0..8 {
            for h in ["+scp", "-scp"] {
                for it in [
                    json!({"k": "foot", "w": "f", "c": []}),
                    json!({"k": "code", "w": "f", "n": true}),
                    json!({"k": "html", "w": "f"}),
                    json!({"k": "head", "w": "f"}),
                    json!({"k": "toc", "w": "f"}),
                    json!({"k": "bib", "w": "f"}),
                    json!({"k": "fnblock", "w": "f"}),
                    json!({"k": "div", "c": ["f"]}),
                    json!({"k": "para", "c": ["f"]}),
                    json!({"k": "list", "w": "f"}),
                    json!({"k": "hr", "w": "f"}),
                ] {
                    out.push(json!({"tags": ["scp"], "ctx": ctx, "c": ["a", {"k": "tags", "h": h, "c": [it.clone()]}, it, "z"]}));
                    out.push(json!({"tags": ["scp"], "ctx": ctx, "c": ["a", {"k": "cat", "h": "_default", "c": [{"k": "tags", "h": h, "c": [it.clone()]}, "y"]}, "z"]}));
                }
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> Value {
        let mut ids = 0;
        let ctx = r.below(8);
        let mut tags: Vec<&str> = POOL.to_vec();
        r.shuffle(&mut tags);
        tags.truncate(if r.chance(1, 100) { tags.len() } else { r.below(5) });
        let line = ctx == 4 || ctx == 5 || ctx == 6;
        let line = line || r.chance(1, 4);
        let mut d = json!({"tags": tags, "ctx": ctx, "c": items(r, 5, line, false, false, &mut ids)});
        if r.coin() {
            d["cat"] = json!(r.s(&["component", "fragment", "scp", "_default", "Component"]));
        }
        d
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let env = Env {
            tags: v["tags"].as_array().map(|a| a.iter().filter_map(|t| t.as_str().map(String::from)).collect()).unwrap_or_default(),
            category: v["cat"].as_str().map(String::from),
            ..Env::default()
        };
        if env.category.as_deref() == Some("") {
            return Verdict::Skip;
        }
        let mut w = W { env: env.clone(), on: true, ..W::default() };
        let ctx = v["ctx"].as_u64().unwrap_or(0);
        let line = matches!(ctx, 4..=6);
        let (open, close) = match ctx {
            0 => ("", "\n"),
            1 => ("[[div_]]\n", "\n[[/div]]"),
            2 => ("[[div]]\n", "\n[[/div]]"),
            3 => ("before\n\n", "\n\nafter"),
            4 => ("* ", "\n"),
            5 => ("> ", "\n"),
            6 => ("||s ", "||"),
            _ => ("[[collapsible]]\n", "\n[[/collapsible]]"),
        };
        w.put(open);
        let c = w.items(&v["c"], line, 0, false);
        w.put(close);
        if let Some(e) = w.err {
            stats.hit(&format!("refused: {e}"));
            return Verdict::Skip;
        }
        if line && c.is_empty() {
            stats.hit("refused: empty line");
            return Verdict::Skip;
        }
        let mut want = match ctx {
            0 => c,
            1 | 2 => vec![cont(json!("div"), c)],
            3 => {
                let mut l = vec![text("before")];
                l.extend(c);
                l.push(text("after"));
                l
            }
            4 => vec![json!({"element": "list", "data": {"type": "bullet", "attributes": {}, "items": [{"item-type": "elements", "attributes": {}, "elements": c}]}})],
            5 => vec![cont(json!("blockquote"), c)],
            6 => {
                let mut l = vec![text("s")];
                l.extend(c);
                vec![json!({"element": "table", "data": {"attributes": {"class": "wj-table"}, "rows": [{"attributes": {}, "cells": [{"header": false, "column-span": 1, "align": null, "attributes": {}, "elements": l}]}]}})]
            }
            _ => vec![json!({"element": "collapsible", "data": {"attributes": {}, "elements": c, "hide-text": null, "show-text": null, "show-top": true, "show-bottom": false, "start-open": false}})],
        };
        if !w.fnblock {
            want.push(json!({"element": "footnote-block", "data": {"title": null, "hide": false}}));
        }
        let src = pipe::preprocess(&w.src);
        let (tree, errors) = pipe::tree_of(&src, &env);
        if let Some(e) = errors.first() {
            return fail("error", format!("{e:?}\n  source: {src:?}"));
        }
        let j = pipe::json_of(&tree);
        let strip = |v: &Value| trim(&loose(v));
        let mut got = j.clone();
        got["elements"] = strip(&j["elements"]);
        if let Some(d) = diff("elements", &got["elements"], &strip(&json!(want))) {
            return fail("tree", format!("{d}\n  source: {src:?}\n  tags {:?} category {:?}", env.tags, env.category));
        }
        for (key, want) in [("footnotes", json!(w.foot)), ("html-blocks", json!(w.html)), ("bibliographies", json!(w.bibs))] {
            if let Some(d) = diff(key, &strip(&j[key]), &strip(&want)) {
                return fail("list", format!("{d}\n  source: {src:?}"));
            }
        }
        let names = |v: &Value| v.as_array().map(|a| a.iter().map(|b| (b["contents"].clone(), b["name"].clone())).collect::<Vec<_>>()).unwrap_or_default();
        if names(&j["code-blocks"]) != names(&json!(w.code)) {
            return fail("list", format!("code-blocks: {} instead of {}\n  source: {src:?}", j["code-blocks"], json!(w.code)));
        }
        let mut heads = vec![];
        toc(&j["table-of-contents"], &mut heads);
        if heads != w.heads {
            return fail("list", format!("contents: {heads:?} instead of {:?}\n  source: {src:?}", w.heads));
        }
        // Exactly what the source without the markup gives, where this is no block.
        let inner = &w.plain[open.len()..w.plain.len() - close.len()];
        let ends = |f: fn(&Vec<Value>) -> Option<&Value>| v["c"].as_array().and_then(f).is_some_and(Value::is_string);
        if !w.blocky && !w.breaks && !inner.contains('\n') && ends(|a| a.first()) && ends(|a| a.last()) {
            let plain = pipe::preprocess(&w.plain);
            let (t2, e2) = pipe::tree_of(&plain, &env);
            if e2.is_empty() {
                let j2 = pipe::json_of(&t2);
                // Cells lose blanks at their ends.
                let f = |v: &Value| if ctx == 6 { strip(v) } else { v.clone() };
                for key in ["elements", "footnotes"] {
                    if let Some(d) = diff(key, &f(&merged(&j[key])), &f(&merged(&j2[key]))) {
                        return fail("in place", format!("{d}\n  source: {src:?}\n  without conditions: {plain:?}"));
                    }
                }
                stats.hit("compared exactly");
            }
        }
        let html = pipe::html_of(&tree, &env);
        match refhtml::compare(&j, &env, &html.body) {
            Err(e) if e.contains("output too large") => {}
            Err(e) => return fail("html", format!("{e}\n  source: {src:?}")),
            Ok(_) => {}
        }
        stats.add("bodies included", w.included);
        stats.add("bodies excluded", w.excluded);
        if w.deep > 2 {
            stats.hit("nested deeply");
        }
        Verdict::Ok(w.included + w.excluded > 0)
    }
}

/// Texts without blanks at their ends.
fn trim(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(trim).collect()),
        Value::Object(o) if v["element"] == "text" => {
            let mut o = o.clone();
            if let Some(s) = v["data"].as_str() {
                o.insert("data".into(), json!(s.trim()));
            }
            Value::Object(o)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), trim(v))).collect()),
        _ => v.clone(),
    }
}

/// Labels of the table of contents, in order.
fn toc(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| toc(x, out)),
        Value::Object(o) => {
            if v["element"] == "link" {
                if let Some(s) = v["data"]["label"]["text"].as_str() {
                    out.push(s.to_string());
                }
                return;
            }
            o.values().for_each(|x| toc(x, out));
        }
        _ => {}
    }
}
