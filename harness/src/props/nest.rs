//! P20 (lists, quotes and definition lists by their markers) and P21 (tables), against
//! reference builders written from the markers alone.

use super::wellformed::diff;
use crate::gen::model::{self, merged, ModelGen, Options};
use crate::pipe::{self, Env};
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P20, &P21]
}

fn opts(v: &Value) -> Options {
    match v["sp"].as_u64() {
        Some(n) => Options { vary: true, seed: n, crlf: false },
        None => Options { vary: false, seed: 0, crlf: false },
    }
}

fn line_break() -> Value {
    json!({"element": "line-break"})
}

fn paragraph(c: Vec<Value>) -> Value {
    json!({"element": "container", "data": {"type": "paragraph", "attributes": {}, "elements": c}})
}

/// Source and elements of some inline items (none: nothing at all).
struct Text {
    src: String,
    els: Vec<Value>,
    foot: Vec<Value>,
}

fn text(v: &Value, o: &Options) -> Result<Text, String> {
    if v.as_array().is_some_and(|a| a.is_empty()) {
        return Ok(Text { src: String::new(), els: vec![], foot: vec![] });
    }
    let out = model::write_inline(v, o)?;
    // Only what stays on its line, as preprocessing leaves it.
    let src = pipe::preprocess(&out.src);
    if src.contains('\n') {
        return Err("line break".into());
    }
    Ok(Text { src, els: out.elements, foot: out.footnotes })
}

/// Puts the source into a context, giving the whole source and elements.
fn wrap(v: &Value, src: &str, els: Vec<Value>) -> Result<(String, Vec<Value>), String> {
    let mut s = String::new();
    let mut e = vec![];
    match v["pre"].as_u64().unwrap_or(0) {
        0 => {}
        1 => {
            s.push_str("before\n\n");
            e.push(paragraph(vec![json!({"element": "text", "data": "before"})]));
        }
        2 => {
            s.push_str("before\n");
            e.push(paragraph(vec![json!({"element": "text", "data": "before"})]));
        }
        _ => {
            s.push_str("+ head\n");
            e.push(json!({"element": "container", "data": {"type": {"header": {"level": 1, "has-toc": true}}, "attributes": {}, "elements": [{"element": "text", "data": "head"}]}}));
        }
    }
    s.push_str(src);
    e.extend(els);
    match v["post"].as_u64().unwrap_or(0) {
        0 => {}
        1 => {
            s.push_str("\n\nafter");
            e.push(paragraph(vec![json!({"element": "text", "data": "after"})]));
        }
        2 => {
            s.push_str("\nafter");
            e.push(paragraph(vec![json!({"element": "text", "data": "after"})]));
        }
        _ => {
            s.push_str("\n-----");
            e.push(json!({"element": "horizontal-rule"}));
        }
    }
    let c = |ty: &str, e: Vec<Value>| json!({"element": "container", "data": {"type": ty, "attributes": {}, "elements": e}});
    match v["in"].as_u64().unwrap_or(0) {
        0 => {}
        1 => {
            s = format!("[[div]]\n{s}\n[[/div]]");
            e = vec![c("div", e)];
        }
        2 => {
            s = format!("[[blockquote]]\n{s}\n[[/blockquote]]");
            e = vec![c("blockquote", e)];
        }
        3 => {
            s = format!("[[tabview]]\n[[tab t]]\n{s}\n[[/tab]]\n[[/tabview]]");
            e = vec![json!({"element": "tab-view", "data": [{"label": "t", "elements": e}]})];
        }
        _ => {
            s = format!("[[div]]\n[[div]]\n{s}\n[[/div]]\n[[/div]]");
            e = vec![c("div", vec![c("div", e)])];
        }
    }
    Ok((s, e))
}

/// Parses, compares everything with what was expected, and the HTML with the reference's.
fn judge(src: &str, mut want: Vec<Value>, foot: &[Value], stats: &mut Stats) -> Option<Verdict> {
    let env = Env::default();
    if pipe::preprocess(src) != src {
        return Some(Verdict::Skip);
    }
    let (tree, errors) = pipe::tree_of(src, &env);
    if let Some(e) = errors.first() {
        return Some(fail("error", format!("{e:?}\n  source: {src:?}")));
    }
    want.push(json!({"element": "footnote-block", "data": {"title": null, "hide": false}}));
    let j = pipe::json_of(&tree);
    if let Some(d) = diff("elements", &merged(&j["elements"]), &merged(&json!(want))) {
        return Some(fail("tree", format!("{d}\n  source: {src:?}")));
    }
    if let Some(d) = diff("footnotes", &merged(&j["footnotes"]), &merged(&json!(foot))) {
        return Some(fail("tree", format!("{d}\n  source: {src:?}")));
    }
    let html = pipe::html_of(&tree, &env);
    match refhtml::compare(&j, &env, &html.body) {
        Err(e) if e.contains("output too large") => None,
        Err(e) => Some(fail("html", format!("{e}\n  source: {src:?}"))),
        Ok(dom) => {
            stats.add("html elements", dom.all().len() as u64);
            None
        }
    }
}

fn items(r: &mut Rng, n: &mut usize, rich: bool) -> Value {
    if !rich {
        *n += 1;
        return json!([format!("w{n}w")]);
    }
    let mut g = ModelGen::new(4);
    g.inline(r, 2, false, false, false)
}

// P20

struct P20;

struct Line {
    depth: usize,
    ty: &'static str,
    els: Vec<Value>,
}

/// The lists which the lines make at a depth, all lines being at that depth or deeper.
fn lists(lines: &[Line], depth: usize) -> Vec<Value> {
    let mut out = vec![];
    let mut cur: Option<(&str, Vec<Value>)> = None;
    let close = |c: Option<(&str, Vec<Value>)>, out: &mut Vec<Value>| {
        if let Some((ty, items)) = c {
            out.push(json!({"element": "list", "data": {"type": ty, "items": items, "attributes": {}}}));
        }
    };
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        if l.depth == depth {
            if cur.as_ref().is_none_or(|c| c.0 != l.ty) {
                close(cur.take(), &mut out);
                cur = Some((l.ty, vec![]));
            }
            cur.as_mut().unwrap().1.push(json!({"item-type": "elements", "attributes": {}, "elements": l.els}));
            i += 1;
        } else {
            let mut j = i;
            while j < lines.len() && lines[j].depth > depth {
                j += 1;
            }
            // A list with no items of its own at this depth yet: at the top it has no type.
            let c = cur.get_or_insert_with(|| (if depth == 0 { "generic" } else { l.ty }, vec![]));
            for sub in lists(&lines[i..j], depth + 1) {
                let mut sub = sub;
                sub["item-type"] = json!("sub-list");
                c.1.push(sub);
            }
            i = j;
        }
    }
    close(cur, &mut out);
    out
}

/// The contents of a quote made of lines as deep as it or deeper.
fn quote(lines: &[Line], depth: usize) -> Value {
    let mut out = vec![];
    let mut par: Vec<Value> = vec![];
    let mut i = 0;
    while i < lines.len() {
        if lines[i].depth == depth {
            if !par.is_empty() {
                par.push(line_break());
            }
            par.extend(lines[i].els.iter().cloned());
            i += 1;
        } else {
            if !par.is_empty() {
                out.push(paragraph(std::mem::take(&mut par)));
            }
            let mut j = i;
            while j < lines.len() && lines[j].depth > depth {
                j += 1;
            }
            out.push(quote(&lines[i..j], depth + 1));
            i = j;
        }
    }
    if !par.is_empty() {
        out.push(paragraph(par));
    }
    json!({"element": "container", "data": {"type": "blockquote", "attributes": {}, "elements": out}})
}

impl Prop for P20 {
    fn id(&self) -> &'static str {
        "P20"
    }
    fn rule(&self) -> &'static str {
        "runs of list lines (every sequence of up to four lines over depths 0-3 and both markers, and random ones with depths up to 20 and any inline markup), of quote lines (every sequence of up to five over depths 1-4, random up to 30), and of definition lines, in several contexts; oracle: tree equal to that of a reference builder working from the markers, and HTML equal to the reference renderer's; non-trivial: two or more lines"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for n in 1..=4u32 {
            for k in 0..8usize.pow(n) {
                let mut x = k;
                let mut l = vec![];
                for i in 0..n {
                    l.push(json!({"d": x % 4, "m": if x % 8 < 4 { "*" } else { "#" }, "c": [format!("w{i}w")]}));
                    x /= 8;
                }
                out.push(json!({"k": "list", "l": l}));
            }
        }
        for n in 1..=5u32 {
            for k in 0..4usize.pow(n) {
                let mut x = k;
                let mut l = vec![];
                for i in 0..n {
                    l.push(json!({"d": 1 + x % 4, "c": [format!("w{i}w")]}));
                    x /= 4;
                }
                out.push(json!({"k": "quote", "l": l}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let kind = r.pick(&["list", "list", "list", "quote", "quote", "def"]);
        let many = r.chance(1, 400);
        let rich = r.chance(1, 3);
        let mut n = 0;
        let max = match kind {
            "quote" => r.pick(&[2, 3, 5, 30]),
            _ => r.pick(&[1, 2, 3, 5, 20]),
        };
        let rich = rich && !many;
        let count = if many { crate::gen::big::count(r) } else { r.range(1, if rich { 5 } else { 14 * t.scale() }) };
        let mut depth: usize = 0;
        let l: Vec<Value> = (0..count)
            .map(|_| {
                depth = match r.below(6) {
                    0 => r.below(max + 1),
                    1 | 2 => depth,
                    3 => depth.saturating_sub(1),
                    4 => depth.saturating_sub(r.range(1, 3)),
                    _ => (depth + 1).min(max),
                };
                let c = if r.chance(1, 25) { json!([]) } else { items(r, &mut n, rich) };
                match kind {
                    "list" => json!({"d": depth, "m": r.pick(&["*", "*", "#"]), "c": c}),
                    "quote" => json!({"d": depth.max(1), "c": if c == json!([]) { json!(["w"]) } else { c }, "tight": r.chance(1, 4)}),
                    _ => {
                        let rich = rich && r.coin();
                        json!({"key": items(r, &mut n, rich), "c": c, "s": r.below(3)})
                    }
                }
            })
            .collect();
        let mut v = json!({"k": kind, "l": l, "pre": r.pick(&[0, 0, 1, 2, 3]), "post": r.pick(&[0, 0, 1, 2, 3]), "in": r.pick(&[0, 0, 0, 1, 2, 3, 4])});
        if rich {
            v["sp"] = json!(r.below(1 << 20));
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let o = opts(v);
        let Some(l) = v["l"].as_array().filter(|l| !l.is_empty()) else { return Verdict::Skip };
        let mut src = String::new();
        let mut foot = vec![];
        let mut lines = vec![];
        let mut defs = vec![];
        let kind = v["k"].as_str().unwrap_or("");
        for (i, x) in l.iter().enumerate() {
            if i > 0 {
                src.push('\n');
            }
            let d = x["d"].as_u64().unwrap_or(0) as usize;
            let Ok(c) = text(&x["c"], &o) else { return Verdict::Skip };
            match kind {
                "list" => {
                    let ty = match x["m"].as_str() {
                        Some("*") => "bullet",
                        Some("#") => "numbered",
                        _ => return Verdict::Skip,
                    };
                    if d > 20 {
                        return Verdict::Skip;
                    }
                    src.push_str(&format!("{}{} {}", " ".repeat(d), x["m"].as_str().unwrap(), c.src));
                    foot.extend(c.foot);
                    lines.push(Line { depth: d, ty, els: c.els });
                }
                "quote" => {
                    if d == 0 || d > 30 || c.els.is_empty() {
                        return Verdict::Skip;
                    }
                    // Without a space between, the text must not continue the marker.
                    let tight = x["tight"] == true && c.src.starts_with(|c: char| c.is_ascii_alphanumeric());
                    src.push_str(&format!("{}{}{}", ">".repeat(d), if tight { "" } else { " " }, c.src));
                    foot.extend(c.foot);
                    lines.push(Line { depth: d - 1, ty: "", els: c.els });
                }
                "def" => {
                    let Ok(k) = text(&x["key"], &o) else { return Verdict::Skip };
                    // A checkbox would take the space before the colon.
                    if k.els.is_empty() || k.src.ends_with(' ') {
                        return Verdict::Skip;
                    }
                    let s = [" ", "  ", " "][x["s"].as_u64().unwrap_or(0).min(2) as usize];
                    src.push_str(&format!(":{s}{} :{s}{}", k.src, c.src));
                    foot.extend(k.foot);
                    foot.extend(c.foot);
                    defs.push(json!({"key_string": k.src, "key": k.els, "value": c.els}));
                }
                _ => return Verdict::Skip,
            }
        }
        let n = l.len();
        let els = match kind {
            "list" => {
                stats.add("list lines", n as u64);
                lists(&lines, 0)
            }
            "quote" => {
                stats.add("quote lines", n as u64);
                vec![quote(&lines, 0)]
            }
            _ => {
                stats.add("definition lines", n as u64);
                vec![json!({"element": "definition-list", "data": defs})]
            }
        };
        let Ok((src, els)) = wrap(v, &src, els) else { return Verdict::Skip };
        if let Some(f) = judge(&src, els, &foot, stats) {
            return f;
        }
        stats.add("depths changed", lines.windows(2).filter(|w| w[0].depth != w[1].depth).count() as u64);
        Verdict::Ok(n > 1)
    }
}

// P21

struct P21;

fn table_gen(r: &mut Rng, t: Tier, depth: usize) -> Value {
    let rich = r.chance(1, 3);
    let mut n = 0;
    let pipe = depth == 0 || r.chance(2, 3);
    let top = if rich { 3 } else { 5 * t.scale() };
    let many = if r.chance(1, 300) { r.range(1, 2) } else { 0 };
    let rich = rich && many == 0;
    let rows: Vec<Value> = (0..if many == 1 { crate::gen::big::few(r) } else { r.range(1, top) })
        .map(|_| {
            let cells: Vec<Value> = (0..if many == 2 { crate::gen::big::few(r) } else { r.range(1, top) })
                .map(|_| {
                    let c = if r.chance(1, 8) { json!([]) } else { items(r, &mut n, rich) };
                    let mut cell = json!({"c": c, "s": r.below(4), "span": if r.chance(2, 3) { 1 } else if r.chance(1, 60) { crate::gen::big::few(r) } else { r.range(1, 5) }});
                    if pipe {
                        cell["m"] = json!(r.pick(&["", "", "~", "<", "=", ">"]));
                    } else {
                        cell["h"] = json!(r.chance(1, 3));
                        if r.chance(1, 4) {
                            cell["a"] = json!({r.pick(&["class", "id", "style"]): r.pick(&["k", "a b", "x-1"])});
                        }
                        if r.chance(1, 10) {
                            cell["colspan"] = json!(r.pick(&["0", "x", "-1", "", "4294967296", "4294967295", "2", "07", "12", "255", "256", "1000", "65536"]));
                        }
                    }
                    cell
                })
                .collect();
            let mut row = json!({"cells": cells});
            if !pipe && r.chance(1, 6) {
                row["a"] = json!({"class": "r"});
            }
            row
        })
        .collect();
    let mut v = json!({"pipe": pipe, "rows": rows});
    if !pipe {
        if r.chance(1, 4) {
            v["a"] = json!({"style": "width: 100%"});
        }
        v["nl"] = json!(r.below(3));
        if depth > 1 && r.chance(1, 4) {
            let i = r.below(v["rows"].as_array().unwrap().len());
            let inner = table_gen(r, t, depth - 1);
            v["rows"][i]["cells"][0]["t"] = inner;
        }
    }
    v
}

fn attr_src(v: &Value) -> Option<String> {
    let mut s = String::new();
    if let Some(o) = v.as_object() {
        for (k, v) in o {
            if !["class", "id", "style"].contains(&k.as_str()) {
                return None;
            }
            let v = v.as_str()?;
            if v.contains(|c: char| !(c.is_ascii_alphanumeric() || " -:%".contains(c))) {
                return None;
            }
            s.push_str(&format!(" {k}=\"{v}\""));
        }
    }
    Some(s)
}

fn attr_json(v: &Value) -> Value {
    if v.is_object() {
        v.clone()
    } else {
        json!({})
    }
}

/// A table's source and element.
fn table(v: &Value, o: &Options, foot: &mut Vec<Value>, cells: &mut usize) -> Option<(String, Value)> {
    let rows = v["rows"].as_array().filter(|r| !r.is_empty())?;
    let pipe = v["pipe"] == true;
    let mut src = String::new();
    let mut out = vec![];
    let nl = ["\n", "", " \n "][v["nl"].as_u64().unwrap_or(0).min(2) as usize];
    if !pipe {
        src.push_str(&format!("[[table{}]]{nl}", attr_src(&v["a"])?));
    }
    for (i, row) in rows.iter().enumerate() {
        let cs = row["cells"].as_array().filter(|c| !c.is_empty())?;
        let mut got = vec![];
        if !pipe {
            src.push_str(&format!("[[row{}]]{nl}", attr_src(&row["a"])?));
        }
        for c in cs {
            *cells += 1;
            let mut t = text(&c["c"], o).ok()?;
            let span = c["span"].as_u64().filter(|n| (1..=40).contains(n))?;
            let (a, b) = [(" ", " "), ("", ""), ("  ", " "), (" ", "")][c["s"].as_u64().unwrap_or(0).min(3) as usize];
            if pipe {
                let m = c["m"].as_str()?;
                let align = match m {
                    "" | "~" => Value::Null,
                    "<" => json!("left"),
                    "=" => json!("center"),
                    ">" => json!("right"),
                    _ => return None,
                };
                src.push_str(&"||".repeat(span as usize));
                src.push_str(m);
                // The text must be apart from the marks.
                let a = if t.src.starts_with(|c: char| c.is_ascii_alphanumeric()) { a } else { " " };
                let b = if t.src.ends_with(|c: char| c.is_ascii_alphanumeric()) { b } else { " " };
                src.push_str(&format!("{a}{}{b}", t.src));
                got.push(json!({"header": m == "~", "column-span": span, "align": align, "attributes": {}, "elements": t.els}));
            } else {
                let n = if c["h"] == true { "hcell" } else { "cell" };
                let (colspan, want) = match c["colspan"].as_str() {
                    Some(s) => (format!(" colspan=\"{s}\""), s.parse::<u32>().ok().filter(|n| *n > 0).unwrap_or(1) as u64),
                    None if span > 1 => (format!(" colspan=\"{span}\""), span),
                    None => (String::new(), 1),
                };
                if c["colspan"].as_str().is_some_and(|s| s.contains(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))) {
                    return None;
                }
                if c["t"].is_object() {
                    // Another table within the cell.
                    let (s, e) = table(&c["t"], o, foot, cells)?;
                    t = Text { src: format!("\n{s}\n"), els: vec![e], foot: vec![] };
                }
                src.push_str(&format!("[[{n}{}{colspan}]]{a}{}{b}[[/{n}]]{nl}", attr_src(&c["a"])?, t.src));
                got.push(json!({"header": n == "hcell", "column-span": want, "align": null, "attributes": attr_json(&c["a"]), "elements": t.els}));
            }
            foot.extend(t.foot);
        }
        if pipe {
            src.push_str("||");
            if i + 1 < rows.len() {
                src.push('\n');
            }
        } else {
            src.push_str(&format!("[[/row]]{nl}"));
        }
        out.push(json!({"attributes": attr_json(&row["a"]), "cells": got}));
    }
    if !pipe {
        src.push_str("[[/table]]");
    }
    let attrs = if pipe { json!({"class": "wj-table"}) } else { attr_json(&v["a"]) };
    Some((src, json!({"element": "table", "data": {"attributes": attrs, "rows": out}})))
}

impl Prop for P21 {
    fn id(&self) -> &'static str {
        "P21"
    }
    fn rule(&self) -> &'static str {
        "random tables in || syntax (header and alignment marks, spans, empty cells, any spacing) and in table/row/cell/hcell blocks (attributes, colspan, nested tables of either syntax), with any inline markup in the cells, in several contexts; oracle: tree equal to the table written, cell by cell, and HTML equal to the reference renderer's; non-trivial: more than one cell"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 45_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let d = r.range(0, 2);
        let v = table_gen(r, t, d);
        json!({"t": v, "sp": r.below(1 << 20), "pre": r.pick(&[0, 0, 1, 2, 3]), "post": r.pick(&[0, 0, 1, 2, 3]), "in": r.pick(&[0, 0, 0, 1, 2, 3, 4])})
    }
    fn fixed(&self) -> Vec<Value> {
        // Every pair of kinds of cells next to and below each other.
        let kinds: Vec<(&str, u64)> = ["", "~", "<", "=", ">"].iter().flat_map(|m| (1..=3).map(move |s| (*m, s))).collect();
        let mut out = vec![];
        for (m, s) in &kinds {
            for (n, q) in &kinds {
                for e in 0..4 {
                    let cell = |m: &str, s: u64, e: bool, w: &str| json!({"c": if e { json!([]) } else { json!([w]) }, "m": m, "span": s, "s": 0});
                    let (a, b) = (cell(m, *s, e & 1 > 0, "w1w"), cell(n, *q, e & 2 > 0, "w2w"));
                    out.push(json!({"t": {"pipe": true, "rows": [{"cells": [a, b]}]}}));
                    out.push(json!({"t": {"pipe": true, "rows": [{"cells": [a]}, {"cells": [b]}]}}));
                }
            }
        }
        out
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let o = opts(v);
        let mut foot = vec![];
        let mut cells = 0;
        let Some((src, el)) = table(&v["t"], &o, &mut foot, &mut cells) else { return Verdict::Skip };
        let Ok((src, els)) = wrap(v, &src, vec![el]) else { return Verdict::Skip };
        if let Some(f) = judge(&src, els, &foot, stats) {
            return f;
        }
        stats.add("cells", cells as u64);
        stats.hit(if v["t"]["pipe"] == true { "pipe tables" } else { "block tables" });
        Verdict::Ok(cells > 1)
    }
}
