//! P27: parts of documents which don't affect each other.

use super::collect::toc_entries;
use super::errors::{CTX, UNITS};
use crate::gen::{corpus, model, model::ModelGen, model::Options, soup};
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};
use std::sync::OnceLock;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P27]
}

struct P27;

/// Openings whose ends are missing, and what would be ends.
const OPEN: &[(&str, &[&str])] = &[
    ("[[div]]\nx", &["div"]),
    ("[[div_]]\nx", &["div"]),
    ("x [[b]]x", &["b", "bold", "strong"]),
    ("x [[span_ class=\"k\"]]x", &["span"]),
    ("[[size 2em]]x", &["size"]),
    ("[[collapsible]]x", &["collapsible"]),
    ("[[collapsible folded=\"no\"]]\n\nx", &["collapsible"]),
    ("[[blockquote]]x", &["blockquote", "quote"]),
    ("[[a href=\"/x\"]]x", &["a", "anchor"]),
    ("[[=]]\nx", &["="]),
    ("[[iftags +tale]]x", &["iftags"]),
    ("[[iftags +zzz]]x", &["iftags"]),
    ("[[ifcategory +_default]]x", &["ifcategory"]),
    ("[[ruby]]x", &["ruby"]),
    ("[[rt]]x", &["rt", "rubytext"]),
    ("x[[footnote]]x", &["footnote"]),
    ("[[code]]\nx", &["code"]),
    ("[[code name=\"n1\"]]\nx", &["code"]),
    ("[[html]]\nx", &["html"]),
    ("[[math]]\nx", &["math"]),
    ("[[ul]]\n[[li]]x[[/li]]", &["ul"]),
    ("[[ol]]\n[[li]]x", &["ol", "li"]),
    ("[[li]]x", &["li"]),
    ("[[table]]\n[[row]][[cell]]x[[/cell]][[/row]]", &["table"]),
    ("[[table]]\n[[row]]\n[[cell]]x", &["table", "row", "cell"]),
    ("[[tabview]]\n[[tab x]]x[[/tab]]", &["tabview", "tabs"]),
    ("[[tabview]]\n[[tab x]]x", &["tabview", "tabs", "tab"]),
    ("[[bibliography]]\n: a : b", &["bibliography"]),
    ("[[module listpages]]\nx", &["module"]),
    ("[[hidden]]x", &["hidden"]),
    ("[[p]]x", &["p", "paragraph"]),
    ("[!-- x", &[]),
    ("x **x", &[]),
    ("x //x", &[]),
    ("x __x", &[]),
    ("x --x", &[]),
    ("x ^^x", &[]),
    ("x ,,x", &[]),
    ("x {{x", &[]),
    ("##red|x", &[]),
    ("@@x", &[]),
    ("@<x", &[]),
    ("[[[x", &[]),
    ("[[[x | y", &[]),
    ("[https://x.org y", &[]),
    ("[#k y", &[]),
    ("||x", &[]),
    ("||x||\n||y", &[]),
    (": x", &[]),
    ("[[$ x", &[]),
    ("[[x y=\"z", &[]),
    ("[[image x", &[]),
    ("[[div class=\"x\"", &[]),
    ("[[user x", &[]),
    ("{$x", &[]),
    ("((bibcite x", &[]),
    ("x [[/div", &[]),
];

/// Blocks around a document.
const AROUND: &[(&str, &str)] = &[
    ("[[div]]\n", "\n[[/div]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[=]]\n", "\n[[/=]]"),
    ("[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]"),
    ("[[div class=\"k\"]]\nx\n\n", "\n\ny\n[[/div]]"),
];

struct Part {
    src: String,
    open: bool,
    closers: &'static [&'static str],
    model: bool,
    errors: bool,
}

fn part(p: &Value) -> Option<Part> {
    let mut out = Part {
        src: String::new(),
        open: false,
        closers: &[],
        model: false,
        errors: false,
    };
    if let Some(u) = p["u"].as_u64() {
        let u = UNITS.get(u as usize)?;
        let c = CTX.get(p["c"].as_u64()? as usize)?;
        if !u.2.is_empty() {
            return None;
        }
        out.src = format!("{}{}{}", c.0, u.0, c.1);
    } else if let Some(o) = p["o"].as_u64() {
        let o = OPEN.get(o as usize)?;
        out.src = o.0.into();
        out.open = true;
        out.closers = o.1;
    } else if let Some(d) = p["d"].as_str() {
        out.src = d.into();
    } else {
        out.src = model::write(
            &p["m"],
            &Options {
                vary: true,
                seed: p["s"].as_u64()?,
                crlf: false,
            },
        )
        .ok()?
        .src;
        out.model = true;
    }
    out.src = pipe::preprocess(&out.src).trim_matches('\n').into();
    Some(out)
}

/// Whether there is something in a later part which ends what is open.
fn ends(open: &Part, later: &str) -> bool {
    let l = later.to_ascii_lowercase();
    open.closers.iter().any(|c| {
        l.match_indices("[[/").any(|(i, _)| {
            let name = l[i + 3..].trim_start();
            name.starts_with(c)
                && !name[c.len()..].starts_with(|ch: char| ch.is_ascii_alphanumeric())
        })
    }) || open.src.contains("[!--") && l.contains("--]")
        || open.src.contains("@<") && l.contains(">@")
}

#[derive(Default)]
struct Parsed {
    elements: Vec<Value>,
    auto: bool,
    toc: Vec<String>,
    lists: Vec<Vec<Value>>,
    errors: Vec<(usize, usize, String, String)>,
    limit: bool,
}

const LISTS: &[&str] = &["footnotes", "code-blocks", "html-blocks", "bibliographies"];

fn parse(src: &str, env: &Env) -> Result<Parsed, String> {
    let (tree, errors) = pipe::tree_of(src, env);
    let j = pipe::json_of(&tree);
    let mut p = Parsed {
        elements: j["elements"].as_array().cloned().unwrap_or_default(),
        ..Parsed::default()
    };
    let auto = json!({"element": "footnote-block", "data": {"title": null, "hide": false}});
    if p.elements.last() == Some(&auto) && !src.to_ascii_lowercase().contains("footnoteblock") {
        p.elements.pop();
        p.auto = true;
    }
    let mut toc = vec![];
    toc_entries(&j["table-of-contents"], &mut vec![], &mut 0, &mut toc)?;
    p.toc = toc.iter().map(|t| t.2.clone()).collect();
    for (i, t) in toc.iter().enumerate() {
        if t.1 != format!("#toc{i}") {
            return Err(format!(
                "entry {i} of the table of contents leads to {}",
                t.1
            ));
        }
    }
    if j["wikitext-len"].as_u64() != Some(src.len() as u64) {
        return Err(format!(
            "length {} instead of {}",
            j["wikitext-len"],
            src.len()
        ));
    }
    for l in LISTS {
        p.lists.push(j[*l].as_array().cloned().unwrap_or_default());
    }
    p.limit = errors
        .iter()
        .any(|e| format!("{:?}", e.kind()).contains("DepthExceeded"));
    p.errors = errors
        .iter()
        .map(|e| {
            (
                e.span().start,
                e.span().end,
                e.rule().to_string(),
                format!("{:?}", e.kind()),
            )
        })
        .collect();
    Ok(p)
}

/// Bibliographies have their number in the page.
fn shift(v: &mut Value, by: usize) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| shift(x, by)),
        Value::Object(o) => {
            if o.get("element").is_some_and(|e| e == "bibliography-block") {
                if let Some(i) = o.get_mut("data").and_then(|d| d.get_mut("index")) {
                    *i = json!(i.as_u64().unwrap_or(0) + by as u64);
                }
            }
            o.values_mut().for_each(|x| shift(x, by));
        }
        _ => {}
    }
}

/// What continues over blank lines.
fn joins(a: &[Value], b: &[Value]) -> bool {
    let (Some(a), Some(b)) = (a.last(), b.first()) else {
        return false;
    };
    let kind = |v: &Value| match v["element"].as_str() {
        Some("container") => format!("c {}", v["data"]["type"]),
        Some(e) => e.to_string(),
        None => String::new(),
    };
    let k = kind(a);
    k == kind(b)
        && (k == "list" || k == "definition-list" || k == "c \"blockquote\"" || k == "table")
}

/// Replaces an element by a list of elements.
fn put(v: &mut Value, what: &Value, by: &[Value]) -> bool {
    match v {
        Value::Array(a) => {
            if let Some(i) = a.iter().position(|x| x == what) {
                a.splice(i..i + 1, by.iter().cloned());
                return true;
            }
            a.iter_mut().any(|x| put(x, what, by))
        }
        Value::Object(o) => o.values_mut().any(|x| put(x, what, by)),
        _ => false,
    }
}

/// The units which don't wait for anything.
fn closed() -> &'static Vec<usize> {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| {
        (0..UNITS.len())
            .filter(|u| UNITS[*u].2.is_empty())
            .collect()
    })
}

/// The inputs of fixtures which parse without errors.
fn sound() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| {
        let ok = |s: &&String| {
            pipe::preprocess(s) == **s
                && s.len() < 3000
                && parse(s, &Env::default()).is_ok_and(|p| p.errors.is_empty())
        };
        corpus().iter().filter(ok).cloned().collect()
    })
}

fn same_kind(a: &str, b: &str) -> bool {
    let end = |k: &str| k == "EndOfInput" || k == "RuleFailed";
    a == b || (end(a) && end(b))
}

fn check(src: &str, what: &str, got: &Parsed, want: &Parsed, exact: bool) -> Option<Verdict> {
    let at = |a: &[Value], b: &[Value]| {
        a.iter()
            .zip(b)
            .position(|(x, y)| x != y)
            .unwrap_or(a.len().min(b.len()))
    };
    if got.elements != want.elements {
        let i = at(&got.elements, &want.elements);
        return Some(fail(
            "elements",
            format!(
                "{what}: element {i} is {:?} instead of {:?}\n  source: {src:?}",
                got.elements.get(i).map(|v| v.to_string()),
                want.elements.get(i).map(|v| v.to_string())
            ),
        ));
    }
    if got.toc != want.toc {
        return Some(fail(
            "toc",
            format!(
                "{what}: headings {:?} instead of {:?}\n  source: {src:?}",
                got.toc, want.toc
            ),
        ));
    }
    for (k, l) in LISTS.iter().enumerate() {
        if got.lists[k] != want.lists[k] {
            let i = at(&got.lists[k], &want.lists[k]);
            return Some(fail(
                l,
                format!(
                    "{what}: {l} {i} is {:?} instead of {:?}\n  source: {src:?}",
                    got.lists[k].get(i).map(|v| v.to_string()),
                    want.lists[k].get(i).map(|v| v.to_string())
                ),
            ));
        }
    }
    let pick = |p: &Parsed| -> Vec<(usize, usize, String, String)> {
        p.errors
            .iter()
            .filter(|e| exact || e.3 == "NoRulesMatch")
            .cloned()
            .collect()
    };
    let (g, w) = (pick(got), pick(want));
    let i = g
        .iter()
        .zip(&w)
        .position(|(x, y)| {
            (x.2 != y.2 && y.2 != "page")
                || (x.0, x.1) != (y.0, y.1) && !(y.0 == y.1 && x.0 >= y.0)
                || !same_kind(&x.3, &y.3)
        })
        .unwrap_or(g.len().min(w.len()));
    if i < g.len() || i < w.len() {
        return Some(fail(
            "errors",
            format!(
                "{what}: error {i} is {:?} instead of {:?}\n  source: {src:?}",
                g.get(i),
                w.get(i)
            ),
        ));
    }
    None
}

impl Prop for P27 {
    fn id(&self) -> &'static str {
        "P27"
    }
    fn rule(&self) -> &'static str {
        "well-formed documents, failing markup, unfinished openings and inputs of the fixtures put one after the other (blank line, or rule), and in blocks; oracle: elements, headings, footnotes, code, html, bibliographies and errors of the whole = those of the parts parsed on their own, one after the other, moved; non-trivial: two parts, or a block around"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 30_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for o in 0..OPEN.len() {
            for b in [
                "x",
                "* a\n* b",
                "> q",
                "+ h",
                "x[[footnote]]f[[/footnote]]",
                "[[code]]\nc\n[[/code]]",
                "**b**",
                ": k : v",
                "||a||b||",
                "[[ul]]\n[[li]]a[[/li]]\n[[/ul]]",
                "[[div]]\nx\n[[/div]]",
                "= x",
                "[[footnoteblock]]",
                "[[html]]\nx\n[[/html]]",
                "[[bibliography]]\n: a : b\n[[/bibliography]]\n\n((bibcite a))",
                "[[code name=\"n1\"]]\nc\n[[/code]]",
            ] {
                out.push(json!({"parts": [{"o": o}, {"d": b}], "sep": [0], "in": []}));
                out.push(json!({"parts": [{"o": o}, {"d": b}], "sep": [1], "in": []}));
                out.push(json!({"parts": [{"d": b}, {"o": o}, {"d": b}], "sep": [0, 0], "in": []}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> Value {
        let n = r.range(1, 5);
        let (mut parts, mut sep, mut around) = (vec![], vec![], vec![]);
        for _ in 0..n {
            parts.push(match r.below(8) {
                0 | 1 => {
                    let u = r.pick(closed());
                    let c = r.below(CTX.len());
                    json!({"u": u, "c": c})
                }
                2 => json!({"o": r.below(OPEN.len())}),
                3 => json!({"d": r.pick(sound())}),
                _ => {
                    let n = r.range(1, 8);
                    let mut p = json!({"d": "w"});
                    for _ in 0..6 {
                        let m = ModelGen::new(n).doc(r);
                        let s = r.next() >> 12;
                        if model::write(
                            &m,
                            &Options {
                                vary: true,
                                seed: s,
                                crlf: false,
                            },
                        )
                        .is_ok()
                        {
                            p = json!({"m": m, "s": s});
                            break;
                        }
                    }
                    p
                }
            });
            sep.push(r.below(2));
        }
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                around.push(r.below(AROUND.len()));
            }
        }
        json!({"parts": parts, "sep": sep, "in": around, "env": Env::random(r)})
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let env = serde_json::from_value::<Env>(v["env"].clone()).unwrap_or_default();
        let Some(list) = v["parts"].as_array() else {
            return Verdict::Skip;
        };
        let mut parts = vec![];
        for p in list {
            match part(p) {
                // These continue the line.
                Some(p) if !p.src.is_empty() && !p.src.trim_end().ends_with(" _") => parts.push(p),
                _ => return Verdict::Skip,
            }
        }
        let opens = parts.iter().filter(|p| p.open).count();
        if parts.is_empty() || opens > 3 {
            return Verdict::Skip;
        }
        for (i, p) in parts.iter().enumerate() {
            if p.open && parts[i + 1..].iter().any(|l| ends(p, &l.src)) {
                return Verdict::Skip;
            }
        }
        // Errors of the rules at the end of the text differ from those within.
        let exact = opens == 0 && list.iter().all(|p| p["d"].is_null());
        let mut src = String::new();
        let mut want = Parsed {
            lists: vec![vec![]; LISTS.len()],
            auto: true,
            ..Parsed::default()
        };
        let hr = json!({"element": "horizontal-rule"});
        for (i, p) in parts.iter_mut().enumerate() {
            let got = match parse(&p.src, &env) {
                Ok(g) => g,
                Err(e) => return fail("part", format!("{e}\n  source: {:?}", p.src)),
            };
            // What fails may be completed by what follows.
            if got.limit || list[i]["d"].is_string() && !got.errors.is_empty() {
                return Verdict::Skip;
            }
            // Names of code blocks are unique in a page.
            if got.lists[1].iter().any(|c| {
                !c["name"].is_null() && want.lists[1].iter().any(|w| w["name"] == c["name"])
            }) {
                return Verdict::Skip;
            }
            p.errors = !got.errors.is_empty();
            let ruled = v["sep"][i.wrapping_sub(1)] == 1;
            if i > 0 {
                src.push_str(if ruled { "\n\n-----\n\n" } else { "\n\n" });
                if ruled {
                    want.elements.push(hr.clone());
                } else if joins(&want.elements, &got.elements)
                    || p.src.starts_with([' ', '\t'])
                        && want.elements.last().is_some_and(|e| e["element"] == "list")
                {
                    return Verdict::Skip;
                }
            }
            let by = want.lists[3].len();
            let base = src.len();
            let mut elements = Value::Array(got.elements);
            shift(&mut elements, by);
            want.elements
                .extend(elements.as_array().cloned().unwrap_or_default());
            want.auto &= got.auto;
            want.toc.extend(got.toc);
            for (k, l) in got.lists.into_iter().enumerate() {
                let mut l = Value::Array(l);
                shift(&mut l, by);
                want.lists[k].extend(l.as_array().cloned().unwrap_or_default());
            }
            want.errors.extend(
                got.errors
                    .into_iter()
                    .map(|e| (e.0 + base, e.1 + base, e.2, e.3)),
            );
            src.push_str(&p.src);
        }
        if soup::risky(&src) && opens > 0 {
            return Verdict::Skip;
        }
        if pipe::preprocess(&src) != src {
            return Verdict::Skip;
        }
        let whole = match parse(&src, &env) {
            Ok(g) => g,
            Err(e) => return fail("whole", format!("{e}\n  source: {src:?}")),
        };
        if whole.limit {
            return Verdict::Skip;
        }
        if whole.auto != want.auto {
            return fail(
                "footnote block",
                format!("{} instead of {}\n  source: {src:?}", whole.auto, want.auto),
            );
        }
        if let Some(f) = check(&src, "one after the other", &whole, &want, exact) {
            return f;
        }
        stats.add("parts", parts.len() as u64);
        stats.add("unfinished openings", opens as u64);
        stats.add("errors", whole.errors.len() as u64);
        stats.add("elements", whole.elements.len() as u64);
        // In blocks.
        let around: Vec<usize> = v["in"]
            .as_array()
            .into_iter()
            .flatten()
            .filter_map(|i| i.as_u64().map(|i| i as usize))
            .collect();
        if around.is_empty() {
            return Verdict::Ok(parts.len() > 1);
        }
        let (mut pre, mut post) = (String::new(), String::new());
        for a in &around {
            let Some(a) = AROUND.get(*a) else {
                return Verdict::Skip;
            };
            pre.push_str(a.0);
            post.insert_str(0, a.1);
            let name: &[&str] = if a.0.contains("blockquote") {
                &["blockquote", "quote"]
            } else if a.0.contains("=") {
                &["=", "div"]
            } else if a.0.contains("tab") {
                &["tabview", "tabs", "tab"]
            } else {
                &["div", "collapsible"]
            };
            // Ends within what is unfinished would be ends of these.
            let mixed = parts.iter().any(|p| {
                !p.model
                    && (p.open || p.errors)
                    && name
                        .iter()
                        .any(|n| p.src.to_ascii_lowercase().contains(&format!("[[/{n}")))
            });
            if mixed || opens > 0 && parts.iter().any(|p| ends(p, &post)) {
                return Verdict::Ok(parts.len() > 1);
            }
            if parts
                .iter()
                .enumerate()
                .any(|(i, _)| list[i]["u"].is_u64() && parts[i].src.contains("[[/"))
            {
                return Verdict::Ok(parts.len() > 1);
            }
        }
        let mark = "QqQmarkQqQ";
        let mut shell = match parse(&format!("{pre}{mark}{post}"), &env) {
            Ok(s) if s.errors.is_empty() => s,
            Ok(s) => {
                return fail(
                    "shell",
                    format!("errors {:?}\n  source: {pre}{mark}{post}", s.errors),
                )
            }
            Err(e) => return fail("shell", e),
        };
        let single = json!({"element": "container", "data": {"type": "paragraph", "attributes": {}, "elements": [{"element": "text", "data": mark}]}});
        let mut list = Value::Array(std::mem::take(&mut shell.elements));
        if !put(&mut list, &single, &want.elements) {
            return fail(
                "shell",
                format!("no paragraph in {list}\n  source: {pre}{mark}{post}"),
            );
        }
        want.elements = list.as_array().cloned().unwrap_or_default();
        for e in &mut want.errors {
            e.0 += pre.len();
            e.1 += pre.len();
        }
        let src = format!("{pre}{src}{post}");
        let whole = match parse(&src, &env) {
            Ok(g) => g,
            Err(e) => return fail("whole", format!("{e}\n  source: {src:?}")),
        };
        if whole.limit {
            return Verdict::Skip;
        }
        if let Some(f) = check(&src, "in blocks", &whole, &want, exact) {
            return f;
        }
        stats.add("blocks around", around.len() as u64);
        Verdict::Ok(true)
    }
}
