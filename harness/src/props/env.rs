//! P14 (isolation of user ids) and P15 (features that are disabled stay so).

use super::basic::hostile;
use super::wellformed::diff;
use crate::gen::model::{self, ModelGen, Options};
use crate::gen::soup::{self, Cfg};
use crate::pipe::{self, Env};
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use serde_json::{json, Value};
use std::borrow::Cow;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P14, &P15]
}

// P14

struct P14;

/// Everything that takes an id, with `%` for it.
const CARRIERS: &[&str] = &[
    "[[div id=\"%\"]]\nx\n[[/div]]",
    "[[div_ id=\"%\" class=\"k\"]]\nx\n[[/div]]",
    "[[span id=\"%\"]]x[[/span]]",
    "[[span_ id=\"%\"]]x[[/span]]",
    "[[b id=\"%\"]]x[[/b]]",
    "[[i ID=\"%\"]]x[[/i]]",
    "[[u id=\"%\"]]x[[/u]]",
    "[[s Id = \"%\"]]x[[/s]]",
    "[[sup id=\"%\"]]x[[/sup]]",
    "[[sub id=\"%\"]]x[[/sub]]",
    "[[tt id=\"%\"]]x[[/tt]]",
    "[[mark id=\"%\"]]x[[/mark]]",
    "[[ins id=\"%\"]]x[[/ins]]",
    "[[del id=\"%\"]]x[[/del]]",
    "[[hidden id=\"%\"]]x[[/hidden]]",
    "[[invisible id=\"%\"]]x[[/invisible]]",
    "[[blockquote id=\"%\"]]\nx\n[[/blockquote]]",
    "[[p id=\"%\"]]\nx\n[[/p]]",
    "[[collapsible id=\"%\" show=\"a\"]]\nx\n[[/collapsible]]",
    "[[a id=\"%\" href=\"/k\"]]x[[/a]]",
    "[[a_ id=\"%\"]]x[[/a]]",
    "[[*a id=\"%\" href=\"#k\"]]x[[/a]]",
    "[[image /k.png id=\"%\"]]",
    "[[=image https://e.com/k.png id=\"%\" link=\"p\"]]",
    "[[iframe https://e.com/ id=\"%\"]]",
    "[[checkbox id=\"%\"]] x",
    "[[*checkbox id=\"%\"]] x",
    "[[radio k id=\"%\"]] x",
    "[[*radio k id=\"%\"]] x",
    "[[ul id=\"%\"]]\n[[li]]x[[/li]]\n[[/ul]]",
    "[[ol]]\n[[li id=\"%\"]]x[[/li]]\n[[/ol]]",
    "[[table id=\"%\"]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]",
    "[[table]]\n[[row id=\"%\"]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]",
    "[[table]]\n[[row]]\n[[cell id=\"%\"]]x[[/cell]]\n[[/row]]\n[[/table]]",
    "[[table]]\n[[row]]\n[[hcell id=\"%\" colspan=\"2\"]]x[[/hcell]]\n[[/row]]\n[[/table]]",
    "[[ruby id=\"%\"]]x[[rt]]y[[/rt]][[/ruby]]",
    "[[ruby]]x[[rt id=\"%\"]]y[[/rt]][[/ruby]]",
    "[[toc id=\"%\"]]\n+ h",
    "[[# %]]",
    "[[target %]]",
    "[[anchortarget %]]",
];

/// Contexts around a carrier.
const AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("[[div]]\n", "\n[[/div]]"),
    ("* ", ""),
    ("[[footnote]]", "[[/footnote]]"),
    ("||", "||"),
    (": k : ", ""),
    ("[[iftags +tale]]", "[[/iftags]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[tabview]]\n[[tab T]]\n", "\n[[/tab]]\n[[/tabview]]"),
    ("[[bibliography]]\n: k : ", "\n[[/bibliography]]"),
    ("> ", ""),
    ("+ ", ""),
];

const IDS: &[&str] = &[
    "k", "u-k", "U-k", "u-", "u", "u_k", "-u-k", "a b", " a  b ", "toc0", "wj-toc", "u-u-k", "é", "a\u{a0}b", "footnote-1", "u-a b u-c d", "uk",
    "u k", "k u-", "ũ-k", "a,b", "#k", "wj-id-0123456789abcdef", "x\u{2003}u-y", "",
    " ",
];

fn isolated(s: &str) -> String {
    s.split(char::is_whitespace)
        .filter(|w| !w.is_empty())
        .map(|w| match w.strip_prefix("u-") {
            Some(_) => w.to_string(),
            None => format!("u-{w}"),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// The tree with all its user ids isolated, and these ids.
fn isolate_tree(v: &Value, ids: &mut Vec<String>) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| isolate_tree(x, ids)).collect()),
        Value::Object(o) => {
            let anchor = v["element"] == "anchor-name";
            Value::Object(
                o.iter()
                    .map(|(k, x)| {
                        let y = if k == "attributes" && x["id"].is_string() {
                            let mut m = x.clone();
                            ids.push(x["id"].as_str().unwrap().into());
                            m["id"] = json!(isolated(x["id"].as_str().unwrap()));
                            m
                        } else if anchor && k == "data" {
                            let s = x.as_str().unwrap_or("");
                            ids.push(s.into());
                            json!(isolated(s))
                        } else {
                            isolate_tree(x, ids)
                        };
                        (k.clone(), y)
                    })
                    .collect(),
            )
        }
        _ => v.clone(),
    }
}

impl Prop for P14 {
    fn id(&self) -> &'static str {
        "P14"
    }
    fn rule(&self) -> &'static str {
        "41 constructs taking ids in 12 contexts with 26 odd id strings (all of them), and hostile and well-formed documents with ids put in; oracle: without isolation the ids in the tree are those written, with it the tree is the same with each word prefixed once, and in the HTML every id with a user's mark is prefixed, and the two renderings have no generated random id in common; non-trivial: a user id is in the tree"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for (i, _) in CARRIERS.iter().enumerate() {
            for (j, _) in AROUND.iter().enumerate() {
                for id in IDS {
                    out.push(json!({"carrier": i, "in": j, "id": id}));
                }
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let mut s = match r.below(4) {
            0 => {
                let mut g = ModelGen::new(12 * t.scale());
                let d = g.doc(r);
                match model::write(&d, &Options { vary: true, seed: r.next() % 1000, crlf: false }) {
                    Ok(o) => o.src,
                    Err(_) => hostile(r, t),
                }
            }
            1 => hostile(r, t),
            _ => soup::soup(r, &Cfg { size: 8 * t.scale(), budget: 4, ..Cfg::default() }),
        };
        if soup::risky(&s) {
            s = soup::chars(r, 30);
        }
        // Ids for classes, and more anchors.
        let mut out = String::new();
        for part in s.split_inclusive("class=\"k\"") {
            if part.ends_with("class=\"k\"") && r.chance(3, 4) {
                out.push_str(&part[..part.len() - 9]);
                out.push_str(&format!("id=\"{}\"", r.s(IDS)));
            } else {
                out.push_str(part);
            }
        }
        for _ in 0..r.below(3) {
            let c = r.s(CARRIERS).replace('%', &r.s(IDS));
            let (a, b) = r.pick(AROUND);
            if r.coin() {
                out = format!("{out}\n\n{a}{c}{b}");
            } else {
                out = format!("{a}{c}{b}\n\n{out}");
            }
        }
        let mut env = Env::default();
        if r.chance(1, 3) {
            env = Env::random(r);
        }
        json!({"s": out, "env": serde_json::to_value(env).unwrap()})
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let mut env: Env = match v.get("env") {
            None => Env::default(),
            Some(e) => match serde_json::from_value(e.clone()) {
                Ok(e) => e,
                Err(_) => return Verdict::Skip,
            },
        };
        let written = v["id"].as_str();
        let src = match (v["carrier"].as_u64(), v["in"].as_u64(), written) {
            (Some(i), Some(j), Some(id)) => {
                let (Some(c), Some((a, b))) = (CARRIERS.get(i as usize), AROUND.get(j as usize)) else { return Verdict::Skip };
                // Names are single words.
                if c.contains("[[# ") || c.contains("target") {
                    if id.is_empty() || id.contains([' ', ',', '#']) {
                        return Verdict::Skip;
                    }
                }
                if (a.starts_with(['*', '|', ':', '>', '+']) || b.starts_with("\n[[/bib")) && c.contains('\n') {
                    return Verdict::Skip;
                }
                format!("{a}{}{b}", c.replace('%', id))
            }
            _ => match v["s"].as_str() {
                Some(s) => s.to_string(),
                None => return Verdict::Skip,
            },
        };
        let src = pipe::preprocess(&src);
        if pipe::uses_clock(&src) {
            return Verdict::Skip;
        }
        env.isolate = false;
        let (t_off, e_off) = pipe::tree_of(&src, &env);
        let j_off = pipe::json_of(&t_off);
        let on = Env { isolate: true, ..env.clone() };
        let (t_on, e_on) = pipe::tree_of(&src, &on);
        let j_on = pipe::json_of(&t_on);
        let mut ids = vec![];
        let want = isolate_tree(&j_off, &mut ids);
        if let Some(d) = diff("", &j_on, &want) {
            return fail("isolated", format!("{d}\n  source: {src:?}"));
        }
        if e_off != e_on {
            return fail("errors", format!("{e_on:?} instead of {e_off:?}\n  source: {src:?}"));
        }
        if let Some(id) = written {
            if ids.is_empty() {
                return fail("written", format!("the id {id:?} is nowhere in the tree\n  source: {src:?}"));
            }
            if ids.iter().any(|i| i != id) {
                return fail("written", format!("{ids:?} instead of {id:?} without isolation\n  source: {src:?}"));
            }
        }
        let mut generated_ids: Vec<std::collections::HashSet<String>> = vec![];
        for (t, j, env) in [(&t_off, &j_off, &env), (&t_on, &j_on, &on)] {
            let html = pipe::html_of(t, env);
            match refhtml::compare(j, env, &html.body) {
                Err(e) if e.contains("output too large") => {}
                Err(e) => return fail("html", format!("{e}\n  source: {src:?}")),
                Ok(dom) => {
                    let random = |id: &&str| id.len() == 22 && id.starts_with("wj-id-") && id[6..].bytes().all(|b| b.is_ascii_alphanumeric()) && !ids.iter().any(|u| u.contains(*id));
                    generated_ids.push(dom.all().iter().filter_map(|e| e.attr("id")).filter(random).map(str::to_string).collect());
                    // Those ids of the page that come from the user.
                    if env.isolate {
                        for e in dom.all() {
                            if let Some(id) = e.attr("id") {
                                let user = ids.iter().any(|u| isolated(u) == id || u == id);
                                let generated = id.starts_with("wj-") || id.starts_with("toc") || id.starts_with("fnref") || id.starts_with("fn") || id.starts_with("bib") || id.starts_with("equation");
                                let prefixed = id.split_whitespace().all(|w| w.starts_with("u-"));
                                if !prefixed && !generated && !id.is_empty() {
                                    return fail("html", format!("the id {id:?} is not prefixed\n  source: {src:?}"));
                                }
                                if user {
                                    stats.hit("ids in html");
                                }
                            }
                        }
                    }
                }
            }
        }
        if let [a, b] = &generated_ids[..] {
            // Both could be on the same page.
            if let Some(id) = a.intersection(b).next() {
                return fail("generated", format!("two renderings both have the generated id {id:?}\n  source: {src:?}"));
            }
            stats.add("generated ids", a.len() as u64);
        }
        if pipe::text_of(&t_off, &env) != pipe::text_of(&t_on, &on) {
            return fail("text", format!("isolation changes the text\n  source: {src:?}"));
        }
        stats.add("user ids", ids.len() as u64);
        stats.add("user ids changed", ids.iter().filter(|i| **i != isolated(i)).count() as u64);
        Verdict::Ok(!ids.is_empty())
    }
}

// P15

struct P15;

/// Uses of what page syntax enables.
const PAGE_SYNTAX: &[&str] = &[
    "[[toc]]",
    "[[f<toc]]",
    "[[f>toc]]",
    "[[TOC]]",
    "[[ toc ]]",
    "[[toc style=\"color: red\"]]",
    "[[module Backlinks]]",
    "[[module Backlinks page=\"p\"]]",
    "[[module Categories]]",
    "[[module Join]]",
    "[[module Join button-text=\"x\"]]",
    "[[module PageTree]]",
    "[[module Rate]]",
    "[[MODULE rate]]",
    "[[module654 Rate]]",
    "[[module CSS]]\na {b: c}\n[[/module]]",
    "[[module css]]\na {b: c}\n[[/MODULE]]",
    "[[module ListPages]]\n%%title%%\n[[/module]]",
    "[[include some-page]]",
    "[[include :site:page a=b | c=d]]",
    "[[include-elements some-page]]",
    "[[include-elements some-page a=\"b\"]]",
    "[[include-elements :site:page]]",
    "[[style]]\na {b: c}\n[[/style]]",
    "[[module]]",
    "[[module NoSuch]]",
    "[[*module Rate]]",
    "[[module_ Rate]]",
    "[[toc_]]",
];

const LOCAL: &[&str] = &[
    "[[image zqf.png]]",
    "[[image /zqf.png]]",
    "[[image /p/zqf.png]]",
    "[[image /s/p/zqf.png alt=\"x\"]]",
    "[[=image zqf.png link=\"p\"]]",
    "[[f>image zqf.png]]",
    "[[IMAGE zqf.png class=\"k\"]]",
    "[[image zqf.png link=\"*#k\"]]",
    "[[image https://e.com/zq.png]]",
    "[[f<image HTTP://e.com/zq.png]]",
    "[[image ]]",
    "[[image :s:p:zqf.png]]",
    "[[image ../zqf.png]]",
    "[[image //zqf.png]]",
];

/// Replaces a word in any case by another of its length.
fn rename(s: &str) -> String {
    let low = s.to_ascii_lowercase();
    let mut b: Vec<u8> = s.bytes().collect();
    for (word, at, by) in [("module", 0, b'z'), ("toc", 0, b'z'), ("include", 3, b'z')] {
        let mut p = 0;
        while let Some(i) = low[p..].find(word) {
            b[p + i + at] = by;
            p += i + word.len();
        }
    }
    String::from_utf8(b).unwrap_or_default()
}

fn rename_all(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(rename(s)),
        Value::Array(a) => Value::Array(a.iter().map(rename_all).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), rename_all(x))).collect()),
        _ => v.clone(),
    }
}

fn no_breaks(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().filter(|x| x["element"] != "line-break").map(no_breaks).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), no_breaks(x))).collect()),
        // Labels of the table of contents have their breaks, too.
        Value::String(s) => json!(s.replace('\n', "")),
        _ => v.clone(),
    }
}

struct Watch<'a>(&'a std::cell::Cell<u32>);

impl<'t> Includer<'t> for Watch<'_> {
    type Error = ();
    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, ()> {
        self.0.set(self.0.get() + 1);
        Ok(includes.iter().map(|i| FetchedPage { page_ref: i.page_ref().clone(), content: Some(Cow::Borrowed("GOT")) }).collect())
    }
    fn no_such_include(&mut self, _page: &PageRef<'t>) -> Result<Cow<'t, str>, ()> {
        self.0.set(self.0.get() + 1);
        Ok(Cow::Borrowed("NONE"))
    }
}

/// Kinds of elements that page syntax gives, anywhere in the tree.
fn page_elements(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| page_elements(x, out)),
        Value::Object(o) => {
            if let Some(e) = v["element"].as_str() {
                if matches!(e, "module" | "table-of-contents" | "include" | "style") {
                    out.push(e.into());
                }
            }
            o.values().for_each(|x| page_elements(x, out));
        }
        _ => {}
    }
}

impl Prop for P15 {
    fn id(&self) -> &'static str {
        "P15"
    }
    fn rule(&self) -> &'static str {
        "uses of page syntax (29) and of local files (14) in 12 contexts, and hostile and well-formed documents with such uses put in, in every mode; oracle: without page syntax no such element is anywhere in the tree, the includer is not called, and the tree is the one where these blocks' names are unknown ones; documents not using it have equal trees, errors and HTML under both settings; without local paths no file is referred to and only images of files differ; non-trivial: a disabled feature was used"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 22_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for (a, b) in AROUND {
            for c in PAGE_SYNTAX.iter().chain(LOCAL) {
                for (x, y) in [("", ""), ("a ", " b"), ("**", "**"), ("a\n", "\nb")] {
                    out.push(json!({"s": format!("{a}{x}{c}{y}{b}")}));
                }
                for mode in ["page", "draft", "forum-post", "direct-message", "list"] {
                    out.push(json!({"s": format!("{a}{c}{b}"), "mode": mode}));
                }
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let mut s = match r.below(4) {
            0 => {
                let mut g = ModelGen::new(12 * t.scale());
                let d = g.doc(r);
                match model::write(&d, &Options { vary: true, seed: r.next() % 1000, crlf: false }) {
                    Ok(o) => o.src,
                    Err(_) => hostile(r, t),
                }
            }
            1 => hostile(r, t),
            _ => soup::soup(r, &Cfg { size: 8 * t.scale(), budget: 4, ..Cfg::default() }),
        };
        if soup::risky(&s) {
            s = soup::chars(r, 30);
        }
        for _ in 0..r.below(4) {
            let list = if r.chance(2, 3) { PAGE_SYNTAX } else { LOCAL };
            let c = r.s(list);
            match r.below(3) {
                0 => {
                    let (a, b) = r.pick(AROUND);
                    s = format!("{s}\n\n{a}{c}{b}");
                }
                1 => s = format!("{c}\n\n{s}"),
                _ => {
                    let mut i = r.below(s.len() + 1);
                    while !s.is_char_boundary(i) {
                        i -= 1;
                    }
                    s.insert_str(i, &c);
                }
            }
        }
        let mut v = json!({"s": s});
        if r.chance(1, 3) {
            v["env"] = serde_json::to_value(Env::random(r)).unwrap();
        }
        if r.chance(1, 6) {
            v["mode"] = json!(r.s(&["draft", "forum-post", "direct-message", "list"]));
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(s) = v["s"].as_str() else { return Verdict::Skip };
        let base: Env = match v.get("env") {
            None => Env::default(),
            Some(e) => match serde_json::from_value(e.clone()) {
                Ok(e) => e,
                Err(_) => return Verdict::Skip,
            },
        };
        let mut base = base;
        if let Some(m) = v["mode"].as_str() {
            // The settings this mode itself has.
            base.mode = m.into();
            for layout in [ftml::layout::Layout::Wikijump, ftml::layout::Layout::Wikidot] {
                let real = ftml::settings::WikitextSettings::from_mode(
                    match m {
                        "page" => ftml::settings::WikitextMode::Page,
                        "draft" => ftml::settings::WikitextMode::Draft,
                        "forum-post" => ftml::settings::WikitextMode::ForumPost,
                        "direct-message" => ftml::settings::WikitextMode::DirectMessage,
                        _ => ftml::settings::WikitextMode::List,
                    },
                    layout,
                );
                let posts = matches!(m, "forum-post" | "direct-message");
                let has = [real.enable_page_syntax, real.allow_local_paths, real.use_true_ids, real.use_include_compatibility, real.isolate_user_ids];
                if has != [!posts, !posts, m == "page", false, false] || real.layout != layout {
                    return fail("mode", format!("mode {m} has page syntax, local paths, true IDs, compatible includes and isolation: {has:?}"));
                }
            }
        }
        let src = pipe::preprocess(s);
        if pipe::uses_clock(&src) {
            return Verdict::Skip;
        }
        let mut used = false;
        // Includes.
        {
            let calls = std::cell::Cell::new(0);
            let env = Env { page_syntax: false, ..base.clone() };
            match ftml::include(s, &env.settings(), Watch(&calls), || ()) {
                Ok((t, p)) if t == s && p.is_empty() && calls.get() == 0 => {}
                x => return fail("include", format!("{x:?} with {} calls\n  source: {s:?}", calls.get())),
            }
        }
        // Page syntax.
        let off = Env { page_syntax: false, ..base.clone() };
        let on = Env { page_syntax: true, ..base.clone() };
        let (t_off, e_off) = pipe::tree_of(&src, &off);
        let (t_on, e_on) = pipe::tree_of(&src, &on);
        let (j_off, j_on) = (pipe::json_of(&t_off), pipe::json_of(&t_on));
        let mut found = vec![];
        page_elements(&j_off["elements"], &mut found);
        for k in ["footnotes", "bibliographies"] {
            page_elements(&j_off[k], &mut found);
        }
        if !found.is_empty() {
            return fail("page syntax", format!("{found:?}\n  source: {src:?}"));
        }
        let mut there = vec![];
        page_elements(&j_on["elements"], &mut there);
        for k in ["footnotes", "bibliographies"] {
            page_elements(&j_on[k], &mut there);
        }
        stats.add("page elements when enabled", there.len() as u64);
        let unsupported = e_off.iter().filter(|e| format!("{:?}", e.kind()) == "NotSupportedMode").count();
        stats.add("unsupported", unsupported as u64);
        used |= !there.is_empty() || unsupported > 0;
        let words = ["module", "toc", "include"];
        // (What a date shows on hovering depends on the current time.)
        let low = src.to_ascii_lowercase();
        let mentions = words.iter().any(|w| low.contains(w));
        let h_off = pipe::html_of(&t_off, &off);
        if !mentions {
            let h_on = pipe::html_of(&t_on, &on);
            if j_on != j_off || e_on != e_off {
                return fail("other syntax", format!("{:?}\n  source: {src:?}", diff("", &j_off, &j_on)));
            }
            if !low.contains("date") && pipe::normalize_ids(&h_on.body) != pipe::normalize_ids(&h_off.body) {
                return fail("other syntax", format!("HTML differs\n  source: {src:?}"));
            }
            stats.hit("documents without page syntax");
        } else if !low.contains("autocap") && !low.contains("autocom") && !low.contains("autocor") {
            // As blocks nobody knows (attributes named auto… would be renamed, too).
            let renamed = rename(&src);
            let (t2, e2) = pipe::tree_of(&renamed, &off);
            let j2 = pipe::json_of(&t2);
            // A line break before a block that takes those around it is dropped, whether or not
            // it can be used; an unknown one doesn't.
            if let Some(d) = diff("", &no_breaks(&rename_all(&j_off)), &no_breaks(&rename_all(&j2))) {
                return fail("as unknown", format!("{d}\n  source: {src:?}\n  unknown: {renamed:?}"));
            }
            let spans = |l: &[ftml::parsing::ParseError]| l.iter().map(|e| if e.rule().starts_with("block") { None } else { Some((e.token(), e.span())) }).collect::<Vec<_>>();
            if spans(&e_off) != spans(&e2) {
                return fail("as unknown", format!("errors {e_off:?} instead of {e2:?}\n  source: {src:?}"));
            }
            stats.hit("compared with unknown names");
        }
        // Local paths.
        let near = Env { local: true, ..base.clone() };
        let far = Env { local: false, ..base };
        let (tn, en) = pipe::tree_of(&src, &near);
        let (tf, ef) = pipe::tree_of(&src, &far);
        let (jn, jf) = (pipe::json_of(&tn), pipe::json_of(&tf));
        if jn != jf || en != ef {
            return fail("local", format!("{:?}\n  source: {src:?}", diff("", &jf, &jn)));
        }
        let files = jn.to_string().matches("\"type\":\"file").count();
        stats.add("local images", files as u64);
        let (hn, hf) = (pipe::html_of(&tn, &near), pipe::html_of(&tf, &far));
        for (h, e) in [(&hn, &near), (&hf, &far)] {
            match refhtml::compare(&jn, e, &h.body) {
                Err(e) if e.contains("output too large") => {}
                Err(x) => return fail("html", format!("{x}\n  source: {src:?}\n  local paths {}", e.local)),
                Ok(dom) => {
                    let n = dom.all().iter().filter(|x| x.attr("src").is_some_and(|s| s.contains(".wjfiles.com/"))).count();
                    if !e.local && n > 0 && !src.contains("wjfiles") {
                        return fail("local", format!("{n} images of files\n  source: {src:?}"));
                    }
                    if e.local {
                        stats.add("files shown", n as u64);
                    }
                }
            }
        }
        if files == 0 && !low.contains("date") && pipe::normalize_ids(&hn.body) != pipe::normalize_ids(&hf.body) {
            return fail("local", format!("HTML differs without any file\n  source: {src:?}"));
        }
        used |= files > 0;
        Verdict::Ok(used)
    }
}
