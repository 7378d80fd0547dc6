//! P06: no body text is lost, doubled or moved. Documents are sequences of markup tokens,
//! numbered words and marks, intact or damaged; the monitors follow every word (and every token
//! shown literally) from the source to the tree, the text rendering and the visible HTML.

use super::basic::{child_lists, get_env};
use crate::html::{El, Node};
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P06, &P07]
}

/// Opening and closing tokens of inline constructs.
const INLINE: &[(&str, &str)] = &[
    ("**", "**"), ("//", "//"), ("__", "__"), ("--", "--"), ("^^", "^^"), (",,", ",,"), ("{{", "}}"), ("##red|", "##"),
    ("[[span]]", "[[/span]]"), ("[[b]]", "[[/b]]"), ("[[i]]", "[[/i]]"), ("[[u]]", "[[/u]]"), ("[[s]]", "[[/s]]"), ("[[sup]]", "[[/sup]]"),
    ("[[sub]]", "[[/sub]]"), ("[[tt]]", "[[/tt]]"), ("[[mark]]", "[[/mark]]"), ("[[ins]]", "[[/ins]]"), ("[[del]]", "[[/del]]"),
    ("[[size 2em]]", "[[/size]]"), ("[[a href=\"/k\"]]", "[[/a]]"), ("[[footnote]]", "[[/footnote]]"), ("[[iftags +tale]]", "[[/iftags]]"),
    ("[[ifcategory -zzz]]", "[[/ifcategory]]"), ("@@", "@@"), ("((", "))"), ("[[", "]]"), ("[[[page|", "]]]"), ("[http://x.com/ ", "]"), ("[#a ", "]"),
    ("[*/page ", "]"), ("\"", "\""), ("[[span_]]", "[[/span]]"), ("{", "}"), ("<", ">"), ("[", "]"), ("(", ")"), ("[[[", "]]]"),
];

/// Opening and closing tokens of blocks on lines of their own.
const BLOCKS: &[(&str, &str)] = &[
    ("[[div]]", "[[/div]]"), ("[[div_]]", "[[/div]]"), ("[[div class=\"k\"]]", "[[/div]]"), ("[[blockquote]]", "[[/blockquote]]"),
    ("[[collapsible]]", "[[/collapsible]]"), ("[[=]]", "[[/=]]"), ("[[<]]", "[[/<]]"), ("[[code]]", "[[/code]]"), ("[[ul]]", "[[/ul]]"), ("[[ol]]", "[[/ol]]"),
    ("[[table]]", "[[/table]]"), ("[[tabview]]", "[[/tabview]]"), ("[[iftags tale]]", "[[/iftags]]"), ("[[p]]", "[[/p]]"), ("[[footnote]]", "[[/footnote]]"),
];

/// Parts that only make sense within their block.
const PARTS: &[(&str, &str)] = &[
    ("[[li]]", "[[/li]]"), ("[[li_]]", "[[/li]]"), ("[[row]]", "[[/row]]"), ("[[cell]]", "[[/cell]]"), ("[[hcell]]", "[[/hcell]]"), ("[[tab t]]", "[[/tab]]"),
    ("[[ruby]]", "[[/ruby]]"), ("[[rt]]", "[[/rt]]"),
];

const LINE: &[&str] = &[
    "* ", "# ", " * ", " # ", "  * ", "> ", ">> ", "+ ", "++ ", "+++* ", "= ", "|| ", "||~ ", "||= ", "|||| ", " || ", "||", ": ", " : ", " :", ":", "||> ", "||< ", "-----", "~~~~", "[[toc]]", "[[lines 2]]",
    "[[footnoteblock]]", "[[module rate]]", "[[checkbox]] ", "[[# a]]", "[[eref a]]", "[[image a.png]]", "[[user]]", "]]", "[[/", "[[foo]]", "[[/foo]]", "[[lines x]]",
];

const GAPS: &[&str] = &[" ", "\n", "\n\n", "\n\n\n", " _\n", "  ", "\t"];
const MARKS: &[&str] = &["!", "?", ";", "%", "é", "€", "~", "=", "-", "/", "_", "@", "#", "|", "*", "^", ",", "&", "'", "`", "."];

fn known(t: &str) -> bool {
    let pair = |l: &[(&str, &str)]| l.iter().any(|(a, b)| *a == t || *b == t);
    pair(INLINE) || pair(BLOCKS) || pair(PARTS) || LINE.contains(&t) || GAPS.contains(&t) || MARKS.contains(&t) || is_word(t)
}

fn is_word(t: &str) -> bool {
    t.len() > 2 && t.starts_with('w') && t.ends_with('w') && t[1..t.len() - 1].bytes().all(|b| b.is_ascii_digit())
}

/// The numbered words of a text, and the marks which mean nothing anywhere.
fn atoms(s: &str) -> Vec<String> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < s.len() {
        if b[i] == b'w' {
            let mut j = i + 1;
            while j < s.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < s.len() && b[j] == b'w' {
                out.push(s[i..=j].to_string());
                i = j + 1;
                continue;
            }
        }
        let c = s[i..].chars().next().unwrap();
        if "?%é€".contains(c) {
            out.push(c.to_string());
        }
        i += c.len_utf8();
    }
    out
}

#[derive(Default)]
struct Pieces {
    /// Text of the body: shown (false: not), in order; a footnote's contents are spliced in.
    all: Vec<(String, Where)>,
    notes: usize,
    counts: BTreeMap<String, i64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Where {
    Body,
    Note,
    Hidden,
}

impl Pieces {
    fn put(&mut self, s: &str, w: Where) {
        self.all.push((s.to_string(), w));
    }

    fn list(&mut self, l: &[Value], tree: &Value, w: Where) {
        for e in l {
            self.one(e, tree, w);
        }
    }

    fn one(&mut self, e: &Value, tree: &Value, w: Where) {
        let d = &e["data"];
        let name = e["element"].as_str().unwrap_or("?");
        if name != "text" {
            self.put("\u{1}", Where::Hidden);
        }
        match name {
            "text" | "raw" | "email" => self.put(d.as_str().unwrap_or(""), w),
            "container" => {
                let t = match &d["type"] {
                    Value::String(s) => s.clone(),
                    Value::Object(m) => {
                        if let Some(l) = m.get("header").and_then(|h| h["level"].as_str().and_then(|s| s.parse().ok()).or(h["level"].as_i64())) {
                            *self.counts.entry("levels".into()).or_default() += l;
                        }
                        m.keys().next().cloned().unwrap_or_default()
                    }
                    _ => String::new(),
                };
                *self.counts.entry(t).or_default() += 1;
                self.list(d["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), tree, w);
            }
            "color" => {
                *self.counts.entry("color".into()).or_default() += 1;
                self.put(d["color"].as_str().unwrap_or(""), Where::Hidden);
                self.list(d["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), tree, w);
            }
            "link" => {
                *self.counts.entry("link".into()).or_default() += 1;
                // A target is no body text unless it is shown in place of a label.
                let link = d["link"].as_str().or(d["link"]["page"].as_str()).unwrap_or("");
                self.put(d["link"]["site"].as_str().unwrap_or(""), Where::Hidden);
                let url = d["label"]["url"].as_str();
                let shown = d["label"]["text"].as_str();
                if let Some(t) = shown {
                    self.put(link, Where::Hidden);
                    self.put(d["extra"].as_str().unwrap_or(""), Where::Hidden);
                    self.put(t, w);
                } else if let Some(t) = url.filter(|t| *t != link) {
                    // Without the category, which is part of the target only.
                    let full = format!("{link}{}", d["extra"].as_str().unwrap_or(""));
                    match full.rfind(t) {
                        Some(i) => {
                            self.put(&full[..i], Where::Hidden);
                            self.put(t, w);
                            self.put(&full[i + t.len()..], Where::Hidden);
                        }
                        None => self.put(t, w),
                    }
                } else {
                    self.put(url.unwrap_or(link), w);
                    self.put(d["extra"].as_str().unwrap_or(""), Where::Hidden);
                }
            }
            "list" => {
                *self.counts.entry("list".into()).or_default() += 1;
                for i in d["items"].as_array().into_iter().flatten() {
                    self.put("\u{1}", Where::Hidden);
                    if i["item-type"] == "sub-list" {
                        self.one(i, tree, w);
                    } else {
                        self.list(i["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), tree, w);
                    }
                }
            }
            "anchor-name" => {
                *self.counts.entry(name.into()).or_default() += 1;
                self.put(d.as_str().unwrap_or(""), Where::Hidden);
            }
            "code" => self.put(d["contents"].as_str().unwrap_or(""), w),
            "footnote" => {
                let n = self.notes;
                self.notes += 1;
                let c = tree["footnotes"][n].as_array().cloned().unwrap_or_default();
                self.list(&c, tree, Where::Note);
            }
            "tab-view" => {
                for t in d.as_array().into_iter().flatten() {
                    self.put("\u{1}", Where::Hidden);
                    self.put(t["label"].as_str().unwrap_or(""), w);
                    self.put("\u{1}", Where::Hidden);
                    self.list(t["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), tree, w);
                }
            }
            _ => {
                *self.counts.entry(name.into()).or_default() += 1;
                for l in child_lists(e) {
                    self.put("\u{1}", Where::Hidden);
                    self.list(l, tree, w);
                }
            }
        }
        if name != "text" {
            self.put("\u{1}", Where::Hidden);
        }
    }

    fn text(&self, want: impl Fn(Where) -> bool) -> String {
        self.all.iter().filter(|(s, w)| want(*w) || s == "\u{1}").map(|(s, _)| s.as_str()).collect()
    }
}

/// Counts known tokens in a text, longest match first.
fn counts(s: &str) -> BTreeMap<&'static str, i64> {
    static ALL: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v: Vec<&'static str> = vec![];
        for (a, b) in INLINE.iter().chain(BLOCKS).chain(PARTS) {
            v.extend([*a, *b]);
        }
        v.extend(LINE.iter().filter(|s| s.starts_with("[[")));
        // Holding characters which are other tokens elsewhere.
        v.extend(["http://x.com/", "-----"]);
        v.retain(|s| s.len() > 1);
        v.sort_by_key(|s| (std::cmp::Reverse(s.len()), *s));
        v.dedup();
        v
    });
    let mut out = BTreeMap::new();
    let mut i = 0;
    while i < s.len() {
        match all.iter().find(|t| s[i..].starts_with(**t)) {
            Some(t) => {
                *out.entry(*t).or_default() += 1;
                i += t.len();
            }
            None => i += s[i..].chars().next().unwrap().len_utf8(),
        }
    }
    out
}

/// The visible text of the body, and that of each footnote list.
fn visible(e: &El, body: &mut String, notes: &mut Vec<String>) {
    if e.has_class("wj-footnote-ref") || e.attr("id") == Some("wj-toc") || e.has_class("wj-toc") || e.name == "script" || e.name == "style" {
        return;
    }
    if e.has_class("wj-footnote-list") {
        let mut list = String::new();
        for k in &e.kids {
            match k {
                Node::Text(t) => list.push_str(t),
                Node::El(x) => visible(x, &mut list, notes),
            }
        }
        notes.push(list);
        return;
    }
    for k in &e.kids {
        match k {
            Node::Text(t) => body.push_str(t),
            Node::El(x) => {
                body.push('\u{1}');
                visible(x, body, notes);
                body.push('\u{1}');
            }
        }
    }
}

fn same(what: &str, got: &[String], want: &[String], src: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: word {i} is {:?} instead of {:?}\n  source: {src:?}\n  got:  {}\n  want: {}",
        got.get(i), want.get(i), got.join(" "), want.join(" ")
    ))
}

struct Gen {
    n: usize,
    openers: usize,
    out: Vec<String>,
}

impl Gen {
    fn put(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn word(&mut self, r: &mut Rng) {
        self.n += 1;
        let w = format!("w{}w", self.n);
        self.put(&w);
        if r.chance(1, 8) {
            self.put(r.pick(MARKS));
        }
    }
    fn inline(&mut self, r: &mut Rng, depth: usize) {
        for i in 0..r.range(1, 3) {
            if i > 0 {
                self.put(if r.chance(1, 10) { r.pick(GAPS) } else { " " });
            }
            match r.below(if depth == 0 { 3 } else { 6 }) {
                0..=2 => self.word(r),
                3 if r.chance(1, 4) => {
                    self.put("[[ruby]]");
                    self.word(r);
                    self.put("[[rt]]");
                    self.inline(r, depth - 1);
                    self.put("[[/rt]]");
                    self.put("[[/ruby]]");
                }
                3 if r.chance(1, 6) => {
                    self.put(r.pick(LINE));
                    self.put(" ");
                    self.word(r);
                }
                _ => {
                    let (a, b) = r.pick(INLINE);
                    self.put(a);
                    self.inline(r, depth - 1);
                    self.put(b);
                }
            }
        }
    }
    fn block(&mut self, r: &mut Rng, depth: usize) {
        match r.below(if depth == 0 { 5 } else { 8 }) {
            0 => self.inline(r, 2),
            1 | 2 => {
                // Lines of lists, quotes, headings and so on.
                let kind = r.below(5);
                for i in 0..if r.chance(1, 300) { crate::gen::big::few(r) } else { r.range(1, 4) } {
                    if i > 0 {
                        self.put("\n");
                    }
                    match kind {
                        0 => self.put(r.pick(&["* ", "# ", " * ", " # ", "  * "])),
                        1 => self.put(r.pick(&["> ", ">> "])),
                        2 => self.put(r.pick(&["+ ", "++ ", "+++* ", "= "])),
                        3 => {
                            for _ in 0..r.range(1, 3) {
                                self.put(r.pick(&["|| ", "||~ ", "||= ", "|||| ", " || ", "||"]));
                                self.inline(r, 2);
                            }
                            if !r.chance(1, 6) {
                                self.put(r.pick(&[" || ", "||", "|| "]));
                            }
                            continue;
                        }
                        _ => {
                            self.put(": ");
                            self.inline(r, 1);
                            self.put(" : ");
                        }
                    }
                    self.inline(r, 2);
                }
            }
            3 => self.inline(r, 3),
            4 => {
                self.put(r.pick(LINE));
                if r.coin() {
                    self.inline(r, 1);
                }
            }
            _ => {
                let (a, b) = r.pick(BLOCKS);
                self.put(a);
                if !r.chance(1, 8) {
                    self.put("\n");
                }
                let part: Option<(&str, &str)> = match a {
                    "[[ul]]" | "[[ol]]" => Some(r.pick(&PARTS[..2])),
                    "[[tabview]]" => Some(PARTS[5]),
                    "[[table]]" => Some(PARTS[2]),
                    _ => None,
                };
                for i in 0..r.range(1, 3) {
                    if i > 0 {
                        self.put(r.pick(&["\n", "\n\n", "\n"]));
                    }
                    if let Some((p, q)) = part {
                        self.put(p);
                        if r.coin() {
                            self.put("\n");
                        }
                        if p == "[[row]]" {
                            for _ in 0..r.range(1, 2) {
                                let (c, d) = r.pick(&PARTS[3..5]);
                                self.put(c);
                                if r.coin() {
                                    self.inline(r, 1);
                                } else {
                                    self.put("\n");
                                    self.block(r, depth - 1);
                                    self.put("\n");
                                }
                                self.put(d);
                            }
                        } else if r.coin() {
                            self.inline(r, 1);
                        } else {
                            self.block(r, depth - 1);
                        }
                        if r.coin() {
                            self.put("\n");
                        }
                        self.put(q);
                    } else {
                        self.block(r, depth - 1);
                    }
                }
                if !r.chance(1, 8) {
                    self.put("\n");
                }
                self.put(b);
            }
        }
    }
}

fn generate(r: &mut Rng, t: Tier) -> Vec<String> {
    let mut g = Gen { n: 0, openers: 0, out: vec![] };
    for i in 0..r.range(1, 3 + t.scale()) {
        if i > 0 {
            g.put(r.pick(&["\n\n", "\n\n", "\n"]));
        }
        let d = r.range(0, 2 + t.scale() / 2);
        g.block(r, d);
    }
    let mut v = g.out;
    let _ = g.openers;
    // Damage.
    for _ in 0..r.pick(&[0, 0, 1, 1, 2, 3]) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            2 if !is_word(&v[i]) => {
                let x = v[i].clone();
                let j = r.below(v.len());
                v.insert(j, x);
            }
            3 => v.insert(i, r.pick(GAPS).into()),
            _ => {
                let (a, b) = match r.below(4) {
                    0 => r.pick(BLOCKS),
                    1 => r.pick(PARTS),
                    _ => r.pick(INLINE),
                };
                v.insert(i, if r.coin() { a } else { b }.into());
            }
        }
    }
    v
}

// P06

struct P06;

impl Prop for P06 {
    fn id(&self) -> &'static str {
        "P06"
    }
    fn rule(&self) -> &'static str {
        "sequences of numbered words, marks and markup tokens (styles, links, raw text, blocks and their parts, lists, quotes, tables, headings, definition lists, unknown and half-open blocks), nested properly and then damaged at up to three places; oracle: the words of the source are, in order and once each, those of the tree (footnotes spliced in), of the text rendering and of the visible HTML plus the footnote list; each token consumed rather than shown literally belongs to a construct in the tree; non-trivial: markup and at least two words"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        // Every pair of constructs, each intact, unclosed or closed only.
        let mut out = vec![];
        let all: Vec<&(&str, &str)> = INLINE.iter().chain(BLOCKS).chain(PARTS).collect();
        for (a, b) in all.iter().map(|p| **p) {
            for (c, d) in all.iter().map(|p| **p) {
                out.push(json!({"toks": ["w1w", " ", a, "w2w", c, "w3w", d, "w4w", b, " ", "w5w"]}));
                out.push(json!({"toks": ["w1w", a, "\n", "w2w", c, "\n", "w3w", "\n", b, "w4w", "\n\n", d, "w5w"]}));
                out.push(json!({"toks": [a, "\n", "w1w", c, "w2w", "\n\n", b, "w4w", d, " ", "w5w"]}));
            }
            for l in LINE {
                out.push(json!({"toks": [a, "w1w", "\n", l, "w2w", "\n", l, "w3w", "\n", b, "w4w"]}));
                out.push(json!({"toks": [l, "w1w", a, "w2w", b, "w3w", " ", l, "w4w", "\n\n", "w5w"]}));
                out.push(json!({"toks": [a, l, "w1w", " ", "w2w", "\n", "w3w", b, " ", l, "\n", "w4w"]}));
                out.push(json!({"toks": [a, "\n", l, "w1w", "\n", b, "\n", "w2w", " ", l]}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let v = generate(r, t);
        let mut x = json!({ "toks": v });
        if r.chance(1, 5) {
            let e = Env { page_syntax: r.coin(), local: r.coin(), isolate: r.coin(), layout: r.s(&["wikijump", "wikidot"]), mode: r.s(&["page", "list", "forum-post"]), ..Env::default() };
            x["env"] = serde_json::to_value(e).unwrap();
        }
        x
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(toks) = v["toks"].as_array() else { return Verdict::Skip };
        let toks: Option<Vec<&str>> = toks.iter().map(|t| t.as_str()).collect();
        let Some(toks) = toks else { return Verdict::Skip };
        if !toks.iter().all(|t| known(t)) || toks.iter().filter(|t| t.starts_with("[[") && !t.starts_with("[[/")).count() > 14 {
            return Verdict::Skip;
        }
        let Some(env) = get_env(v) else { return Verdict::Skip };
        let src = pipe::preprocess(&toks.concat());
        let words = atoms(&src);
        {
            let mut s: Vec<&String> = words.iter().filter(|w| w.starts_with('w')).collect();
            s.sort();
            if s.windows(2).any(|w| w[0] == w[1]) {
                return Verdict::Skip;
            }
        }
        // Markup that hides its contents, or which is not what the tokens suggest.
        if ["[!--", "[[$", "@<", ">@", "[[[!", "[##", "[*##"].iter().any(|s| src.contains(s)) {
            return Verdict::Skip;
        }
        // "]]" followed by "]" doesn't end a tag: what follows is still within its head.
        if src.matches("]]]").count() != toks.iter().filter(|t| **t == "]]]").count() || src.contains("]]]]") {
            return Verdict::Skip;
        }
        let (tree, _) = pipe::tree_of(&src, &env);
        let j = pipe::json_of(&tree);
        let mut p = Pieces::default();
        p.list(j["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), &j, Where::Body);
        let all = p.text(|_| true);
        let check = || -> Result<(), String> {
            same("tree", &atoms(&all), &words, &src)?;
            let body = atoms(&p.text(|w| w == Where::Body));
            let notes = atoms(&p.text(|w| w == Where::Note));
            let text = pipe::text_of(&tree, &env);
            same("text", &atoms(&text), &body, &src)?;
            let html = pipe::html_of(&tree, &env);
            let dom = crate::html::parse_body(&html.body).map_err(|e| format!("html: {e}\n  source: {src:?}"))?;
            let (mut b, mut n) = (String::new(), vec![]);
            visible(&dom, &mut b, &mut n);
            same("html", &atoms(&b), &body, &src)?;
            if n.is_empty() && !notes.is_empty() && !j.to_string().contains("\"hide\":true") {
                return Err(format!("no footnote list\n  source: {src:?}"));
            }
            for n in n {
                same("html footnotes", &atoms(&n), &notes, &src)?;
            }
            Ok(())
        };
        if let Err(e) = check() {
            return fail("words", e);
        }
        // Tokens.
        let (s, l) = (counts(&src), counts(&all));
        let gone = |t: &str| s.get(t).copied().unwrap_or(0) - l.get(t).copied().unwrap_or(0);
        let c = |k: &str| p.counts.get(k).copied().unwrap_or(0);
        let err = |what: String| fail("tokens", format!("{what}\n  source: {src:?}\n  shown: {all:?}\n  {j}"));
        let opens: BTreeMap<&str, Vec<&str>> = {
            let mut m: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
            for (a, b) in INLINE.iter().chain(BLOCKS).chain(PARTS) {
                if a.starts_with("[[") && b.starts_with("[[/") {
                    let e = m.entry(b).or_default();
                    if !e.contains(a) {
                        e.push(a);
                    }
                }
            }
            m
        };
        // A construct which isn't made of whole tokens ("[[div" … "]]") makes their number unclear.
        let odd = ["]]", "[[/", "[[", "[", "{", "[[[", "*", "/", "_", "-", "^", ",", "#", "@"].iter().any(|t| toks.contains(t))
            || src.contains("]]]]")
            || src.contains("[[[[")
            || src.matches("]]]").count() != toks.iter().filter(|t| **t == "]]]").count()
            || src.matches("[[[").count() != toks.iter().filter(|t| t.starts_with("[[[")).count();
        if !odd {
            for (close, open) in &opens {
                let o: i64 = open.iter().map(|t| gone(t)).sum();
                if o != gone(close) {
                    return err(format!("{o} opening tags {open:?}, but {} closing tags {close} were consumed", gone(close)));
                }
                stats.add("tag pairs consumed", o as u64);
            }
            for (open, close, sym, kind) in [
                ("[[b]]", "", "**", "bold"), ("[[i]]", "", "//", "italics"), ("[[u]]", "", "__", "underline"), ("[[sup]]", "", "^^", "superscript"), ("[[sub]]", "", ",,", "subscript"),
                ("[[tt]]", "}}", "{{", "monospace"), ("[[mark]]", "", "", "mark"), ("[[ins]]", "", "", "insertion"), ("[[del]]", "", "", "deletion"), ("[[size 2em]]", "", "", "size"),
                ("[[footnote]]", "", "", "footnote"), ("[[collapsible]]", "", "", "collapsible"), ("[[code]]", "", "", "code"), ("[[ruby]]", "", "", "ruby"), ("[[rt]]", "", "", "ruby-text"),
                ("[[a href=\"/k\"]]", "", "", "anchor"), ("[[checkbox]] ", "", "", "check-box"), ("[[# a]]", "", "", "anchor-name"), ("[[eref a]]", "", "", "equation-reference"), ("[[image a.png]]", "", "", "image"),
                ("[[toc]]", "", "", "table-of-contents"), ("[[module rate]]", "", "", "module"),
            ] {
                let mut blocks = gone(open);
                if kind == "code" || kind == "footnote" {
                    blocks = gone(open).max(0);
                }
                let mut have = c(kind);
                match kind {
                    "code" | "footnote" => have = if kind == "footnote" { p.notes as i64 } else { count_kind(&j, "code") },
                    // The space after a checkbox is part of it, but not kept literally in all places.
                    "check-box" => continue,
                    _ => {}
                }
                if kind == "module" && !env.page_syntax {
                    // Unsupported markup stays literal.
                }
                // A symbol next to itself is lexed in more than one way.
                let g = if sym.is_empty() { 0 } else { gone(sym) };
                if close.is_empty() {
                    if g % 2 != 0 {
                        return err(format!("{g} of {sym} consumed"));
                    }
                    if blocks + g / 2 != have {
                        return err(format!("{have} {kind}, but {blocks} {open} and {g} {sym} were consumed"));
                    }
                } else if g != gone(close) || blocks + g != have {
                    return err(format!("{have} {kind}, but {blocks} {open}, {g} {sym} and {} {close} were consumed", gone(close)));
                }
                stats.add(&format!("seen {kind}"), have as u64);
            }
            for t in ["[[foo]]", "[[/foo]]", "[[lines x]]", "[[user]]"] {
                if gone(t) != 0 {
                    return err(format!("{} of {t} vanished", gone(t)));
                }
            }
        }
        stats.add("words followed", words.len() as u64);
        Verdict::Ok(words.len() > 1 && toks.iter().any(|t| !is_word(t) && !GAPS.contains(t)))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a color's name, a link's target and the document outline are no body text"]
    }
}

fn count_kind(j: &Value, kind: &str) -> i64 {
    let mut n = 0;
    for e in super::tree::elements(j) {
        n += (e["element"] == kind) as i64;
    }
    for f in j["footnotes"].as_array().into_iter().flatten() {
        if let Some(l) = f.as_array() {
            let mut v = vec![];
            super::tree::flatten(l, &mut v);
            n += v.iter().filter(|e| e["element"] == kind).count() as i64;
        }
    }
    n
}

// P07

struct P07;

/// What surrounds a construct on one line.
const AROUND: &[(&str, &str)] = &[
    ("", ""), ("w1w ", " w2w"), ("w1w", "w2w"), ("**", "**"), ("//w1w ", "//"), ("* ", ""), ("|| ", " ||"), ("|| w1w || ", " || w2w ||"), ("> ", ""), (">> w1w ", ""),
    (": w1w : ", ""), ("+ ", ""), ("[[span]]", "[[/span]]"), ("[[mark]]w1w ", " w2w[[/mark]]"), ("[[footnote]]", "[[/footnote]]"), ("= ", ""), ("**w1w ", ""), ("[[b]]", "[[/i]]"),
    ("[[div]]\n", "\n[[/div]]"), ("[[div]]w1w ", " w2w"), ("[[iftags +tale]]", "[[/iftags]]"), ("##red|", "##"), ("{{", "}}"), ("[[size 2em]]", "[[/size]]"), ("__w1w--", "--__"),
    ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n[[/tabview]]"), ("[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]"), ("[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[collapsible]]\nw1w\n\n", "\n[[/collapsible]]"), ("[[ruby]]", "[[rt]]w2w[[/rt]][[/ruby]]"), ("[[a href=\"/k\"]]", "[[/a]]"), ("[[=]]\n", "\n[[/=]]"), ("# w1w\n # ", "\n# w2w"), (",,", ",,"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"), ("w1w\n", "\nw2w"), ("w1w\n\n", "\n\nw2w"), ("[!-- x --]", "[!-- y --]"), ("@@w1w@@ ", " @@w2w@@"), ("((", "))"), ("[[[page|w1w]]] ", ""),
];

/// What surrounds a block that is written on lines of its own.
const AROUND_BLOCK: &[(&str, &str)] = &[
    ("", ""), ("w1w\n\n", "\n\nw2w"), ("w1w\n", "\nw2w"), ("[[div]]\n", "\n[[/div]]"), ("[[div]]\nw1w\n\n", "\n\nw2w\n[[/div]]"), ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"), ("[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]"), ("[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n[[/tabview]]"), ("w1w[[footnote]]\n", "\n[[/footnote]]"), ("**w1w\n", "\nw2w"), ("[[div]]\n", "\nw1w"), ("* w1w\n", "\n* w2w"), ("[[=]]\n", "\n[[/=]]"),
    ("[[iftags +tale]]\n", "\n[[/iftags]]"), ("[[span]]w1w ", " w2w[[/span]]"), ("[[blockquote]]\n[[div]]\n", "\n[[/blockquote]]"), ("-----\n", "\n-----"), ("+ w1w\n", "\n+ w2w"),
];

const BODY: &[&str] = &[
    "a", "b c", " ", "  ", "**", "//", "__", "--", "^^", ",,", "{{", "}}", "##", "##red|x##", "[[", "]]", "[[div]]", "[[/div]]", "[[[", "]]]", "[[[a|b]]]", "[x]", "[http://x.com y]", "http://x.com/y ",
    "((", "))", "((bibcite a))", "<b>", "</b>", "<", ">", "&", "&amp;", "&lt;", "&#65;", "'", "\"", "\"q\"", "\\", "\\\"", "||", "||~", "|", "~~~~", "=", "+", "+ ", "* ", "# ", "> ", ":", " : ", "-----", "[!--", "--]",
    "[!-- x --]", "[[include x]]", "[[module css]]", "[[footnote]]", "[[/footnote]]", "[[toc]]", "[[iftags -tale]]", "[[/iftags]]", "{$x}", "$", "%", "%%", "_", "é", "漢", "😀", "\u{a0}", "\u{202e}", "``", "''", "...", "@", "a@b",
    "a@b.com", "\t", "\u{1}", "[[code", "[[/", "]", "[", "{", "}", "(", ")", "`", "^", "/", "*", "#", "!", "?", ";", ".", "0", "\u{301}", "<<", ">>", "[[user x]]", "[[$", "[[image a.png]]", "[[span]]", "[[/span]]",
];

const BODY_LINES: &[&str] = &["\n", "\n", "\n\n", " \n", "\n ", "\n> ", "\n* ", "\n|| ", "\n+ ", "\n[[/div]]\n", "\n[[div]]\n", "\n-----\n", " _\n", "\n[[/code]", "\n[[/codes]]", "\n[[html]]\n", "\n[[/htm]]\n", "\n[[code]]\n", "\n[[math]]\n", "@@", ">@", "@<", "\n\n\n"];

impl P07 {
    fn acceptable(kind: &str, b: &str, own_lines: bool) -> bool {
        if b.contains('\r') || b.contains('\0') {
            return false;
        }
        let lower = b.to_ascii_lowercase();
        let block = |n: &str| {
            // No end tag of its own, in any spacing.
            let squeezed: String = lower.chars().filter(|c| !c.is_whitespace()).collect();
            let end = [format!("[[/{n}]]"), format!("[[/{n}_]]")];
            !end.iter().any(|e| squeezed.contains(e.as_str()))
                && !b.starts_with('\n')
                && !b.ends_with('\n')
                && !b.is_empty()
                && (own_lines || !b.starts_with([' ', '\t']))
                // The brackets next to the tags would be lexed with them.
                && (own_lines || (!b.starts_with(']') && !b.ends_with('[')))
                && !b.ends_with('[')
        };
        match kind {
            "raw" => !b.contains('\n') && !b.contains("@@") && !b.starts_with('@') && !b.ends_with('@'),
            // The lexer reads some tokens across the closing delimiter (see known findings).
            "raw2" => !b.contains('\n') && !b.contains(">@") && !b.ends_with(['>', '|', '~']) && !b.is_empty(),
            "imath" => !b.contains('\n') && !b.contains("$]]") && !b.ends_with('$') && !b.starts_with(']') && !b.contains("://"),
            "code" => block("code"),
            "html" => block("html"),
            "math" => block("math") && !b.trim().is_empty(),
            _ => false,
        }
    }
}

impl Prop for P07 {
    fn id(&self) -> &'static str {
        "P07"
    }
    fn rule(&self) -> &'static str {
        "raw text, code, html and math blocks and inline math whose contents are random sequences of markup tokens, entities, quotes, control and wide characters, within intact and broken surroundings of all kinds; oracle: the tree has exactly that one construct with exactly those contents, its HTML element and the text output show them, and the words around are intact; non-trivial: contents with markup characters"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 500_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for b in BODY.iter().chain(&["", "@", "@@", "b>", "<b>", "http://x", "a http://x", "a||", "||", "~~~~"]) {
            for k in ["raw", "raw2", "imath", "code", "html", "math"] {
                for (pre, post) in [("", ""), ("x ", " y")] {
                    let b = format!("{pre}{b}{post}");
                    out.push(json!({"kind": k, "body": b, "ctx": 1, "own": true}));
                    out.push(json!({"kind": k, "body": b, "ctx": 3, "own": false}));
                }
            }
        }
        // Right next to any other character.
        for b in ["", "@", "@@", "x", "**", "a b"] {
            for (k, c) in (' '..='~').chain(['é', '😀', '…']).enumerate() {
                if !c.is_ascii_alphanumeric() {
                    out.push(json!({"next": b, "a": c.to_string(), "b": "", "k": k}));
                    out.push(json!({"next": b, "a": "", "b": c.to_string(), "k": k}));
                    out.push(json!({"next": b, "a": "", "b": format!("{c}{c}"), "k": k}));
                }
            }
        }
        // Read across the closing delimiter by the lexer.
        out.push(json!({"kind": "raw2", "body": "<b>", "ctx": 0, "own": false, "any": true}));
        out.push(json!({"kind": "raw2", "body": "||", "ctx": 0, "own": false, "any": true}));
        out.push(json!({"kind": "raw", "body": "\"", "ctx": 0, "own": false, "any": true, "post": " \""}));
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let kind = r.s(&["raw", "raw", "raw2", "imath", "code", "code", "html", "math"]);
        let multi = matches!(kind.as_str(), "code" | "html" | "math");
        let own = multi && r.chance(3, 4);
        loop {
            let mut b = String::new();
            for _ in 0..if r.chance(1, 300) { crate::gen::big::count(r) } else { r.range(1, 6 * t.scale()) } {
                b.push_str(if multi && own && r.chance(1, 4) { r.pick(BODY_LINES) } else { r.pick(BODY) });
            }
            if r.chance(1, 200) {
                b.insert_str(0, &crate::gen::big::long(r));
            }
            if Self::acceptable(&kind, &b, own) {
                let ctx = r.below(if own { AROUND_BLOCK.len() } else { AROUND.len() });
                return json!({"kind": kind, "body": b, "ctx": ctx, "own": own, "up": r.chance(1, 8)});
            }
        }
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if let (Some(body), Some(a), Some(b)) = (v["next"].as_str(), v["a"].as_str(), v["b"].as_str()) {
            // These characters go into one token with the delimiter.
            if a.ends_with(['@', '>']) || b.starts_with('@') || (b.starts_with('<') && body == "@") {
                return Verdict::Skip;
            }
            let src = format!("c{a}@@{body}@@{b}d");
            let (tree, _) = pipe::tree_of(&src, &Env::default());
            let j = pipe::json_of(&tree);
            let mut got = String::new();
            for e in super::tree::elements(&j) {
                match e["element"].as_str() {
                    Some("text") => got.push_str(e["data"].as_str().unwrap_or("?")),
                    Some("raw") => got.push_str(&format!("\u{2}{}\u{3}", e["data"].as_str().unwrap_or("?"))),
                    _ => {}
                }
            }
            let b = match b {
                "--" => "—",
                "<<" => "«",
                ">>" => "»",
                b => b,
            };
            let want = format!("c{a}\u{2}{body}\u{3}{b}d");
            stats.hit("raw texts next to a character");
            return match got == want {
                true => Verdict::Ok(true),
                false => fail("next", format!("{src:?} gave {got:?} instead of {want:?}")),
            };
        }
        let (Some(kind), Some(b), Some(ctx), Some(own)) = (v["kind"].as_str(), v["body"].as_str(), v["ctx"].as_u64(), v["own"].as_bool()) else { return Verdict::Skip };
        let special = kind == "raw" && ["", "@", "@@"].contains(&b);
        let multi = matches!(kind, "code" | "html" | "math");
        if !(Self::acceptable(kind, b, own) || special || (v["any"] == true && [("raw2", "<b>"), ("raw2", "||"), ("raw", "\"")].contains(&(kind, b)))) {
            return Verdict::Skip;
        }
        let own = own && multi;
        let Some((pre, post)) = (if own { AROUND_BLOCK } else { AROUND }).get(ctx as usize) else { return Verdict::Skip };
        if !own && pre.contains("|| ") && b.contains("||") && kind == "imath" {
            // Fine: the formula is one construct.
        }
        let n = if v["up"] == true { kind.to_uppercase() } else { kind.to_string() };
        let core = match kind {
            "raw" => format!("@@{b}@@"),
            "raw2" => format!("@<{b}>@"),
            "imath" => format!("[[$ {b} $]]"),
            _ if own => format!("[[{n}]]\n{b}\n[[/{n}]]"),
            _ => format!("[[{n}]]{b}[[/{n}]]"),
        };
        let src = format!("{pre}{core}{post}{}", v["post"].as_str().unwrap_or(""));
        let want = match kind {
            "imath" | "math" => b.trim(),
            _ => b,
        };
        let env = Env::default();
        let (tree, _) = pipe::tree_of(&src, &env);
        let j = pipe::json_of(&tree);
        let mut els = super::tree::elements(&j);
        for f in j["footnotes"].as_array().into_iter().flatten() {
            if let Some(l) = f.as_array() {
                super::tree::flatten(l, &mut els);
            }
        }
        let (el, key) = match kind {
            "raw" | "raw2" => ("raw", ""),
            "imath" => ("math-inline", "latex-source"),
            "math" => ("math", "latex-source"),
            k => (k, "contents"),
        };
        let found: Vec<&str> = els
            .iter()
            .filter(|e| e["element"] == el)
            .map(|e| if key.is_empty() { e["data"].as_str().unwrap_or("?") } else { e["data"][key].as_str().unwrap_or("?") })
            .filter(|s| !(el == "raw" && ["w1w", "w2w"].contains(s)))
            .collect();
        if found != [want] {
            return fail("contents", format!("{el}: {found:?} instead of {want:?}\n  source: {src:?}"));
        }
        let listed = match kind {
            "html" => Some(j["html-blocks"][0].clone()),
            "code" => Some(j["code-blocks"][0]["contents"].clone()),
            _ => None,
        };
        if let Some(l) = listed {
            if l != want {
                return fail("list", format!("stored {l} instead of {want:?}\n  source: {src:?}"));
            }
        }
        // The words around.
        let mut p = Pieces::default();
        p.list(j["elements"].as_array().map(|v| &v[..]).unwrap_or(&[]), &j, Where::Body);
        let words: Vec<String> = atoms(&p.text(|_| true)).into_iter().filter(|a| a.starts_with('w')).collect();
        let expect: Vec<String> = ["w1w", "w2w"].iter().filter(|w| pre.contains(**w) || post.contains(**w)).map(|w| w.to_string()).collect();
        if words != expect {
            return fail("around", format!("{words:?} instead of {expect:?}\n  source: {src:?}"));
        }
        // Output (LaTeX is converted by a dependency).
        if kind != "imath" && kind != "math" {
            let html = pipe::html_of(&tree, &env);
            let dom = match crate::html::parse_body(&html.body) {
                Ok(d) => d,
                Err(e) => return fail("html", format!("{e}\n  source: {src:?}")),
            };
            if kind != "html" {
                let shown: Vec<String> = dom
                    .all()
                    .into_iter()
                    .filter(|e| if kind == "code" { e.name == "code" } else { e.has_class("wj-raw") })
                    .map(|e| e.text())
                    .filter(|s| !(el == "raw" && ["w1w", "w2w"].contains(&s.as_str())))
                    .collect();
                if shown.is_empty() || shown.iter().any(|s| s != want) {
                    return fail("html", format!("shows {shown:?} instead of {want:?}\n  source: {src:?}"));
                }
                if !pre.contains("[[footnote]]") {
                    let text = pipe::text_of(&tree, &env);
                    if !text.contains(want.trim_matches('\n')) {
                        return fail("text", format!("{text:?} does not contain {want:?}\n  source: {src:?}"));
                    }
                }
            }
        }
        stats.hit(&format!("kind {kind}"));
        stats.add("characters", want.chars().count() as u64);
        Verdict::Ok(want.contains(|c: char| !c.is_alphanumeric() && c != ' '))
    }
}
