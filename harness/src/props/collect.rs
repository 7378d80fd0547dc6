//! Items gathered beside the tree: footnotes (P08), headings (P09), code and HTML blocks
//! (P10), bibliographies (P11). Documents are made of numbered items within markup of which
//! some doesn't parse; the oracles relate what was gathered to what is in the tree and source.

use super::tree;
use crate::html::{El, Node};
use crate::gen::big;
use crate::pipe::{self, Env};
use crate::props::basic::get_env;
use crate::props::render::with_env;
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::HashSet;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P08, &P09, &P10, &P11]
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Foot,
    Head,
    Code,
    Bib,
}

struct Gen {
    kind: Kind,
    n: usize,
    budget: usize,
    in_foot: bool,
    in_bib: bool,
    block_made: bool,
    headings_in_notes: bool,
}

impl Gen {
    fn next(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    fn word(&mut self) -> String {
        format!("w{}w", self.next())
    }

    fn item_inline(&mut self, r: &mut Rng, depth: usize) -> String {
        match self.kind {
            Kind::Foot if !self.in_foot => {
                let n = self.next();
                self.in_foot = true;
                let body = match r.below(6) {
                    0 => format!("\ny{n}y\n\n{}\n", self.inline(r, 0)),
                    1 if depth > 0 => format!("\ny{n}y\n\n{}\n", self.block(r, depth - 1)),
                    _ => format!("y{n}y {}", self.inline(r, depth.saturating_sub(1))),
                };
                self.in_foot = false;
                let (open, end) = r.pick(&[("footnote", "footnote"), ("FOOTNOTE", "footnote"), ("footnote", "Footnote")]);
                format!("x{n}x[[{open}]]{body}[[/{end}]]")
            }
            Kind::Bib => {
                let l = r.below(6);
                match r.below(3) {
                    0 => format!("((bibcite l{l}))"),
                    1 => format!("[[bibcite l{l}]]"),
                    _ => format!("[[bibcite_ l{l}]]"),
                }
            }
            _ => self.word(),
        }
    }

    fn inline(&mut self, r: &mut Rng, depth: usize) -> String {
        let mut out = vec![];
        for _ in 0..r.range(1, 3) {
            let s = match r.below(if depth == 0 { 4 } else { 10 }) {
                0 | 1 => self.word(),
                2 | 3 => self.item_inline(r, depth),
                4 | 5 => {
                    let (a, b) = r.pick(&[
                        ("**", "**"), ("//", "//"), ("__", "__"), ("^^", "^^"), ("{{", "}}"), ("##red|", "##"),
                        ("[[span]]", "[[/span]]"), ("[[b]]", "[[/b]]"), ("[[size 2em]]", "[[/size]]"), ("[[mark]]", "[[/mark]]"),
                        ("[[iftags +tale]]", "[[/iftags]]"), ("[[ruby]]", "[[/ruby]]"), ("[[a href=\"/k\"]]", "[[/a]]"),
                    ]);
                    let body = self.inline(r, depth - 1);
                    match self.broken(r) {
                        0 => format!("{a}{body}"),
                        1 => format!("{body}{b}"),
                        2 => format!("{a}{body} {b}"),
                        _ => format!("{a}{body}{b}"),
                    }
                }
                6 if !self.in_foot => {
                    // Excluded: nothing of it may remain. Marked so that it is recognized.
                    let k = self.next();
                    let (e, f) = (format!("z{k}z"), self.kind);
                    let inner = match f {
                        Kind::Foot => format!("[[footnote]]{e}[[/footnote]]"),
                        _ => e,
                    };
                    r.pick(&[
                        format!("[[iftags -tale]]{inner}[[/iftags]]"),
                        format!("[[ifcategory zzz]]{inner}[[/ifcategory]]"),
                    ])
                }
                7 => format!("{} _\n{}", self.word(), self.word()),
                8 => format!("{}\n{}", self.word(), self.item_inline(r, depth)),
                _ => self.item_inline(r, depth),
            };
            out.push(s);
        }
        out.join(" ")
    }

    /// 0 to 2: leave something away (bounded, since retries multiply); otherwise fine.
    fn broken(&mut self, r: &mut Rng) -> usize {
        if self.budget > 0 && r.chance(1, 3) {
            self.budget -= 1;
            r.below(3)
        } else {
            9
        }
    }

    fn item_block(&mut self, r: &mut Rng, depth: usize) -> String {
        match self.kind {
            Kind::Foot => {
                if !self.in_foot && !self.block_made && r.chance(1, 6) {
                    self.block_made = true;
                    return r.s(&["[[footnoteblock]]", "[[footnoteblock title=\"Notes\"]]", "[[FootnoteBlock hide=\"yes\"]]", "[[footnoteblock hide=\"no\" title=\"k\"]]"]);
                }
                self.inline(r, depth)
            }
            Kind::Head => {
                let mut s = String::new();
                for i in 0..r.range(1, 3) {
                    if i > 0 {
                        s.push_str(r.pick(&["\n", "\n\n", "\n\n\n"]));
                    }
                    let n = self.next();
                    let star = if r.chance(1, 6) { "*" } else { "" };
                    let rest = match r.below(5) {
                        0 => format!(" **{}**", self.word()),
                        1 => format!(" {} //{}//", self.word(), self.word()),
                        2 => format!(" [[span]]{}[[/span]]", self.word()),
                        3 => " @@**@@ & <b>".to_string(),
                        _ => String::new(),
                    };
                    s.push_str(&format!("{}{star} h{n}h{rest}", "+".repeat(r.range(1, 6))));
                }
                s
            }
            Kind::Code => {
                let n = self.next();
                match r.below(5) {
                    0 => format!("[[html]]\n<b>c{n}c</b>\n[[/html]]"),
                    1 => format!("[[code]]\nc{n}c\n[[/code]]"),
                    2 => format!("[[CODE type=\"CSS\"]]\nc{n}c\n\n[[div]]\n[[/code]]"),
                    _ => {
                        let nm = r.pick(&["a", "B b", "b-b", "a", "A", "ä", "b b", "c_d", "Ä", "e", "a "]);
                        format!("[[code {}name=\"{nm}\"]]\nc{n}c\n[[/code]]", r.pick(&["", "type=\"php\" "]))
                    }
                }
            }
            Kind::Bib if !self.in_bib => {
                self.in_bib = true;
                let mut s = format!("[[bibliography{}]]\n", r.pick(&["", " title=\"k\"", " hide=\"true\"", " hide=\"no\"", ""]));
                for _ in 0..r.range(1, 4) {
                    let n = self.next();
                    let l = r.below(6);
                    let v = if r.chance(1, 4) { format!(" {}", self.inline(r, 1).replace('\n', " ")) } else { String::new() };
                    s.push_str(&format!(": l{l} : e{n}e{v}\n"));
                }
                self.in_bib = false;
                if r.chance(1, 8) && self.budget > 0 {
                    // Not only definitions: stays literal.
                    self.budget -= 1;
                    s.push_str("\n* stray\n");
                    s = s.replacen("[[bibliography", "[[BIBLIOGRAPHY", 1);
                }
                s.push_str("[[/bibliography]]");
                s
            }
            Kind::Bib => self.word(),
        }
    }

    fn block(&mut self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 {
            return if r.chance(1, 3) { self.inline(r, 1) } else { self.item_block(r, 0) };
        }
        match r.below(17) {
            0..=2 => self.inline(r, depth),
            3..=6 => self.item_block(r, depth),
            7 | 8 => {
                let (a, b) = r.pick(&[
                    ("[[div]]", "[[/div]]"), ("[[blockquote]]", "[[/blockquote]]"), ("[[collapsible]]", "[[/collapsible]]"),
                    ("[[=]]", "[[/=]]"), ("[[div class=\"k\"]]", "[[/div]]"), ("[[iftags +tale]]", "[[/iftags]]"),
                    ("[[ifcategory _default]]", "[[/ifcategory]]"), ("[[collapsible folded=\"no\"]]", "[[/collapsible]]"),
                    ("[[div_]]", "[[/div]]"), ("[[>]]", "[[/>]]"),
                ]);
                let body = self.doc(r, depth - 1, 2);
                match self.broken(r) {
                    0 => format!("{a}\n{body}"),
                    1 => format!("{body}\n{b}"),
                    2 => format!("{a}\n{body}\n[[/tabview]]"),
                    _ => format!("{a}\n{body}\n{b}"),
                }
            }
            9 => {
                let mut s = "[[tabview]]\n".to_string();
                for k in 0..r.range(1, 2) {
                    s.push_str(&format!("[[tab k{k}]]\n{}\n[[/tab]]\n", self.doc(r, depth - 1, 1)));
                }
                match self.broken(r) {
                    0 => s.push_str(&self.word()),
                    1 => s.push_str("[[tab k9]]\nk\n[[/tabview]]"),
                    2 => {}
                    _ => s.push_str("[[/tabview]]"),
                }
                s
            }
            10 => {
                let b = self.broken(r);
                let mut s = "[[table]]\n[[row]]\n".to_string();
                for _ in 0..r.range(1, 2) {
                    s.push_str(&format!("[[cell]]{}[[/cell]]\n", if r.coin() { self.inline(r, depth - 1) } else { format!("\n{}\n", self.block(r, depth - 1)) }));
                }
                if b == 0 {
                    s.push_str(&self.word());
                }
                s.push_str("[[/row]]\n");
                if b != 1 {
                    s.push_str("[[/table]]");
                }
                s
            }
            11 => {
                let b = self.broken(r);
                let mut s = "[[ul]]\n".to_string();
                for _ in 0..r.range(1, 2) {
                    s.push_str(&format!("[[li]]{}[[/li]]\n", if r.coin() { self.inline(r, depth - 1) } else { format!("\n{}\n", self.block(r, depth - 1)) }));
                }
                if b == 0 {
                    s.push_str(&self.word());
                }
                if b != 1 {
                    s.push_str("[[/ul]]");
                }
                s
            }
            12 => {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    s.push_str(&format!("{}{}\n", r.pick(&["* ", "# ", " * "]), self.inline(r, depth - 1).replace('\n', " ")));
                }
                s
            }
            13 => {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    s.push_str(&format!("{} {}\n", ">".repeat(r.range(1, 2)), self.inline(r, depth - 1).replace('\n', " ")));
                }
                s
            }
            14 if !self.in_bib => {
                let mut s = String::new();
                for _ in 0..r.range(1, 2) {
                    s.push_str(&format!(": {} : {}\n", self.inline(r, 0).replace('\n', " "), self.inline(r, depth - 1).replace('\n', " ")));
                }
                if self.broken(r) < 3 {
                    s.push_str(&format!(": {}\n", self.inline(r, 0).replace('\n', " ")));
                }
                s
            }
            15 => {
                let mut s = String::new();
                for _ in 0..r.range(1, 2) {
                    for _ in 0..r.range(1, 2) {
                        s.push_str(&format!("{} {} ", r.pick(&["||", "||~", "||="]), self.inline(r, depth - 1).replace('\n', " ")));
                    }
                    s.push_str(if self.broken(r) < 2 { "\n" } else { "||\n" });
                }
                s
            }
            _ => {
                if self.kind == Kind::Head {
                    return r.s(&["[[toc]]", "[[f<toc]]"]);
                }
                self.excluded(r)
            }
        }
    }

    fn excluded(&mut self, r: &mut Rng) -> String {
        if self.in_foot {
            return self.word();
        }
        let k = self.next();
        let inner = match self.kind {
            Kind::Foot => format!("[[footnote]]z{k}z[[/footnote]]"),
            Kind::Head => format!("+ z{k}z"),
            Kind::Code => format!("[[code name=\"{}\"]]\nz{k}z\n[[/code]]\n[[html]]\nz{k}z\n[[/html]]", r.pick(&["a", "b-b", "zz"])),
            Kind::Bib => format!("[[bibliography]]\n: l0 : z{k}z\n: l9 : z{k}z\n[[/bibliography]]"),
        };
        let (a, b) = r.pick(&[("[[iftags -tale]]", "[[/iftags]]"), ("[[ifcategory zzz]]", "[[/ifcategory]]"), ("[[iftags +zzz]]", "[[/iftags]]")]);
        match self.broken(r) {
            0 => format!("{a}\n{}", self.word()),
            _ => format!("{a}\n{inner}\n{b}"),
        }
    }

    fn doc(&mut self, r: &mut Rng, depth: usize, size: usize) -> String {
        let mut s = String::new();
        for i in 0..r.range(1, size) {
            if i > 0 {
                s.push_str("\n\n");
            }
            s.push_str(&self.block(r, depth));
        }
        s
    }
}

pub fn coll_doc(r: &mut Rng, kind: Kind, tier: Tier) -> String {
    let mut g = Gen {
        kind, n: 0, budget: r.below(6), in_foot: false, in_bib: false, block_made: false,
        headings_in_notes: false,
    };
    let _ = g.headings_in_notes;
    let depth = r.range(0, 3);
    let size = r.range(1, 3 + 2 * tier.scale());
    g.doc(r, depth, size)
}

/// Many items.
fn many(r: &mut Rng, kind: Kind) -> String {
    let n = big::count(r);
    let mut s = String::new();
    let sep = r.pick(&[" ", "\n", "\n\n"]);
    let how = r.below(3);
    for i in 1..=n {
        match kind {
            Kind::Foot => s.push_str(&format!("x{i}x[[footnote]]y{i}y[[/footnote]]{sep}")),
            Kind::Head => s.push_str(&format!("{} h{i}h\n{}", "+".repeat([1, 1 + i % 6, r.range(1, 6)][how]), if sep == " " { "" } else { "\n" })),
            Kind::Code => match how {
                0 => s.push_str(&format!("[[code name=\"n{i}\"]]\nc{i}c\n[[/code]]\n")),
                1 => s.push_str(&format!("[[html]]\nc{i}c\n[[/html]]\n")),
                _ => {
                    // Names come again.
                    let k = if r.chance(1, 8) { r.range(1, i) } else { i };
                    s.push_str(&format!("[[code name=\"n{k}\"]]\nc{i}c\n[[/code]]\n"));
                }
            },
            Kind::Bib => match how {
                0 => s.push_str(&format!(": l{i} : e{i}e\n")),
                1 => s.push_str(&format!(": l{} : e{i}e\n", r.range(1, n))),
                _ => s.push_str(&format!("[[bibliography]]\n: l{i} : e{i}e\n[[/bibliography]]\n\n")),
            },
        }
    }
    match kind {
        Kind::Head => format!("[[toc]]\n\n{s}"),
        Kind::Bib => {
            let mut cites = String::new();
            for _ in 0..r.range(1, 30) {
                cites.push_str(&format!("((bibcite l{})) ", r.range(1, n + 1)));
            }
            match how {
                2 => format!("{cites}\n\n{s}"),
                _ => format!("{cites}\n\n[[bibliography]]\n{s}[[/bibliography]]"),
            }
        }
        _ => s,
    }
}

fn input(r: &mut Rng, kind: Kind, tier: Tier) -> Value {
    let src = if r.chance(1, 300) { many(r, kind) } else { coll_doc(r, kind, tier) };
    let mut env = Env::default();
    if r.chance(1, 4) {
        env = Env::random(r);
        env.tags = vec!["tale".into()];
        env.category = None;
        env.page_syntax = true;
    }
    with_env(src, env)
}

/// Numbers of the markers `<c><number><c>` in a text, in order.
fn markers(t: &str, c: char) -> Vec<u64> {
    let b: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == c {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == c {
                out.push(b[i + 1..j].iter().collect::<String>().parse().unwrap_or(0));
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out
}

/// All elements in reading order, footnotes and bibliographies at their place.
pub struct Flat<'a> {
    json: &'a Value,
    foot: usize,
    pub out: Vec<&'a Value>,
    pub foot_depth: usize,
    pub heading_in_note: bool,
    pub error: Option<String>,
}

impl<'a> Flat<'a> {
    pub fn new(json: &'a Value) -> Flat<'a> {
        let mut f = Flat { json, foot: 0, out: vec![], foot_depth: 0, heading_in_note: false, error: None };
        f.list(&json["elements"]);
        if f.foot != json["footnotes"].as_array().map(|a| a.len()).unwrap_or(0) && f.error.is_none() {
            f.error = Some(format!("{} footnote references but {} footnotes", f.foot, json["footnotes"].as_array().map(|a| a.len()).unwrap_or(0)));
        }
        f
    }

    fn list(&mut self, l: &'a Value) {
        for e in l.as_array().into_iter().flatten() {
            self.one(e);
        }
    }

    fn one(&mut self, e: &'a Value) {
        self.out.push(e);
        match e["element"].as_str().unwrap_or("") {
            "footnote" => {
                let k = self.foot;
                self.foot += 1;
                match self.json["footnotes"].get(k) {
                    Some(c) => {
                        self.foot_depth += 1;
                        if self.foot_depth > 3 {
                            self.error = Some("footnote within footnotes".into());
                        } else {
                            self.list(c);
                        }
                        self.foot_depth -= 1;
                    }
                    None => self.error = Some(format!("footnote reference {} has no contents", k + 1)),
                }
            }
            "bibliography-block" => {
                let k = e["data"]["index"].as_u64().unwrap_or(u64::MAX) as usize;
                match self.json["bibliographies"].get(k) {
                    Some(b) => {
                        for x in b.as_array().into_iter().flatten() {
                            self.list(&x[1]);
                        }
                    }
                    None => self.error = Some(format!("bibliography block refers to bibliography {k}, which doesn't exist")),
                }
            }
            "container" if e["data"]["type"]["header"].is_object() => {
                self.heading_in_note |= self.foot_depth > 0;
                self.list(&e["data"]["elements"]);
            }
            "list" => {
                for i in e["data"]["items"].as_array().into_iter().flatten() {
                    if i["elements"].is_array() {
                        self.list(&i["elements"]);
                    } else {
                        self.one(i);
                    }
                }
            }
            _ => {
                for l in super::basic::child_lists(e) {
                    for x in l {
                        self.one(x);
                    }
                }
            }
        }
    }
}

/// The text of an element as it is read.
pub fn own_text(e: &Value) -> String {
    let d = &e["data"];
    match e["element"].as_str().unwrap_or("") {
        "text" | "raw" | "email" => d.as_str().unwrap_or("").to_string(),
        "variable" => format!("{{${}}}", d.as_str().unwrap_or("")),
        "code" | "html" => d["contents"].as_str().unwrap_or("").to_string(),
        "math" | "math-inline" => d["latex-source"].as_str().unwrap_or("").to_string(),
        "link" => d["label"]["text"].as_str().unwrap_or("").to_string(),
        _ => String::new(),
    }
}

pub fn plain(list: &Value) -> String {
    let mut out = vec![];
    if let Some(a) = list.as_array() {
        tree::flatten(a, &mut out);
    }
    out.into_iter().map(spaced_text).collect()
}

/// The same, with separators so that words of adjacent blocks don't touch.
fn spaced_text(e: &Value) -> String {
    match e["element"].as_str() {
        Some("container" | "line-break" | "line-breaks" | "table" | "list" | "tab-view" | "definition-list" | "collapsible") => "\u{1}".into(),
        _ => own_text(e),
    }
}

fn excluded_left(json: &Value) -> Result<(), String> {
    // z markers are only written within conditional blocks whose condition is false.
    let t = json.to_string();
    if let Some(k) = markers(&t, 'z').first() {
        return Err(format!("z{k}z of an excluded block is still there"));
    }
    Ok(())
}

/// Whether all conditional blocks of the source are closed one after the other.
/// Whether everything opened in this line is closed in it, in order: otherwise it may go on beyond the line.
fn self_contained(line: &str) -> bool {
    static RE: std::sync::LazyLock<regex::Regex> =
        std::sync::LazyLock::new(|| regex::Regex::new(r"\*\*|//|__|\^\^|,,|--|##|\{\{|\}\}|\[\[\s*(/?)([a-zA-Z]+)").unwrap());
    let mut open: Vec<String> = vec![];
    for c in RE.captures_iter(line) {
        let t = &c[0];
        let (key, opens, closes) = match c.get(2) {
            Some(n) if n.as_str().eq_ignore_ascii_case("bibcite") => continue,
            Some(n) => (n.as_str().to_ascii_lowercase(), c[1].is_empty(), !c[1].is_empty()),
            None if t == "{{" || t == "}}" => ("{{".into(), t == "{{", t == "}}"),
            None => (t.to_string(), !open.iter().any(|o| o == t), open.iter().any(|o| o == t)),
        };
        // (A marker beside a space isn't one, or only an opening one.)
        let m = c.get(0).unwrap();
        if c.get(2).is_none() && (opens && line[m.end()..].starts_with([' ', '\t']) || closes && line[..m.start()].ends_with([' ', '\t'])) {
            return false;
        }
        if opens {
            open.push(key);
        } else if closes && open.pop().as_ref() != Some(&key) {
            return false;
        }
    }
    open.is_empty()
}

fn conditionals_closed(src: &str) -> bool {
    static RE: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| regex::Regex::new(r"\[\[(/?)(iftags|ifcategory)( [+-]?[a-z0-9_]+)*\]\]").unwrap());
    let mut open: Option<String> = None;
    let mut n = 0;
    for c in RE.captures_iter(src) {
        n += 1;
        if c[1].is_empty() {
            if open.is_some() || c.get(3).is_none() {
                return false;
            }
            open = Some(c[2].to_string());
        } else {
            if open.as_deref() != Some(&c[2]) || c.get(3).is_some() {
                return false;
            }
            open = None;
        }
    }
    open.is_none() && n == src.matches("iftags").count() + src.matches("ifcategory").count() && !bare_color(src)
}

/// Whether there is a `##` beside the ones of `##red|…##`, which could make a color of what follows.
fn bare_color(src: &str) -> bool {
    let mut open = false;
    for (i, _) in src.match_indices("##") {
        if src[i..].starts_with("##red|") {
            if open {
                return true;
            }
            open = true;
        } else {
            if !open {
                return true;
            }
            open = false;
        }
    }
    open
}

/// Whether everything within blocks whose condition is false is marked as such.
fn false_parts_marked(src: &str) -> bool {
    static ANY: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| regex::Regex::new(r"\[\[(iftags|ifcategory) ([^\]]*)\]\]").unwrap());
    static Z: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| regex::Regex::new(r"^\n?(\[\[bibliography\]\]\n: l0 : )?z[0-9]+z").unwrap());
    let mut all = ANY.captures_iter(src);
    all.all(|c| match (&c[1], &c[2]) {
        ("iftags", "+tale") | ("ifcategory", "_default") => true,
        _ => Z.is_match(&src[c.get(0).unwrap().end()..]),
    })
}

fn walk<'a>(e: &'a El, f: &mut dyn FnMut(&'a El)) {
    f(e);
    for k in &e.kids {
        if let Node::El(k) = k {
            walk(k, f);
        }
    }
}

/// The parts of a DOM with one of these classes, as text.
fn parts(dom: &El, classes: &[&str]) -> Vec<String> {
    let mut out = vec![];
    walk(dom, &mut |e: &El| {
        for c in classes {
            if e.has_class(c) {
                out.push(format!("{c} {:?} {:?} {:?}", e.attr("data-id"), e.attr("aria-label"), pipe::normalize_ids(&e.text())));
            }
        }
    });
    out
}

fn same_parts(json: &Value, env: &Env, dom: &El, classes: &[&str]) -> Result<usize, String> {
    let mut rf = refhtml::Ref::new(env, json);
    let want = refhtml::canon(rf.body()?);
    let a = parts(&refhtml::canon(dom.clone()), classes);
    let e = parts(&want, classes);
    if a != e {
        let i = a.iter().zip(e.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(e.len()));
        return Err(format!("in HTML, part {i} is {:?} instead of {:?}", a.get(i), e.get(i)));
    }
    Ok(a.len())
}

struct Case {
    src: String,
    env: Env,
    json: Value,
    html: String,
}

fn case(v: &Value) -> Option<Case> {
    let src = v["src"].as_str()?.to_string();
    let env = get_env(v)?;
    if !env.tags.iter().any(|t| t == "tale") || env.category.is_some() || !env.page_syntax {
        return None;
    }
    let (t, _) = pipe::tree_of(&src, &env);
    let json = pipe::json_of(&t);
    let html = pipe::html_of(&t, &env).body;
    Some(Case { src, env, json, html })
}

macro_rules! tri {
    ($kind:expr, $src:expr, $e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return fail($kind, format!("{e}\n  source: {:?}", $src)),
        }
    };
}

// P08

struct P08;

impl Prop for P08 {
    fn id(&self) -> &'static str {
        "P08"
    }
    fn rule(&self) -> &'static str {
        "documents of numbered footnotes `x<n>x[[footnote]]y<n>y…[[/footnote]]` in containers, lists, tables, tabs, quotes and conditional blocks, some of which don't parse; oracle: as many references as stored footnotes, the k-th reference's preceding marker and the k-th contents' marker agree, reading order is source order, one footnote list element, and the numbers, tooltips and list items of the HTML are those of the reference; non-trivial: at least one footnote"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        [
            "x1x[[footnote]]y1y[[/footnote]] x2x[[footnote]]y2y[[/footnote]]",
            "**x1x[[footnote]]y1y[[/footnote]]\n\nx2x[[footnote]]y2y[[/footnote]]",
            "[[div]]\nx1x[[footnote]]y1y[[/footnote]]\n\nx2x[[footnote]]y2y[[/footnote]]",
            "x1x[[footnote]]y1y x2x[[footnote]]y2y[[/footnote]]",
            "[[footnoteblock]]\n\nx1x[[footnote]]y1y[[/footnote]]",
            "[[iftags -tale]]\n[[footnoteblock]]\n[[/iftags]]\n\nx1x[[footnote]]y1y[[/footnote]]",
            "[[div]]\n[[footnoteblock]]\n\nx1x[[footnote]]y1y[[/footnote]]",
            "[[footnoteblock k=\"k\"]]\n\nx1x[[footnote]]y1y[[/footnote]]",
            "x1x[[footnote]]y1y [[footnoteblock]][[/footnote]]",
            "|| x1x[[footnote]]y1y[[/footnote]] || x2x[[footnote]]y2y[[/footnote]] ||\n|| x3x[[footnote]]y3y[[/footnote]]",
            "[[ul]]\n[[li]]x1x[[footnote]]y1y[[/footnote]][[/li]]\nw\n[[/ul]]",
            "w1w\n\n[[bibliography]]\n: a : x1x[[footnote]]y1y[[/footnote]]\n[[/bibliography]]",
            ": x1x[[footnote]]y1y[[/footnote]] : x2x[[footnote]]y2y[[/footnote]]\n: x3x[[footnote]]y3y[[/footnote]]",
            "+ x1x[[footnote]]y1y[[/footnote]]\n\n[[toc]]",
            "",
            "w1w",
        ]
        .iter()
        .map(|s| json!({ "src": s }))
        .chain([json!({"src": "[[bibliography]]\n: a : b[[footnote]]c[[/footnote]]\n: a : d[[footnote]]e[[/footnote]]\n[[/bibliography]]", "bib": true})])
        .collect()
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        input(r, Kind::Foot, t)
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(c) = case(v) else { return Verdict::Skip };
        let lower = c.src.to_lowercase();
        // Keys of entries and entries of repeated labels aren't in the tree, footnotes of them
        // stay (a recorded finding).
        if lower.contains("bibliography") && v["bib"] != true {
            return Verdict::Skip;
        }
        let f = Flat::new(&c.json);
        if let Some(e) = f.error {
            return fail("count", format!("{e}\n  source: {:?}", c.src));
        }
        let notes = c.json["footnotes"].as_array().cloned().unwrap_or_default();
        // Which marker precedes each reference, and which starts each footnote.
        let mut k = 0;
        let mut before = String::new();
        for e in &f.out {
            if e["element"] == "footnote" {
                let x = markers(&before, 'x').last().copied();
                let y = markers(&plain(&notes[k]), 'y').first().copied();
                let strict = before.ends_with('x') && x.is_some();
                if strict && x != y {
                    return fail("mismatch", format!("reference {} follows marker x{:?} but its contents are those of y{:?}\n  source: {:?}", k + 1, x, y, c.src));
                }
                k += 1;
                stats.hit("footnotes");
                before.clear();
            } else {
                before.push_str(&spaced_text(e));
            }
        }
        // Reading order.
        let all: String = f.out.iter().map(|e| own_text(e) + "\u{1}").collect();
        for m in ['x', 'y'] {
            let seen = markers(&all, m);
            let want = markers(&c.src, m);
            if !lower.contains("iftags") && !lower.contains("ifcategory") && !bare_color(&lower) && seen != want {
                return fail("order", format!("markers {m} are {seen:?} in the tree, {want:?} in the source\n  source: {:?}", c.src));
            }
        }
        if conditionals_closed(&lower) {
            tri!("excluded", c.src, excluded_left(&c.json));
        }
        // The list.
        let blocks: Vec<_> = f.out.iter().filter(|e| e["element"] == "footnote-block").collect();
        let written = lower.matches("[[footnoteblock").count();
        if blocks.is_empty() || (written <= 1 && blocks.len() != 1) {
            return fail("list", format!("{} footnote list elements\n  source: {:?}", blocks.len(), c.src));
        }
        if written == 0 && c.json["elements"].as_array().and_then(|a| a.last()).map(|e| e["element"] != "footnote-block").unwrap_or(true) {
            return fail("list", format!("the footnote list isn't at the end\n  source: {:?}", c.src));
        }
        let dom = match crate::html::parse_body(&c.html) {
            Ok(d) => d,
            Err(e) => return fail("html", format!("{e}\n  source: {:?}", c.src)),
        };
        let n = tri!("html", c.src, same_parts(&c.json, &c.env, &dom, &[
            "wj-footnote-ref-marker", "wj-footnote-ref-tooltip-label", "wj-footnote-ref-contents", "wj-footnote-list",
            "wj-footnote-list-item", "wj-footnote-list-item-marker", "wj-footnote-list-item-contents",
        ]));
        stats.add("html parts compared", n as u64);
        // Reference numbers in the body are 1, 2, 3… (outside of tooltips and lists).
        let mut nums = vec![];
        body_refs(&dom, &mut nums);
        let want: Vec<String> = (1..=notes.len()).map(|n| n.to_string()).collect();
        if nums != want {
            return fail("html", format!("references are numbered {nums:?}\n  source: {:?}", c.src));
        }
        Verdict::Ok(!notes.is_empty())
    }
}

fn body_refs(e: &El, out: &mut Vec<String>) {
    for k in e.els() {
        if k.has_class("wj-footnote-ref-tooltip") || k.has_class("wj-footnote-list") || k.has_class("wj-bibliography-ref-tooltip") {
            continue;
        }
        if k.name == "wj-footnote-ref-marker" {
            out.push(k.text());
        }
        body_refs(k, out);
    }
}

// P09

struct P09;

/// (level, label, path of list identities) of the entries of a table of contents.
pub(crate) fn toc_entries<'a>(list: &'a Value, path: &mut Vec<usize>, next: &mut usize, out: &mut Vec<(Vec<usize>, String, String)>) -> Result<(), String> {
    for e in list.as_array().into_iter().flatten() {
        toc_list(e, path, next, out)?;
    }
    Ok(())
}

fn toc_list(e: &Value, path: &mut Vec<usize>, next: &mut usize, out: &mut Vec<(Vec<usize>, String, String)>) -> Result<(), String> {
    if e["element"] != "list" || e["data"]["type"] != "bullet" {
        return Err(format!("table of contents holds {e}"));
    }
    let items = e["data"]["items"].as_array().ok_or("no items")?;
    if items.is_empty() {
        return Err("empty list in the table of contents".into());
    }
    path.push(*next);
    *next += 1;
    for i in items {
        if i["item-type"] == "sub-list" {
            toc_list(i, path, next, out)?;
        } else {
            let l = &i["elements"][0];
            if i["elements"].as_array().map(|a| a.len()) != Some(1) || l["element"] != "link" || l["data"]["type"] != "table-of-contents" {
                return Err(format!("table of contents item {i}"));
            }
            let target = l["data"]["link"].as_str().ok_or("entry without link")?;
            let label = l["data"]["label"]["text"].as_str().ok_or("entry without label")?;
            out.push((path.clone(), target.into(), label.into()));
        }
    }
    path.pop();
    Ok(())
}

/// Plain text of a heading, if it is made of simple parts only.
fn heading_text(list: &Value) -> Option<String> {
    let mut s = String::new();
    for e in list.as_array()? {
        let d = &e["data"];
        match e["element"].as_str()? {
            "text" | "raw" => s.push_str(d.as_str()?),
            "container" => match d["type"].as_str()? {
                "bold" | "italics" | "underline" | "superscript" | "subscript" | "strikethrough" | "monospace" | "span" | "mark" | "size" => {
                    s.push_str(&heading_text(&d["elements"])?)
                }
                _ => return None,
            },
            "color" | "anchor" => s.push_str(&heading_text(&d["elements"])?),
            "footnote" | "anchor-name" | "bibliography-cite" => {}
            _ => return None,
        }
    }
    Some(s)
}

fn classless_headings<'a>(dom: &'a El, out: &mut Vec<&'a El>) {
    for k in dom.els() {
        if k.name.len() == 2 && k.name.starts_with('h') && k.name != "hr" {
            out.push(k);
        }
        classless_headings(k, out);
    }
}

impl Prop for P09 {
    fn id(&self) -> &'static str {
        "P09"
    }
    fn rule(&self) -> &'static str {
        "documents of numbered headings of all levels, starred or not, alone, in runs and in containers of which some don't parse; oracle: table of contents entries = unstarred headings of the tree in order (labels = plain text of the headings, depth = level, consecutive entries sharing exactly the lists of the smaller depth, targets #toc0, #toc1…), and the N-th such h element of the HTML has id tocN and the label's text, and the rendered table has the same entries; non-trivial: at least one heading"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = [
            "+ h1h\n\n[[toc]]", "[[div]]\n+ h1h\n\n+ h2h", "+ a[[footnote]]\n\n+ h\n\n[[/footnote]]", "+* h1h\n+ h2h",
            "[[iftags -tale]]\n+ z1z\n[[/iftags]]\n+ h2h", "[[toc]]", "", "|| h ||\n+ h1h", "* a\n+ h1h\n* b", "> + h1h", "[[li]]\n+ h1h\n[[/li]]",
            "+ [[b]]h1h\n+ h2h", "+ h1h **x\n+ h2h", "[[tabview]]\n[[tab k]]\n+ h1h\n[[/tab]]\nk\n[[/tabview]]",
        ]
        .iter()
        .map(|s| json!({ "src": s }))
        .collect();
        v.push(json!({"src": "a[[footnote]]\n\n+ h\n\n[[/footnote]]\n\n+ q", "notes": true}));
        // All level sequences of up to four headings (levels 1, 2, 3, 6).
        let lv = [1usize, 2, 3, 6];
        for n in 1..=4u32 {
            for k in 0..4usize.pow(n) {
                let mut s = String::new();
                let mut x = k;
                for i in 0..n {
                    s.push_str(&format!("{} h{i}h\n", "+".repeat(lv[x % 4])));
                    x /= 4;
                }
                v.push(json!({"src": s + "\n[[toc]]"}));
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        input(r, Kind::Head, t)
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(c) = case(v) else { return Verdict::Skip };
        let f = Flat::new(&c.json);
        if f.error.is_some() || c.src.to_lowercase().contains("bibliography") {
            return Verdict::Skip;
        }
        let heads: Vec<(u64, Option<String>)> = f
            .out
            .iter()
            .filter(|e| e["element"] == "container" && e["data"]["type"]["header"]["has-toc"] == true)
            .map(|e| (e["data"]["type"]["header"]["level"].as_u64().unwrap_or(0), heading_text(&e["data"]["elements"])))
            .collect();
        let mut toc = vec![];
        tri!("toc", c.src, toc_entries(&c.json["table-of-contents"], &mut vec![], &mut 0, &mut toc));
        if toc.len() != heads.len() {
            return fail("count", format!("{} headings but {} entries\n  source: {:?}", heads.len(), toc.len(), c.src));
        }
        for (i, ((level, text), (path, target, label))) in heads.iter().zip(&toc).enumerate() {
            if *target != format!("#toc{i}") {
                return fail("target", format!("entry {i} links to {target}\n  source: {:?}", c.src));
            }
            if path.len() as u64 != *level {
                return fail("depth", format!("entry {i} ({label:?}) of level {level} is at depth {}\n  source: {:?}", path.len(), c.src));
            }
            if let Some(t) = text {
                if t.trim_matches('\n') != label {
                    return fail("label", format!("entry {i} is labelled {label:?} but the heading is {t:?}\n  source: {:?}", c.src));
                }
                stats.hit("labels compared");
            }
            if i > 0 {
                let p = &toc[i - 1].0;
                let shared = p.iter().zip(path).take_while(|(a, b)| a == b).count();
                if shared != p.len().min(path.len()) {
                    return fail("nesting", format!("entries {} and {i} share {shared} lists\n  source: {:?}", i - 1, c.src));
                }
            }
        }
        let lower = c.src.to_lowercase();
        if conditionals_closed(&lower) {
            tri!("excluded", c.src, excluded_left(&c.json));
        }
        stats.add("headings", heads.len() as u64);
        // HTML. A heading within a footnote is shown in its tooltip and in the list (a
        // recorded finding), so those documents end here unless the case asks for it.
        if f.heading_in_note && v["notes"] != true {
            stats.hit("headings within footnotes (tree only)");
            return Verdict::Ok(!heads.is_empty());
        }
        let dom = match crate::html::parse_body(&c.html) {
            Ok(d) => d,
            Err(e) => return fail("html", format!("{e}\n  source: {:?}", c.src)),
        };
        let mut hs = vec![];
        classless_headings(&dom, &mut hs);
        let all_heads = f.out.iter().filter(|e| e["data"]["type"]["header"].is_object()).count();
        if hs.len() != all_heads {
            return fail("html", format!("{} headings in the tree, {} in the HTML\n  source: {:?}", all_heads, hs.len(), c.src));
        }
        let mut k = 0;
        let mut ids: HashSet<String> = HashSet::new();
        for (h, e) in hs.iter().zip(f.out.iter().filter(|e| e["data"]["type"]["header"].is_object())) {
            let level = e["data"]["type"]["header"]["level"].as_u64().unwrap_or(0);
            if h.name != format!("h{level}") {
                return fail("html", format!("<{}> for a heading of level {level}\n  source: {:?}", h.name, c.src));
            }
            let id = h.attr("id").map(|s| s.to_string());
            if e["data"]["type"]["header"]["has-toc"] == true {
                let want = format!("toc{k}");
                let ok = if c.env.true_ids { id.as_deref() == Some(want.as_str()) } else { id.as_deref().is_some_and(|i| i.starts_with("wj-id-")) };
                if !ok {
                    return fail("id", format!("heading {k} has the id {id:?}\n  source: {:?}", c.src));
                }
                if let Some(t) = &heads[k].1 {
                    let mut shown = String::new();
                    visible(h, &mut shown);
                    if shown.trim_matches('\n') != t.trim_matches('\n') {
                        return fail("html", format!("heading {k} shows {shown:?} instead of {t:?}\n  source: {:?}", c.src));
                    }
                }
                if !ids.insert(id.unwrap_or_default()) {
                    return fail("id", format!("id of heading {k} is used twice\n  source: {:?}", c.src));
                }
                k += 1;
            } else if id.is_some() {
                return fail("id", format!("an excluded heading has the id {id:?}\n  source: {:?}", c.src));
            }
        }
        // Rendered tables of contents.
        let mut bad = None;
        let mut tables = 0;
        walk(&dom, &mut |e: &El| {
            if e.els().any(|k| k.has_class("title")) && e.name == "div" {
                let mut links = vec![];
                walk(e, &mut |l: &El| {
                    if l.name == "a" && l.attr("data-link-type") == Some("table-of-contents") {
                        let mut depth = 0;
                        let _ = &mut depth;
                        links.push((l.attr("href").unwrap_or("").to_string(), l.text()));
                    }
                });
                let want: Vec<(String, String)> = toc.iter().map(|(_, t, l)| (t.clone(), l.clone())).collect();
                if links != want {
                    bad = Some(format!("a table of contents shows {links:?} instead of {want:?}"));
                }
                tables += 1;
            }
        });
        if let Some(b) = bad {
            return fail("html", format!("{b}\n  source: {:?}", c.src));
        }
        stats.add("tables of contents rendered", tables);
        Verdict::Ok(!heads.is_empty())
    }
}

/// Text without tooltips.
fn visible(e: &El, s: &mut String) {
    for k in &e.kids {
        match k {
            Node::Text(t) => s.push_str(t),
            Node::El(k) if k.has_class("wj-footnote-ref") || k.has_class("wj-bibliography-ref") => {}
            Node::El(k) => visible(k, s),
        }
    }
}

// P10

struct P10;

impl Prop for P10 {
    fn id(&self) -> &'static str {
        "P10"
    }
    fn rule(&self) -> &'static str {
        "documents of numbered code and html blocks with and without (repeated, differently spelled) names in containers of which some don't parse; oracle: the block lists equal the blocks of the tree in reading order, the names are those of the source, the first use of every name is accepted and every later one literal; non-trivial: at least one block"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        [
            "[[code]]\nc1c\n[[/code]]\n[[html]]\nc2c\n[[/html]]",
            "[[div]]\n[[code name=\"a\"]]\nc1c\n[[/code]]\n\n[[code name=\"a\"]]\nc2c\n[[/code]]",
            "[[code name=\"A b\"]]\nc1c\n[[/code]]\n[[code name=\"a-b\"]]\nc2c\n[[/code]]",
            "[[iftags -tale]]\n[[code name=\"a\"]]\nz1z\n[[/code]]\n[[/iftags]]\n[[code name=\"a\"]]\nc2c\n[[/code]]",
            "[[ul]]\n[[li]]\n[[code name=\"a\"]]\nc1c\n[[/code]]\n[[/li]]\nk\n[[/ul]]",
            "w[[footnote]]\n[[code name=\"a\"]]\nc1c\n[[/code]]\n[[/footnote]]\n\n[[code name=\"a\"]]\nc2c\n[[/code]]",
            "",
        ]
        .iter()
        .map(|s| json!({ "src": s }))
        .chain([json!({"src": format!("[[code]]\nc1c\n[[/code]]\n[[html]]\nc2c\n[[/html]]\n{}a{}", "[[div]]\n".repeat(110), "\n[[/div]]".repeat(110))})])
        .collect()
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        input(r, Kind::Code, t)
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(c) = case(v) else { return Verdict::Skip };
        let lower = c.src.to_lowercase();
        let f = Flat::new(&c.json);
        if f.error.is_some() || lower.contains("bibliography") {
            return Verdict::Skip;
        }
        let list = |k: &str| -> Vec<String> {
            f.out.iter().filter(|e| e["element"] == k).map(|e| e["data"]["contents"].as_str().unwrap_or("?").to_string()).collect()
        };
        let (codes, htmls) = (list("code"), list("html"));
        let stored: Vec<String> = c.json["code-blocks"].as_array().into_iter().flatten().map(|b| b["contents"].as_str().unwrap_or("?").to_string()).collect();
        if stored != codes {
            return fail("code", format!("code blocks {stored:?} stored, {codes:?} in the tree\n  source: {:?}", c.src));
        }
        let stored: Vec<String> = c.json["html-blocks"].as_array().into_iter().flatten().map(|b| b.as_str().unwrap_or("?").to_string()).collect();
        if stored != htmls {
            return fail("html", format!("html blocks {stored:?} stored, {htmls:?} in the tree\n  source: {:?}", c.src));
        }
        stats.add("code blocks", codes.len() as u64);
        stats.add("html blocks", htmls.len() as u64);
        if conditionals_closed(&lower) {
            tri!("excluded", c.src, excluded_left(&c.json));
        }
        // Names: what the source says before each numbered body.
        let mut used: Vec<String> = vec![];
        let all_text: String = f.out.iter().map(|e| if matches!(e["element"].as_str(), Some("code" | "html")) { String::from("\u{1}") } else { own_text(e) }).collect();
        let literal: HashSet<u64> = markers(&all_text, 'c').into_iter().collect();
        let blocks = c.json["code-blocks"].as_array().cloned().unwrap_or_default();
        for n in markers(&c.src, 'c') {
            let m = format!("c{n}c");
            let p = c.src.find(&m).unwrap();
            let Some(h) = c.src[..p].rfind("[[") else { continue };
            let head = &c.src[h..p];
            if !head.to_lowercase().starts_with("[[code") || !head.ends_with("]]\n") {
                continue;
            }
            let name = head.split_once("name=\"").and_then(|(_, x)| x.split_once('"')).map(|(n, _)| {
                let mut s = n.to_string();
                wikidot_normalize::normalize(&mut s);
                s
            });
            let in_list: Vec<&Value> = blocks.iter().filter(|b| markers(b["contents"].as_str().unwrap_or(""), 'c').contains(&n)).collect();
            if in_list.len() > 1 {
                return fail("twice", format!("block {m} is stored twice\n  source: {:?}", c.src));
            }
            if let Some(b) = in_list.first() {
                if b["name"].as_str() != name.as_deref() {
                    return fail("name", format!("block {m} is named {} instead of {name:?}\n  source: {:?}", b["name"], c.src));
                }
                if let Some(n) = &name {
                    if used.contains(n) {
                        return fail("duplicate", format!("name {n:?} was accepted again for {m}\n  source: {:?}", c.src));
                    }
                    used.push(n.clone());
                    stats.hit("first uses of a name accepted");
                }
            } else if literal.contains(&n) {
                let taken = name.as_ref().is_some_and(|n| used.contains(n));
                if !taken && c.src[p..].contains("[[/code]]") && codeable(&c) {
                    return fail("rejected", format!("block {m} with the name {name:?} stayed literal\n  source: {:?}", c.src));
                }
                stats.hit("later uses of a name literal");
            }
        }
        Verdict::Ok(codes.len() + htmls.len() > 0)
    }
}

/// The document wasn't given back as a whole because of the recursion limit.
fn codeable(c: &Case) -> bool {
    c.src.matches("[[").count() < 80
}

// P11

struct P11;

impl Prop for P11 {
    fn id(&self) -> &'static str {
        "P11"
    }
    fn rule(&self) -> &'static str {
        "documents of bibliographies with repeated labels, citations of defined and undefined labels before, within and after them, in containers of which some don't parse; oracle: the k-th bibliography block refers to the k-th stored bibliography, each holds the entries of its source lines (first definition of a label), and every citation's number, brackets, contents or not-found message in HTML is that of the reference; non-trivial: a bibliography or citation in the tree"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        [
            "((bibcite l1))\n\n[[bibliography]]\n: l1 : e1e\n: l2 : e2e\n: l1 : e3e\n[[/bibliography]]\n\n((bibcite l2)) [[bibcite l3]]",
            "[[bibliography]]\n: l1 : e1e\n[[/bibliography]]\n\n[[bibliography]]\n: l2 : e2e\n: l1 : e3e\n[[/bibliography]]\n\n((bibcite l1)) ((bibcite l2))",
            "[[div]]\n[[bibliography]]\n: l1 : e1e\n[[/bibliography]]\n\n[[bibliography]]\n: l2 : e2e\n[[/bibliography]]\n\n((bibcite l2))",
            "[[iftags -tale]]\n[[bibliography]]\n: l0 : z1z\n[[/bibliography]]\n[[/iftags]]\n[[bibliography]]\n: l1 : e1e\n[[/bibliography]]\n((bibcite l0)) ((bibcite l1))",
            "[[bibliography]]\n: l1 : e1e ((bibcite l2)) ((bibcite l1))\n: l2 : e2e ((bibcite l1))\n[[/bibliography]]\n((bibcite l1))",
            "((bibcite l1))",
            "[[footnoteblock]]\n\n[[bibliography]]\n: l1 : e1e\n[[/bibliography]]\n\na[[footnote]]((bibcite l1))[[/footnote]]",
            "",
        ]
        .iter()
        .map(|s| json!({ "src": s }))
        .collect()
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        input(r, Kind::Bib, t)
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(c) = case(v) else { return Verdict::Skip };
        let lower = c.src.to_lowercase();
        let f = Flat::new(&c.json);
        if let Some(e) = f.error {
            return fail("reference", format!("{e}\n  source: {:?}", c.src));
        }
        let idx: Vec<u64> = f.out.iter().filter(|e| e["element"] == "bibliography-block").map(|e| e["data"]["index"].as_u64().unwrap_or(99)).collect();
        let bibs = c.json["bibliographies"].as_array().cloned().unwrap_or_default();
        if idx != (0..bibs.len() as u64).collect::<Vec<_>>() {
            return fail("index", format!("bibliography blocks refer to {idx:?} of {}\n  source: {:?}", bibs.len(), c.src));
        }
        if conditionals_closed(&lower) {
            tri!("excluded", c.src, excluded_left(&c.json));
        }
        let head = |h: &str| ["", " title=\"k\"", " hide=\"true\"", " hide=\"no\""].contains(&&h["[[bibliography".len()..]);
        // What the source defines.
        let mut want: Vec<Vec<(String, u64)>> = vec![];
        let mut rest = c.src.as_str();
        let mut readable = true;
        while let Some(p) = rest.find("[[bibliography") {
            rest = &rest[p..];
            let (Some(h), Some(e)) = (rest.find("]]\n"), rest.find("[[/bibliography]]")) else {
                readable = false;
                break;
            };
            if h > e {
                readable = false;
                break;
            }
            let body = &rest[h + 3..e];
            let mut entries: Vec<(String, u64)> = vec![];
            let mut excluded = false;
            readable &= conditionals_closed(&body.to_lowercase()) && (body.is_empty() || body.ends_with('\n')) && head(&rest[..h]);
            for line in body.lines() {
                let Some((l, val)) = line.strip_prefix(": ").and_then(|x| x.split_once(" : ")) else {
                    readable = false;
                    continue;
                };
                excluded |= val.starts_with('z');
                let label_ok = (2..=4).contains(&l.len()) && l.starts_with('l') && l[1..].bytes().all(|b| b.is_ascii_digit());
                let n = markers(val.split(' ').next().unwrap_or(""), 'e');
                readable &= self_contained(val);
                if !label_ok || (n.len() != 1 && !excluded) {
                    readable = false;
                    continue;
                }
                if !entries.iter().any(|(k, _)| k == l) {
                    entries.push((l.to_string(), n.first().copied().unwrap_or(0)));
                }
            }
            if !excluded {
                want.push(entries);
            }
            rest = &rest[e + 2..];
        }
        if readable && !lower[..].contains("\n\n: ") && conditionals_closed(&lower) && false_parts_marked(&lower) && c.src.matches("[[BIBLIOGRAPHY").count() == 0 && !want.iter().any(|w| w.is_empty()) {
            let got: Vec<Vec<(String, u64)>> = bibs
                .iter()
                .map(|b| b.as_array().into_iter().flatten().map(|x| (x[0].as_str().unwrap_or("?").to_string(), markers(&plain(&x[1]), 'e').first().copied().unwrap_or(0))).collect())
                .collect();
            if got != want {
                return fail("entries", format!("bibliographies are {got:?} instead of {want:?}\n  source: {:?}", c.src));
            }
            stats.add("bibliographies compared with the source", got.len() as u64);
            stats.add("entries", got.iter().map(|b| b.len() as u64).sum());
        }
        let dom = match crate::html::parse_body(&c.html) {
            Ok(d) => d,
            Err(e) => return fail("html", format!("{e}\n  source: {:?}", c.src)),
        };
        let n = tri!("html", c.src, same_parts(&c.json, &c.env, &dom, &[
            "wj-bibliography-ref", "wj-bibliography-ref-marker", "wj-bibliography-ref-contents", "wj-bibliography-ref-tooltip-label", "wj-bibliography", "wj-bibliography-item",
            "wj-bibliography-item-marker", "wj-error-inline",
        ]));
        let cites = f.out.iter().filter(|e| e["element"] == "bibliography-cite").count();
        stats.add("html parts compared", n as u64);
        stats.add("citations", cites as u64);
        Verdict::Ok(cites + bibs.len() > 0)
    }
}
