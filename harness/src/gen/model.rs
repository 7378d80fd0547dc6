//! Documents of well-formed markup as abstract models, with the tree each denotes.
//!
//! A model is JSON (so that it can be stored, replayed and shrunk): lists of blocks such as
//! `{"k":"div","a":{"class":"k"},"c":[…]}` and inline items such as "word" or
//! `{"k":"bold","c":[…]}`. `write` spells a model as wikitext, choosing between documented
//! equivalent spellings by a seed, and gives the elements the documentation says it denotes.
//! Models outside the well-formed grammar (which shrinking can make) are refused.

use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Inline container kinds: kind, tree type, block names, symbol delimiters.
pub const STYLES: &[(&str, &str, &[&str], Option<(&str, &str)>)] = &[
    ("bold", "bold", &["b", "bold", "strong"], Some(("**", "**"))),
    ("italics", "italics", &["i", "italics", "em", "emphasis"], Some(("//", "//"))),
    ("underline", "underline", &["u", "underline"], Some(("__", "__"))),
    ("strikethrough", "strikethrough", &["s", "strikethrough"], Some(("--", "--"))),
    ("superscript", "superscript", &["sup", "super", "superscript"], Some(("^^", "^^"))),
    ("subscript", "subscript", &["sub", "subscript"], Some((",,", ",,"))),
    ("monospace", "monospace", &["tt", "mono", "monospace"], Some(("{{", "}}"))),
    ("mark", "mark", &["mark", "highlight"], None),
    ("ins", "insertion", &["ins", "insertion"], None),
    ("del", "deletion", &["del", "deletion"], None),
    ("span", "span", &["span"], None),
    ("hidden", "hidden", &["hidden"], None),
    ("invisible", "invisible", &["invisible"], None),
];

/// Attribute names which are kept as they are.
pub const ATTRS: &[&str] = &["class", "id", "style", "title", "data-k", "aria-label", "lang", "dir"];

pub struct Options {
    /// Only spellings whose trees are equal to the canonical one are chosen with this on;
    /// otherwise always the first spelling of each construct.
    pub vary: bool,
    pub seed: u64,
    pub crlf: bool,
}

#[derive(Default, Debug)]
pub struct Out {
    pub src: String,
    pub elements: Vec<Value>,
    pub footnotes: Vec<Value>,
    pub code: Vec<Value>,
    pub html: Vec<Value>,
    pub bibs: Vec<Value>,
    pub words: usize,
    pub kinds: std::collections::BTreeMap<String, u64>,
    footnote_block: bool,
    names: Vec<String>,
    error: Option<String>,
}

#[derive(Clone, Copy)]
struct Cx<'a> {
    /// Line breaks are allowed.
    nl: bool,
    in_foot: bool,
    /// Symbol styles that are open.
    open: &'a [&'a str],
    /// Within a line of a table, where `|` ends the cell.
    depth: usize,
    top: bool,
    in_link: bool,
    bib: bool,
}

type R<T> = Result<T, String>;

fn bad<T>(what: impl Into<String>) -> R<T> {
    Err(what.into())
}

/// Whether this is a word: letters and digits only.
fn is_word(s: &str) -> bool {
    !s.is_empty() && s.len() < 1200 && s.bytes().all(|b| b.is_ascii_alphanumeric())
}

fn text(s: &str) -> Value {
    json!({"element": "text", "data": s})
}

fn container(ty: impl Into<Value>, attrs: Value, elements: Vec<Value>) -> Value {
    json!({"element": "container", "data": {"type": ty.into(), "attributes": attrs, "elements": elements}})
}

fn push_text(out: &mut Vec<Value>, s: &str) {
    out.push(text(s));
}

/// Adjacent texts joined, everywhere in a tree.
pub fn merged(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut out: Vec<Value> = vec![];
            for x in a {
                let x = merged(x);
                if x["element"] == "text" && x["data"].is_string() {
                    if let Some(l) = out.last_mut() {
                        if l["element"] == "text" {
                            let s = format!("{}{}", l["data"].as_str().unwrap_or(""), x["data"].as_str().unwrap_or(""));
                            l["data"] = json!(s);
                            continue;
                        }
                    }
                }
                out.push(x);
            }
            Value::Array(out)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), merged(v))).collect()),
        _ => v.clone(),
    }
}

pub fn write(doc: &Value, opt: &Options) -> Result<Out, String> {
    let mut w = Writer { opt, o: Out::default(), break_next: false };
    let list = doc.as_array().ok_or("no list")?;
    let els = w.blocks(list, Cx { nl: true, in_foot: false, open: &[], depth: 0, top: true, in_link: false, bib: false })?;
    let mut o = w.o;
    o.elements = els;
    if !o.footnote_block {
        o.elements.push(json!({"element": "footnote-block", "data": {"title": null, "hide": false}}));
    }
    if opt.crlf {
        o.src = o.src.replace('\n', "\r\n");
    }
    Ok(o)
}

/// Spells a list of inline items alone, as for a line of a list or a cell.
pub fn write_inline(items: &Value, opt: &Options) -> Result<Out, String> {
    let mut w = Writer { opt, o: Out::default(), break_next: true };
    let els = w.inline(items, Cx { nl: false, in_foot: false, open: &[], depth: 0, top: false, in_link: false, bib: false })?;
    let mut o = w.o;
    o.elements = els;
    Ok(o)
}

struct Writer<'o> {
    opt: &'o Options,
    o: Out,
    /// The item being written is the last of its line.
    break_next: bool,
}

impl Writer<'_> {
    /// Choices for a node: the same for equal nodes of one document and seed.
    fn rng(&self, v: &Value) -> Rng {
        let mut h = DefaultHasher::new();
        v.to_string().hash(&mut h);
        self.opt.seed.hash(&mut h);
        self.o.src.len().hash(&mut h);
        Rng::new(h.finish())
    }

    fn pick<'a>(&self, r: &mut Rng, a: &[&'a str]) -> &'a str {
        if self.opt.vary {
            r.pick(a)
        } else {
            a[0]
        }
    }

    fn put(&mut self, s: &str) {
        self.o.src.push_str(s);
    }

    fn hit(&mut self, k: &str) {
        *self.o.kinds.entry(k.to_string()).or_default() += 1;
    }

    fn cased(&self, r: &mut Rng, s: &str) -> String {
        if !self.opt.vary {
            return s.into();
        }
        match r.below(4) {
            0 | 1 => s.into(),
            2 => s.to_uppercase(),
            _ => s.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c }).collect(),
        }
    }

    /// `key="value"` arguments in some order.
    fn args(&mut self, r: &mut Rng, a: &[(String, String)]) {
        let mut a: Vec<&(String, String)> = a.iter().collect();
        if self.opt.vary {
            for i in (1..a.len()).rev() {
                a.swap(i, r.below(i + 1));
            }
        }
        for (k, v) in a {
            let sp = self.pick(r, &[" ", " ", "  ", " "]);
            let eq = self.pick(r, &["=", "=", " = ", "= ", " ="]);
            let k = self.cased(r, k);
            let mut e = String::new();
            for c in v.chars() {
                match c {
                    '"' => e.push_str("\\\""),
                    '\\' => e.push_str("\\\\"),
                    '\n' => e.push_str("\\n"),
                    '\t' => e.push_str("\\t"),
                    c => e.push(c),
                }
            }
            self.put(&format!("{sp}{k}{eq}\"{e}\""));
        }
        let end = self.pick(r, &["", "", " "]);
        self.put(end);
    }

    fn attrs(&self, v: &Value) -> R<Vec<(String, String)>> {
        let mut out = vec![];
        match v {
            Value::Null => {}
            Value::Object(o) => {
                for (k, v) in o {
                    if !ATTRS.contains(&k.as_str()) {
                        return bad(format!("attribute {k}"));
                    }
                    let Some(v) = v.as_str() else { return bad("attribute value") };
                    // The string is preprocessed like any text: leave nothing for that.
                    if v.contains(|c: char| c.is_control() && c != '\n' && c != '\t') || v.contains("..") || v.contains("``") || v.contains("''") || v.contains(",,") || v.contains("`") {
                        return bad("value");
                    }
                    out.push((k.clone(), v.to_string()));
                }
            }
            _ => return bad("attributes"),
        }
        Ok(out)
    }

    fn attr_json(&self, a: &[(String, String)]) -> Value {
        Value::Object(a.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<Map<_, _>>())
    }

    /// A word, counted.
    fn word<'a>(&mut self, v: &'a Value) -> R<&'a str> {
        match v.as_str() {
            Some(s) if is_word(s) => {
                self.o.words += 1;
                Ok(s)
            }
            _ => bad("word"),
        }
    }

    /// Text for a label: words separated by single spaces.
    fn label<'a>(&mut self, v: &'a Value) -> R<&'a str> {
        match v.as_str() {
            Some(s) if s.split(' ').all(is_word) => Ok(s),
            _ => bad("label"),
        }
    }

    fn inline(&mut self, items: &Value, cx: Cx) -> R<Vec<Value>> {
        let Some(items) = items.as_array() else { return bad("inline list") };
        if items.is_empty() || cx.depth > 12 {
            return bad("empty");
        }
        let mut out = vec![];
        let mut glued = true;
        for (i, it) in items.iter().enumerate() {
            let brk = matches!(it["k"].as_str(), Some("br" | "nbr"));
            if brk {
                // Breaks only between other items.
                if glued || i + 1 == items.len() || !cx.nl {
                    return bad("break");
                }
                // Blocks which take line breaks of their own take those before them, too.
                if matches!(items[i + 1]["k"].as_str(), Some("hidden" | "invisible" | "ruby" | "target" | "if" | "lines")) {
                    return bad("break before a block");
                }
                if it["k"] == "br" {
                    self.put("\n");
                } else {
                    self.put(" _\n");
                }
                out.push(json!({"element": "line-break"}));
                self.hit("line break");
                glued = true;
                continue;
            }
            if !glued {
                self.put(" ");
                push_text(&mut out, " ");
            }
            if it["s"] == "\\" && (i + 1 == items.len() || matches!(items[i + 1]["k"].as_str(), Some("br" | "nbr"))) {
                return bad("line continuation");
            }
            // A comment leaves the spaces around it behind, which are not kept at an end.
            if it["k"] == "comment" {
                let brk = |j: Option<&Value>| j.is_none_or(|v| matches!(v["k"].as_str(), Some("br" | "nbr" | "comment")));
                if brk(i.checked_sub(1).and_then(|j| items.get(j))) || brk(items.get(i + 1)) {
                    return bad("comment at an end");
                }
            }
            // This one takes a line break after it, whatever that was to end.
            if it["k"] == "lines" && items.get(i + 1).is_none_or(|v| matches!(v["k"].as_str(), Some("br" | "nbr" | "comment"))) {
                return bad("lines at an end");
            }
            self.break_next = i + 1 == items.len() || items[i + 1]["k"] == "br";
            glued = self.item(it, cx, &mut out)?;
        }
        if glued && out.last().map(|e| e["element"] == "line-break").unwrap_or(true) {
            return bad("ends in a break");
        }
        Ok(out)
    }

    /// Writes an item. Returns whether it takes the space after it.
    fn item(&mut self, v: &Value, cx: Cx, out: &mut Vec<Value>) -> R<bool> {
        if v.is_string() {
            let w = self.word(v)?.to_string();
            self.put(&w);
            push_text(out, &w);
            return Ok(false);
        }
        let k = v["k"].as_str().unwrap_or("").to_string();
        let mut r = self.rng(v);
        let r = &mut r;
        let inner = Cx { depth: cx.depth + 1, top: false, ..cx };
        self.hit(&k);
        if let Some((_, ty, names, sym)) = STYLES.iter().find(|s| s.0 == k) {
            let a = self.attrs(&v["a"])?;
            // The symbol form has no attributes, and doesn't nest in itself.
            if let (Some((open, close)), true) = (sym, a.is_empty() && !cx.open.contains(&k.as_str()) && !cx.open.contains(&"raw")) {
                if !self.opt.vary || r.coin() {
                    let mut stack = cx.open.to_vec();
                    stack.push(&k);
                    self.put(open);
                    let c = self.inline(&v["c"], Cx { open: &stack, nl: false, ..inner })?;
                    self.put(close);
                    out.push(container(*ty, json!({}), c));
                    return Ok(false);
                }
            }
            let n = self.pick(r, names);
            let n2 = if self.opt.vary && r.chance(1, 4) { self.pick(r, names) } else { n };
            let (n, n2) = (self.cased(r, n), self.cased(r, n2));
            self.put(&format!("[[{n}"));
            self.args(r, &a);
            self.put("]]");
            // Symbol styles outside of the block don't end within it.
            let c = self.inline(&v["c"], Cx { nl: false, ..inner })?;
            self.put(&format!("[[/{n2}]]"));
            out.push(container(*ty, self.attr_json(&a), c));
            return Ok(false);
        }
        match k.as_str() {
            "sym" => {
                let (s, t) = match v["s"].as_str() {
                    Some("<<") => ("<<", "«"),
                    Some("...") => ("...", "…"),
                    Some("&") => ("&", "&"),
                    Some("<b>") => ("<b>", "<b>"),
                    Some("ü") => ("ü", "ü"),
                    Some("😀") => ("😀", "😀"),
                    Some("*x") => ("*x", "*x"),
                    Some("[x]") => ("[x]", "[x]"),
                    Some("x_y") => ("x_y", "x_y"),
                    Some("$5") => ("$5", "$5"),
                    Some("a=b") => ("a=b", "a=b"),
                    Some("(x)") => ("(x)", "(x)"),
                    Some("\"q\"") => ("\"q\"", "\"q\""),
                    Some("\\") => ("\\", "\\"),
                    _ => return bad("symbol"),
                };
                // A `*` or such must not start a line.
                if !self.o.src.ends_with(' ') {
                    return bad("symbol at the start");
                }
                self.put(s);
                push_text(out, t);
            }
            "color" => {
                let (c, t) = match v["v"].as_str() {
                    Some("red") => ("red", "red"),
                    Some("abc") => ("abc", "#abc"),
                    Some("12Ab90") => ("12Ab90", "#12Ab90"),
                    Some("#123456") => ("#123456", "#123456"),
                    Some("rgb(1,2,3)") => ("rgb(1,2,3)", "rgb(1,2,3)"),
                    _ => return bad("color"),
                };
                if cx.open.contains(&"color") {
                    return bad("nested color");
                }
                let mut stack = cx.open.to_vec();
                stack.push("color");
                self.put(&format!("##{c}|"));
                let els = self.inline(&v["c"], Cx { open: &stack, nl: false, ..inner })?;
                self.put("##");
                out.push(json!({"element": "color", "data": {"color": t, "elements": els}}));
            }
            "size" => {
                let Some(s) = v["v"].as_str().filter(|s| ["2em", "150%", "x-large", "0.8em"].contains(s)) else { return bad("size") };
                let n = self.cased(r, "size");
                self.put(&format!("[[{n} {s}]]"));
                let els = self.inline(&v["c"], Cx { nl: false, ..inner })?;
                self.put("[[/size]]");
                out.push(container("size", json!({"style": format!("font-size: {s};")}), els));
            }
            "a" => {
                if cx.in_link {
                    return bad("link in a link");
                }
                let a = self.attrs(&v["a"])?;
                let star = v["star"] == true;
                let n = self.pick(r, &["a", "anchor"]);
                let n = self.cased(r, n);
                self.put(&format!("[[{}{n}", if star { "*" } else { "" }));
                let mut all = a.clone();
                all.push(("href".into(), "/k".into()));
                self.args(r, &all);
                self.put("]]");
                let els = self.inline(&v["c"], Cx { nl: false, in_link: true, ..inner })?;
                let n = self.pick(r, &["a", "anchor"]);
                self.put(&format!("[[/{n}]]"));
                let target = if star { json!("new-tab") } else { Value::Null };
                out.push(json!({"element": "anchor", "data": {"target": target, "attributes": self.attr_json(&all), "elements": els}}));
            }
            "ruby" => {
                let (base, rt) = (self.label(&v["b"])?.to_string(), self.label(&v["t"])?.to_string());
                let rtc = container("ruby-text", json!({}), vec![text(&rt)]);
                if self.opt.vary && r.coin() {
                    let n = self.pick(r, &["rb", "ruby2"]);
                    let n = self.cased(r, n);
                    let p = self.pick(r, &["|", " | ", "| "]);
                    self.put(&format!("[[{n} {base}{p}{rt}]]"));
                } else {
                    let n = self.pick(r, &["rt", "rubytext"]);
                    let m = self.cased(r, "ruby");
                    self.put(&format!("[[{m}]]{base}[[{n}]]{rt}[[/{n}]][[/ruby]]"));
                }
                out.push(container("ruby", json!({}), vec![text(&base), rtc]));
            }
            "raw" => {
                let Some(s) = v["v"].as_str() else { return bad("raw") };
                if s.is_empty() || s.contains('@') || s.contains(|c: char| c.is_control()) || s.trim() != s || s.contains("://") || s.contains("..") || s.contains("``") || s.contains("''") || s.contains(",,") || s.contains('"') {
                    return bad("raw");
                }
                if self.opt.vary && r.coin() && !s.contains('&') && !s.contains('>') && !s.ends_with('|') && !s.ends_with('~') {
                    self.put(&format!("@<{s}>@"));
                } else {
                    self.put(&format!("@@{s}@@"));
                }
                out.push(json!({"element": "raw", "data": s}));
            }
            "link" => {
                if cx.in_link {
                    return bad("link in a link");
                }
                let page = self.label(&v["page"])?.to_string();
                let label = self.label(&v["t"])?.to_string();
                let star = v["star"] == true;
                let (a, b) = (self.pick(r, &["", "", " "]), self.pick(r, &["", "", " "]));
                self.put(&format!("[[[{}{page}{a}|{b}{label}{a}]]]", if star { "*" } else { "" }));
                let target = if star { json!("new-tab") } else { Value::Null };
                out.push(json!({"element": "link", "data": {"type": "page", "link": {"site": null, "page": page}, "extra": null, "label": {"text": label}, "target": target}}));
            }
            "url" => {
                if cx.in_link {
                    return bad("link in a link");
                }
                let url = match v["v"].as_str() {
                    Some(u @ ("http://x.com/a" | "https://y.org/?q=1&r=2" | "ftp://z.net/" | "/page/sub")) => u,
                    _ => return bad("url"),
                };
                let label = self.label(&v["t"])?.to_string();
                let star = v["star"] == true;
                let target = if star { json!("new-tab") } else { Value::Null };
                self.put(&format!("[{}{url} {label}]", if star { "*" } else { "" }));
                out.push(json!({"element": "link", "data": {"type": "direct", "link": url, "extra": null, "label": {"text": label}, "target": target}}));
            }
            "anchorlink" => {
                if cx.in_link {
                    return bad("link in a link");
                }
                let n = self.label(&v["n"])?.to_string();
                if n.contains(' ') {
                    return bad("name");
                }
                let label = self.label(&v["t"])?.to_string();
                self.put(&format!("[#{n} {label}]"));
                out.push(json!({"element": "link", "data": {"type": "anchor", "link": format!("#{n}"), "extra": null, "label": {"text": label}, "target": null}}));
            }
            "target" => {
                let n = self.label(&v["n"])?.to_string();
                if n.contains(' ') {
                    return bad("name");
                }
                // The block takes a line break after it, the symbol form does not.
                match if self.opt.vary { r.below(if self.break_next { 2 } else { 3 }) } else { 0 } {
                    0 => self.put(&format!("[[# {n}]]")),
                    1 => self.put(&format!("[[#  {n}]]")),
                    _ => {
                        let m = self.pick(r, &["target", "anchortarget"]);
                        let m = self.cased(r, m);
                        self.put(&format!("[[{m} {n}]]"));
                    }
                }
                out.push(json!({"element": "anchor-name", "data": n}));
            }
            "foot" => {
                if cx.in_foot || cx.in_link {
                    return bad("footnote in a footnote");
                }
                let (n, m) = (self.cased(r, "footnote"), self.cased(r, "footnote"));
                self.put(&format!("[[{n}]]"));
                let els = if v["b"].is_array() {
                    // More than one paragraph, or other blocks.
                    let list = v["b"].as_array().unwrap();
                    if list.len() < 2 || !cx.nl || !cx.open.is_empty() || list.iter().any(|b| b["k"] == "h") {
                        return bad("footnote blocks");
                    }
                    self.put("\n");
                    let e = self.blocks(list, Cx { in_foot: true, open: &[], top: false, depth: cx.depth + 2, ..cx })?;
                    // The end tag is on the line of the last paragraph: a line break would count.
                    e
                } else {
                    self.inline(&v["c"], Cx { in_foot: true, nl: false, ..inner })?
                };
                self.put(&format!("[[/{m}]]"));
                self.o.footnotes.push(Value::Array(els));
                out.push(json!({"element": "footnote"}));
            }
            "user" => {
                let n = match v["n"].as_str() {
                    Some(n) if USERS.contains(&n) => n.to_string(),
                    _ => self.label(&v["n"])?.to_string(),
                };
                let star = v["star"] == true;
                let m = self.cased(r, "user");
                self.put(&format!("[[{}{m} {n}]]", if star { "*" } else { "" }));
                out.push(json!({"element": "user", "data": {"name": n, "show-avatar": star}}));
            }
            "image" => {
                let src = match v["v"].as_str() {
                    Some("http://x.com/a.png") => json!({"type": "url", "data": "http://x.com/a.png"}),
                    Some("a.png" | "/a.png") => json!({"type": "file1", "data": {"file": "a.png"}}),
                    Some("/p/a.png" | "p/a.png") => json!({"type": "file2", "data": {"page": "p", "file": "a.png"}}),
                    Some("/s/p/a.png" | "s/p/a.png") => json!({"type": "file3", "data": {"site": "s", "page": "p", "file": "a.png"}}),
                    _ => return bad("image"),
                };
                let (pre, al) = match v["al"].as_str() {
                    None => ("", Value::Null),
                    Some("=") => ("=", json!({"align": "center", "float": false})),
                    Some("<") => ("<", json!({"align": "left", "float": false})),
                    Some(">") => (">", json!({"align": "right", "float": false})),
                    Some("f<") => ("f<", json!({"align": "left", "float": true})),
                    Some("f>") => ("f>", json!({"align": "right", "float": true})),
                    _ => return bad("alignment"),
                };
                let a = self.attrs(&v["a"])?;
                let mut all = a.clone();
                let link = match v["link"].as_str() {
                    None => Value::Null,
                    Some(l @ ("/foo" | "http://z.org/" | "#k")) if !cx.in_link => {
                        all.push(("link".into(), l.into()));
                        if l.starts_with("http") || l.starts_with('/') || l.starts_with('#') { json!(l) } else { Value::Null }
                    }
                    _ => return bad("image link"),
                };
                let n = self.cased(r, "image");
                let pre = if pre.starts_with('f') && self.opt.vary && r.coin() { pre.to_uppercase() } else { pre.into() };
                self.put(&format!("[[{pre}{n} {}", v["v"].as_str().unwrap()));
                self.args(r, &all);
                self.put("]]");
                out.push(json!({"element": "image", "data": {"source": src, "link": link, "alignment": al, "attributes": self.attr_json(&a)}}));
            }
            "imath" => {
                let Some(s) = v["v"].as_str().filter(|s| ["x^2", "a_1 + b", "\\frac{1}{2}"].contains(s)) else { return bad("math") };
                let sp = self.pick(r, &[" ", " ", "  "]);
                self.put(&format!("[[${sp}{s}{sp}$]]"));
                out.push(json!({"element": "math-inline", "data": {"latex-source": s}}));
            }
            "check" => {
                let a = self.attrs(&v["a"])?;
                let star = v["star"] == true;
                let n = self.cased(r, "checkbox");
                self.put(&format!("[[{}{n}", if star { "*" } else { "" }));
                self.args(r, &a);
                self.put("]] ");
                out.push(json!({"element": "check-box", "data": {"checked": star, "attributes": self.attr_json(&a)}}));
                return Ok(true);
            }
            "radio" => {
                let a = self.attrs(&v["a"])?;
                let star = v["star"] == true;
                let name = self.label(&v["n"])?.to_string();
                if name.contains(' ') {
                    return bad("name");
                }
                let n = self.pick(r, &["radio", "radio-button"]);
                let n = self.cased(r, n);
                self.put(&format!("[[{}{n} {name}", if star { "*" } else { "" }));
                self.args(r, &a);
                self.put("]] ");
                out.push(json!({"element": "radio-button", "data": {"name": name, "checked": star, "attributes": self.attr_json(&a)}}));
                return Ok(true);
            }
            "eref" => {
                let n = self.label(&v["n"])?.to_string();
                let m = self.pick(r, &["eref", "equation", "eqref"]);
                let m = self.cased(r, m);
                self.put(&format!("[[{m} {n}]]"));
                out.push(json!({"element": "equation-reference", "data": n}));
            }
            "cite" => {
                let n = self.label(&v["n"])?.to_string();
                if n.contains(' ') {
                    return bad("name");
                }
                let brackets = v["br"] == true;
                let m = self.cased(r, "bibcite");
                if brackets {
                    self.put(&format!("[[{m} {n}]]"));
                } else if self.opt.vary && r.coin() {
                    self.put(&format!("[[{m}_ {n}]]"));
                } else {
                    self.put(&format!("((bibcite {n}))"));
                }
                out.push(json!({"element": "bibliography-cite", "data": {"label": n, "brackets": brackets}}));
            }
            "lines" => {
                let Some(n) = v["v"].as_u64().filter(|n| (1..=100).contains(n)) else { return bad("lines") };
                let m = self.pick(r, &["lines", "newlines"]);
                let m = self.cased(r, m);
                self.put(&format!("[[{m} {n}]]"));
                out.push(json!({"element": "line-breaks", "data": n}));
            }
            "char" => {
                let (s, t) = match v["v"].as_str() {
                    Some("copy") => ("copy", "©"),
                    Some("&amp;") => ("&amp;", "&"),
                    Some("#65") => ("#65", "A"),
                    Some("#x1F600") => ("#x1F600", "😀"),
                    Some("&mdash;") => ("&mdash;", "—"),
                    _ => return bad("char"),
                };
                let m = self.pick(r, &["char", "character"]);
                let m = self.cased(r, m);
                self.put(&format!("[[{m} {s}]]"));
                push_text(out, t);
            }
            "date" => {
                let (s, t) = match v["v"].as_str() {
                    Some("2020-02-29") => ("2020-02-29", "2020-02-29"),
                    Some("1216502818") => ("1216502818", "2008-07-19 21:26:58.0 +00:00:00"),
                    Some("2010-01-01T08:10:00+00:00") => ("2010-01-01T08:10:00+00:00", "2010-01-01 08:10:00.0 +00:00:00"),
                    _ => return bad("date"),
                };
                let mut all = vec![];
                let mut hover = true;
                if let Some(h) = v["hover"].as_bool() {
                    hover = h;
                    all.push(("hover".to_string(), self.boolean(r, h).to_string()));
                }
                let format = match v["fmt"].as_str() {
                    None => Value::Null,
                    Some(f @ ("%Y" | "%Y-%m-%d")) => {
                        all.push(("format".to_string(), f.to_string()));
                        json!(f)
                    }
                    _ => return bad("format"),
                };
                let m = self.cased(r, "date");
                self.put(&format!("[[{m} {s}"));
                self.args(r, &all);
                self.put("]]");
                out.push(json!({"element": "date", "data": {"value": t, "format": format, "hover": hover}}));
            }
            "var" => {
                let n = self.label(&v["n"])?.to_string();
                if n.contains(' ') {
                    return bad("name");
                }
                self.put(&format!("{{${n}}}"));
                out.push(json!({"element": "variable", "data": n}));
            }
            "if" => {
                // The condition holds (see Env::default).
                let (open, close) = self.condition(r, &v["v"])?;
                self.put(&open);
                let els = self.inline(&v["c"], Cx { nl: false, ..inner })?;
                self.put(&close);
                out.extend(els);
            }
            "comment" => {
                let Some(s) = v["v"].as_str().filter(|s| ["x", "**", "[[div]]", " a b "].contains(s)) else { return bad("comment") };
                self.put(&format!("[!--{s}--]"));
            }
            _ => return bad(format!("item {k}")),
        }
        Ok(false)
    }

    fn condition(&mut self, r: &mut Rng, v: &Value) -> R<(String, String)> {
        let (n, c) = match v.as_str() {
            Some("t1") => ("iftags", "+tale"),
            Some("t2") => ("iftags", "tale zzz"),
            Some("t3") => ("iftags", "-zzz"),
            Some("c1") => ("ifcategory", "_default"),
            Some("c2") => ("ifcategory", "-zzz"),
            _ => return bad("condition"),
        };
        let (a, b) = (self.cased(r, n), self.cased(r, n));
        Ok((format!("[[{a} {c}]]"), format!("[[/{b}]]")))
    }

    fn boolean<'a>(&self, r: &mut Rng, b: bool) -> &'a str {
        if b {
            self.pick(r, &["true", "t", "1", "yes", "TRUE", "Yes"])
        } else {
            self.pick(r, &["false", "f", "0", "no", "False", "NO"])
        }
    }

    /// Whether a block ends with a tag or on a line of its own, so that a single line break
    /// after it is no part of anything.
    fn closed(v: &Value) -> bool {
        matches!(
            v["k"].as_str(),
            Some("div" | "quoteblock" | "collapsible" | "align" | "tabs" | "code" | "html" | "math" | "ul" | "table" | "toc" | "iframe" | "embed" | "module" | "style" | "h" | "hr" | "bib" | "fnblock" | "center")
        )
    }

    /// Whether a block may follow a paragraph's line directly.
    fn interrupts(v: &Value) -> bool {
        matches!(v["k"].as_str(), Some("div" | "quoteblock" | "collapsible" | "align" | "tabs" | "code" | "html" | "math" | "ul" | "toc" | "iframe" | "embed" | "h" | "hr" | "list" | "quote" | "center" | "bib" | "deflist"))
    }

    fn blocks(&mut self, list: &[Value], cx: Cx) -> R<Vec<Value>> {
        if list.is_empty() || cx.depth > 12 {
            return bad("no blocks");
        }
        let mut out = vec![];
        let mut prev: Option<&Value> = None;
        for b in list {
            if let Some(p) = prev {
                // Lists continue across blank lines.
                if p["k"] == b["k"] && matches!(b["k"].as_str(), Some("list" | "quote" | "deflist")) {
                    return bad("would join");
                }
                let mut r = self.rng(b);
                let tight = (Self::closed(p) || p["k"] == "p") && (Self::interrupts(b) || (b["k"] == "p" && Self::closed(p)));
                let sep = if tight { self.pick(&mut r, &["\n\n", "\n", "\n\n\n", "\n"]) } else { self.pick(&mut r, &["\n\n", "\n\n\n"]) };
                self.put(sep);
            }
            self.block(b, cx, &mut out)?;
            prev = Some(b);
        }
        Ok(out)
    }

    /// The body of a block in which paragraphs are made: on lines of its own, or inline.
    fn body(&mut self, r: &mut Rng, v: &Value, cx: Cx) -> R<Vec<Value>> {
        let Some(list) = v.as_array() else { return bad("body") };
        let inline = self.opt.vary && r.chance(1, 3) && list.first().is_some_and(|b| b["k"] == "p") && list.last().is_some_and(|b| b["k"] == "p");
        if !inline {
            self.put("\n");
        }
        let out = self.blocks(list, Cx { depth: cx.depth + 1, top: false, open: &[], nl: true, ..cx })?;
        if !inline {
            self.put("\n");
        }
        Ok(out)
    }

    fn block(&mut self, v: &Value, cx: Cx, out: &mut Vec<Value>) -> R<()> {
        let mut r = self.rng(v);
        let r = &mut r;
        let k = v["k"].as_str().unwrap_or("").to_string();
        self.hit(&k);
        let line = Cx { nl: false, top: false, open: &[], depth: cx.depth + 1, ..cx };
        let para = Cx { nl: true, ..line };
        match k.as_str() {
            "p" => {
                let els = self.inline(&v["c"], para)?;
                if els.iter().all(|e| e["element"] == "text" && e["data"].as_str().is_none_or(|s| s.trim().is_empty())) {
                    return bad("paragraph of nothing");
                }
                out.push(container("paragraph", json!({}), els));
            }
            "h" => {
                let l = v["l"].as_u64().filter(|l| (1..=6).contains(l)).ok_or("level")?;
                let star = v["star"] == true;
                let sp = self.pick(r, &[" ", " ", "  "]);
                self.put(&format!("{}{}{sp}", "+".repeat(l as usize), if star { "*" } else { "" }));
                let els = self.inline(&v["c"], line)?;
                out.push(container(json!({"header": {"level": l, "has-toc": !star}}), json!({}), els));
            }
            "hr" => {
                let d = self.pick(r, &["----", "-----", "--------"]);
                self.put(d);
                out.push(json!({"element": "horizontal-rule"}));
            }
            "float" => {
                let (s, t) = match v["v"].as_str() {
                    Some("both") => ("", "both"),
                    Some("left") => ("<", "left"),
                    Some("right") => (">", "right"),
                    _ => return bad("float"),
                };
                let d = self.pick(r, &["~~~~", "~~~~~"]);
                self.put(&format!("{d}{s}"));
                out.push(json!({"element": "clear-float", "data": t}));
            }
            "center" => {
                self.put("= ");
                let els = self.inline(&v["c"], line)?;
                out.push(container(json!({"align": "center"}), json!({}), els));
            }
            "div" => {
                let a = self.attrs(&v["a"])?;
                let score = v["score"] == true;
                let n = self.cased(r, "div");
                self.put(&format!("[[{n}{}", if score { "_" } else { "" }));
                self.args(r, &a);
                self.put("]]");
                let els = if score {
                    // No paragraphs in this one.
                    self.put("\n");
                    let e = self.inline(&v["c"], Cx { nl: false, ..line })?;
                    self.put("\n");
                    e
                } else {
                    self.body(r, &v["c"], cx)?
                };
                let n = self.cased(r, "div");
                self.put(&format!("[[/{n}]]"));
                out.push(container("div", self.attr_json(&a), els));
            }
            "quoteblock" => {
                let a = self.attrs(&v["a"])?;
                let n = self.pick(r, &["blockquote", "quote"]);
                let n = self.cased(r, n);
                self.put(&format!("[[{n}"));
                self.args(r, &a);
                self.put("]]");
                let els = self.body(r, &v["c"], cx)?;
                let n = self.pick(r, &["blockquote", "quote"]);
                self.put(&format!("[[/{n}]]"));
                out.push(container("blockquote", self.attr_json(&a), els));
            }
            "align" => {
                let (s, t) = match v["v"].as_str() {
                    Some("center") => ("=", "center"),
                    Some("justify") => ("==", "justify"),
                    Some("left") => ("<", "left"),
                    Some("right") => (">", "right"),
                    _ => return bad("alignment"),
                };
                self.put(&format!("[[{s}]]"));
                let els = self.body(r, &v["c"], cx)?;
                self.put(&format!("[[/{s}]]"));
                out.push(container(json!({"align": t}), json!({}), els));
            }
            "collapsible" => {
                let a = self.attrs(&v["a"])?;
                let mut all = a.clone();
                let mut texts = [Value::Null, Value::Null];
                for (i, key) in ["show", "hide"].iter().enumerate() {
                    if !v[key].is_null() {
                        let t = self.label(&v[key])?.to_string();
                        texts[i] = json!(t);
                        all.push((key.to_string(), t));
                    }
                }
                let mut open = false;
                if let Some(f) = v["folded"].as_bool() {
                    open = !f;
                    let b = self.boolean(r, f).to_string();
                    all.push(("folded".into(), b));
                }
                let (mut top, mut bottom) = (true, false);
                if let Some(l) = v["loc"].as_str() {
                    let names: &[&str] = match l {
                        "top" => &["top"],
                        "bottom" => &["bottom"],
                        "both" => &["both"],
                        "neither" => &["neither", "none"],
                        _ => return bad("location"),
                    };
                    (top, bottom) = (l == "top" || l == "both", l == "bottom" || l == "both");
                    let x = self.pick(r, names);
                    let x = self.cased(r, x);
                    all.push(("hideLocation".into(), x));
                }
                let n = self.cased(r, "collapsible");
                self.put(&format!("[[{n}"));
                self.args(r, &all);
                self.put("]]");
                let els = self.body(r, &v["c"], cx)?;
                self.put("[[/collapsible]]");
                let [show, hide] = texts;
                out.push(json!({"element": "collapsible", "data": {"elements": els, "attributes": self.attr_json(&a), "start-open": open,
                    "show-text": show, "hide-text": hide, "show-top": top, "show-bottom": bottom}}));
            }
            "tabs" => {
                let n = self.pick(r, &["tabview", "tabs"]);
                let n = self.cased(r, n);
                self.put(&format!("[[{n}]]\n"));
                let mut tabs = vec![];
                let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("tabs") };
                for t in list {
                    let label = self.label(&t["t"])?.to_string();
                    let m = self.cased(r, "tab");
                    self.put(&format!("[[{m} {label}]]"));
                    let els = self.body(r, &t["c"], cx)?;
                    let sp = self.pick(r, &["\n", "\n", "\n\n", " \n"]);
                    self.put(&format!("[[/tab]]{sp}"));
                    tabs.push(json!({"label": label, "elements": els}));
                }
                let n = self.pick(r, &["tabview", "tabs"]);
                self.put(&format!("[[/{n}]]"));
                out.push(json!({"element": "tab-view", "data": tabs}));
            }
            "code" => {
                let body = self.raw_body(&v["v"], "code")?;
                let mut all = vec![];
                let mut lang = Value::Null;
                if let Some(l) = v["lang"].as_str() {
                    if !["css", "php", "rust"].contains(&l) {
                        return bad("language");
                    }
                    lang = json!(l);
                    let l = self.cased(r, l);
                    all.push(("type".to_string(), l));
                }
                let mut name = Value::Null;
                if let Some(n) = v["name"].as_str() {
                    if !is_word(n) || n.to_lowercase() != n || self.o.names.iter().any(|x| x == n) {
                        return bad("code name");
                    }
                    self.o.names.push(n.to_string());
                    name = json!(n);
                    all.push(("name".into(), n.into()));
                }
                let n = self.cased(r, "code");
                self.put(&format!("[[{n}"));
                self.args(r, &all);
                self.put("]]\n");
                self.put(&body);
                self.put("\n[[/code]]");
                self.o.code.push(json!({"contents": body, "name": name}));
                out.push(json!({"element": "code", "data": {"contents": body, "language": lang}}));
            }
            "html" => {
                let body = self.raw_body(&v["v"], "html")?;
                let n = self.cased(r, "html");
                self.put(&format!("[[{n}]]\n{body}\n[[/html]]"));
                self.o.html.push(json!(body));
                out.push(json!({"element": "html", "data": {"contents": body}}));
            }
            "math" => {
                let Some(s) = v["v"].as_str().filter(|s| ["x^2", "a_1 + b\n= c", "\\frac{1}{2}"].contains(s)) else { return bad("math") };
                let n = self.cased(r, "math");
                let name = if v["n"].is_null() { Value::Null } else { json!(self.label(&v["n"])?) };
                let sp = name.as_str().map(|n| format!(" {n}")).unwrap_or_default();
                self.put(&format!("[[{n}{sp}]]\n{s}\n[[/math]]"));
                out.push(json!({"element": "math", "data": {"name": name, "latex-source": s}}));
            }
            "ul" => {
                let ty = if v["o"] == true { "numbered" } else { "bullet" };
                let e = self.list_block(r, v, ty, cx)?;
                out.push(e);
            }
            "table" => {
                let a = self.attrs(&v["a"])?;
                let n = self.cased(r, "table");
                self.put(&format!("[[{n}"));
                self.args(r, &a);
                self.put("]]");
                let sep = |w: &mut Self, r: &mut Rng| {
                    let s = w.pick(r, &["\n", "\n", "", " ", "\n\n", "\n  "]);
                    w.put(s);
                };
                sep(self, r);
                let mut rows = vec![];
                let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("rows") };
                for row in list {
                    let ra = self.attrs(&row["a"])?;
                    let n = self.cased(r, "row");
                    self.put(&format!("[[{n}"));
                    self.args(r, &ra);
                    self.put("]]");
                    sep(self, r);
                    let mut cells = vec![];
                    let Some(list) = row["c"].as_array().filter(|l| !l.is_empty()) else { return bad("cells") };
                    for cell in list {
                        let ca = self.attrs(&cell["a"])?;
                        let mut all = ca.clone();
                        let mut span = 1;
                        if let Some(n) = cell["sp"].as_u64().filter(|n| (1..50).contains(n)) {
                            span = n;
                            all.push(("colspan".into(), n.to_string()));
                        }
                        let h = cell["h"] == true;
                        let n = if h { "hcell" } else { "cell" };
                        let m = self.cased(r, n);
                        self.put(&format!("[[{m}"));
                        self.args(r, &all);
                        self.put("]]");
                        let els = if cell["b"].is_array() {
                            // A block on lines of its own.
                            let list = cell["b"].as_array().unwrap();
                            if list.len() != 1 || list[0]["k"] == "p" {
                                return bad("cell blocks");
                            }
                            self.put("\n");
                            let e = self.blocks(list, Cx { top: false, depth: cx.depth + 1, ..cx })?;
                            self.put("\n");
                            e
                        } else {
                            let ws = self.pick(r, &["", " ", "\n"]);
                            self.put(ws);
                            let e = self.inline(&cell["c"], para)?;
                            let ws = self.pick(r, &["", " ", "\n"]);
                            self.put(ws);
                            e
                        };
                        let m = self.cased(r, n);
                        self.put(&format!("[[/{m}]]"));
                        sep(self, r);
                        cells.push(json!({"header": h, "column-span": span, "align": null, "attributes": self.attr_json(&ca), "elements": els}));
                    }
                    self.put("[[/row]]");
                    sep(self, r);
                    rows.push(json!({"attributes": self.attr_json(&ra), "cells": cells}));
                }
                self.put("[[/table]]");
                out.push(json!({"element": "table", "data": {"attributes": self.attr_json(&a), "rows": rows}}));
            }
            "ptable" => {
                let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("rows") };
                let mut rows = vec![];
                for (i, row) in list.iter().enumerate() {
                    if i > 0 {
                        self.put("\n");
                    }
                    let Some(list) = row.as_array().filter(|l| !l.is_empty()) else { return bad("cells") };
                    let mut cells = vec![];
                    for cell in list {
                        let span = cell["sp"].as_u64().unwrap_or(1);
                        if !(1..=6).contains(&span) {
                            return bad("span");
                        }
                        let (m, h, al) = match cell["m"].as_str() {
                            None => ("", false, Value::Null),
                            Some("~") => ("~", true, Value::Null),
                            Some("<") => ("<", false, json!("left")),
                            Some(">") => (">", false, json!("right")),
                            Some("=") => ("=", false, json!("center")),
                            _ => return bad("marker"),
                        };
                        self.put(&"||".repeat(span as usize));
                        self.put(m);
                        let sp = self.pick(r, &[" ", " ", "", "  "]);
                        self.put(sp);
                        // Symbols at the start of a cell could join the marker.
                        if !cell["c"][0].is_string() {
                            return bad("cell start");
                        }
                        let els = self.inline(&cell["c"], line)?;
                        let sp = self.pick(r, &[" ", " ", "", "  "]);
                        self.put(sp);
                        cells.push(json!({"header": h, "column-span": span, "align": al, "attributes": {}, "elements": els}));
                    }
                    self.put("||");
                    rows.push(json!({"attributes": {}, "cells": cells}));
                }
                out.push(json!({"element": "table", "data": {"attributes": {"class": "wj-table"}, "rows": rows}}));
            }
            "list" => {
                let e = self.list_lines(v, 0, line)?;
                // The last line break.
                if self.o.src.ends_with('\n') {
                    self.o.src.pop();
                }
                out.push(e);
            }
            "quote" => {
                let d = v["d"].as_u64().filter(|d| (1..=5).contains(d)).ok_or("depth")?;
                let Some(lines) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("lines") };
                let mut els = vec![];
                for (i, l) in lines.iter().enumerate() {
                    if i > 0 {
                        self.put("\n");
                        els.push(json!({"element": "line-break"}));
                    }
                    let sp = self.pick(r, &[" ", " ", "  "]);
                    self.put(&format!("{}{sp}", ">".repeat(d as usize)));
                    els.extend(self.inline(l, line)?);
                }
                let mut e = container("paragraph", json!({}), els);
                for _ in 0..d {
                    e = container("blockquote", json!({}), vec![e]);
                }
                out.push(e);
            }
            "deflist" => {
                let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("entries") };
                let mut items = vec![];
                for (i, d) in list.iter().enumerate() {
                    if i > 0 {
                        self.put("\n");
                    }
                    self.put(": ");
                    let key = self.label(&d["t"])?.to_string();
                    self.put(&key);
                    self.put(" : ");
                    let els = self.inline(&d["c"], line)?;
                    items.push(json!({"key_string": key, "key": [text(&key)], "value": els}));
                }
                out.push(json!({"element": "definition-list", "data": items}));
            }
            "toc" => {
                let (n, al) = match v["al"].as_str() {
                    None => ("toc", Value::Null),
                    Some("left") => ("f<toc", json!("left")),
                    Some("right") => ("f>toc", json!("right")),
                    _ => return bad("toc"),
                };
                let n = self.cased(r, n);
                self.put(&format!("[[{n}]]"));
                out.push(json!({"element": "table-of-contents", "data": {"align": al, "attributes": {}}}));
            }
            "fnblock" => {
                if !cx.top || self.o.footnote_block {
                    return bad("footnote block");
                }
                self.o.footnote_block = true;
                let mut all = vec![];
                let title = if v["t"].is_null() { Value::Null } else { json!(self.label(&v["t"])?) };
                if let Some(t) = title.as_str() {
                    all.push(("title".to_string(), t.to_string()));
                }
                let mut hide = false;
                if let Some(h) = v["hide"].as_bool() {
                    hide = h;
                    let b = self.boolean(r, h).to_string();
                    all.push(("hide".into(), b));
                }
                let n = self.cased(r, "footnoteblock");
                self.put(&format!("[[{n}"));
                self.args(r, &all);
                self.put("]]");
                out.push(json!({"element": "footnote-block", "data": {"title": title, "hide": hide}}));
            }
            "iframe" => {
                let a = self.attrs(&v["a"])?;
                let n = self.cased(r, "iframe");
                self.put(&format!("[[{n} https://example.com/"));
                self.args(r, &a);
                self.put("]]");
                out.push(json!({"element": "iframe", "data": {"url": "https://example.com/", "attributes": self.attr_json(&a)}}));
            }
            "embed" => {
                let Some(s) = v["v"].as_str().filter(|s| ["youtube", "vimeo"].contains(s)) else { return bad("embed") };
                let id = self.label(&v["id"])?.to_string();
                let n = self.cased(r, "embed");
                let m = self.cased(r, s);
                self.put(&format!("[[{n} {m}"));
                self.args(r, &[("video".into(), id.clone())]);
                self.put("]]");
                out.push(json!({"element": "embed", "data": {"embed": s, "data": {"video-id": id}}}));
            }
            "style" => {
                let Some(s) = v["v"].as_str().filter(|s| ["a { b: c }", "p > q {}\n\n.x { y: z }"].contains(s)) else { return bad("style") };
                let (n, m) = (self.cased(r, "module"), self.cased(r, "css"));
                self.put(&format!("[[{n} {m}]]\n{s}\n[[/module]]"));
                out.push(json!({"element": "style", "data": s}));
            }
            "module" => {
                let name = v["v"].as_str().unwrap_or("");
                let mut all: Vec<(String, String)> = vec![];
                let data = match name {
                    "rate" => Value::Null,
                    "join" => {
                        let a = self.attrs(&v["a"])?;
                        all.extend(a.clone());
                        let b = if v["t"].is_null() { Value::Null } else { json!(self.label(&v["t"])?) };
                        if let Some(b) = b.as_str() {
                            all.push(("button".into(), b.into()));
                        }
                        json!({"button-text": b, "attributes": self.attr_json(&a)})
                    }
                    "backlinks" => {
                        let b = if v["t"].is_null() { Value::Null } else { json!(self.label(&v["t"])?) };
                        if let Some(b) = b.as_str() {
                            all.push(("page".into(), b.into()));
                        }
                        json!({"page": b})
                    }
                    "categories" => {
                        let mut h = false;
                        if let Some(b) = v["b"].as_bool() {
                            h = b;
                            let b = self.boolean(r, b).to_string();
                            all.push(("includeHidden".into(), b));
                        }
                        json!({"include-hidden": h})
                    }
                    "pagetree" => {
                        let mut h = false;
                        if let Some(b) = v["b"].as_bool() {
                            h = b;
                            let b = self.boolean(r, b).to_string();
                            all.push(("showRoot".into(), b));
                        }
                        let root = if v["t"].is_null() { Value::Null } else { json!(self.label(&v["t"])?) };
                        if let Some(b) = root.as_str() {
                            all.push(("root".into(), b.into()));
                        }
                        let depth = v["n"].as_u64().filter(|n| (1..100).contains(n));
                        if let Some(n) = depth {
                            all.push(("depth".into(), n.to_string()));
                        }
                        json!({"root": root, "show-root": h, "depth": depth})
                    }
                    _ => return bad("module"),
                };
                let (n, m) = (self.cased(r, "module"), self.cased(r, name));
                self.put(&format!("[[{n} {m}"));
                self.args(r, &all);
                self.put("]]");
                let tag = if name == "pagetree" { "page-tree" } else { name };
                let mut d = json!({"module": tag});
                if !data.is_null() {
                    d["data"] = data;
                }
                out.push(json!({"element": "module", "data": d}));
            }
            "bib" => {
                let mut all = vec![];
                let title = if v["t"].is_null() { Value::Null } else { json!(self.label(&v["t"])?) };
                if let Some(t) = title.as_str() {
                    all.push(("title".to_string(), t.to_string()));
                }
                let mut hide = false;
                if let Some(h) = v["hide"].as_bool() {
                    hide = h;
                    let b = self.boolean(r, h).to_string();
                    all.push(("hide".into(), b));
                }
                if cx.in_foot || cx.bib {
                    return bad("bibliography here");
                }
                let n = self.cased(r, "bibliography");
                self.put(&format!("[[{n}"));
                self.args(r, &all);
                self.put("]]\n");
                let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("entries") };
                let mut entries: Vec<Value> = vec![];
                for d in list {
                    let key = self.label(&d["t"])?.to_string();
                    if key.contains(' ') || entries.iter().any(|e| e[0] == json!(key)) {
                        return bad("label");
                    }
                    self.put(&format!(": {key} : "));
                    let els = self.inline(&d["c"], Cx { bib: true, ..line })?;
                    self.put("\n");
                    entries.push(json!([key, els]));
                }
                self.put("[[/bibliography]]");
                out.push(json!({"element": "bibliography-block", "data": {"index": self.o.bibs.len(), "title": title, "hide": hide}}));
                self.o.bibs.push(json!(entries));
            }
            "pblock" => {
                let a = self.attrs(&v["a"])?;
                let n = self.pick(r, &["p", "paragraph"]);
                let n = self.cased(r, n);
                self.put(&format!("[[{n}"));
                self.args(r, &a);
                self.put("]]");
                let nl = self.pick(r, &["\n", ""]);
                self.put(nl);
                let els = self.inline(&v["c"], Cx { nl: false, ..line })?;
                self.put(nl);
                self.put(&format!("[[/{n}]]"));
                out.push(container("paragraph", self.attr_json(&a), els));
            }
            _ => return bad(format!("block {k}")),
        }
        Ok(())
    }

    fn raw_body(&mut self, v: &Value, name: &str) -> R<String> {
        match v.as_str() {
            Some(s) if !s.is_empty() && s.trim_matches('\n') == s && !s.to_lowercase().contains(&format!("[[/{name}")) && crate::pipe::preprocess(s) == s && !s.lines().any(|l| !l.is_empty() && l.trim().is_empty()) => {
                Ok(s.to_string())
            }
            _ => bad("raw body"),
        }
    }

    fn list_block(&mut self, r: &mut Rng, v: &Value, ty: &str, cx: Cx) -> R<Value> {
        if cx.depth > 12 {
            return bad("deep");
        }
        let a = self.attrs(&v["a"])?;
        let name = if ty == "numbered" { "ol" } else { "ul" };
        let n = self.cased(r, name);
        self.put(&format!("[[{n}"));
        self.args(r, &a);
        self.put("]]");
        let s = self.pick(r, &["\n", "\n", "\n\n", "\n  ", " "]);
        self.put(s);
        let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("items") };
        let mut items = vec![];
        for it in list {
            if it["k"] == "ul" {
                let ty = if it["o"] == true { "numbered" } else { "bullet" };
                let e = self.list_block(r, it, ty, Cx { depth: cx.depth + 1, ..cx })?;
                items.push(json!({"item-type": "sub-list", "element": "list", "data": e["data"]}));
            } else {
                let ia = self.attrs(&it["a"])?;
                let n = self.cased(r, "li");
                self.put(&format!("[[{n}"));
                self.args(r, &ia);
                self.put("]]");
                let own = self.opt.vary && r.coin();
                if own {
                    self.put("\n");
                }
                let els = self.inline(&it["c"], Cx { nl: true, top: false, open: &[], depth: cx.depth + 1, ..cx })?;
                if own {
                    self.put("\n");
                }
                self.put("[[/li]]");
                items.push(json!({"item-type": "elements", "attributes": self.attr_json(&ia), "elements": els}));
            }
            let s = self.pick(r, &["\n", "\n", "\n\n", "\n  ", " ", ""]);
            self.put(s);
        }
        self.put(&format!("[[/{name}]]"));
        Ok(json!({"element": "list", "data": {"type": ty, "attributes": self.attr_json(&a), "items": items}}))
    }

    fn list_lines(&mut self, v: &Value, depth: usize, cx: Cx) -> R<Value> {
        let (m, ty) = if v["o"] == true { ("#", "numbered") } else { ("*", "bullet") };
        if depth > 8 {
            return bad("deep");
        }
        let Some(list) = v["c"].as_array().filter(|l| !l.is_empty()) else { return bad("items") };
        let mut items: Vec<Value> = vec![];
        for (i, it) in list.iter().enumerate() {
            if it["k"] == "list" {
                // Below an item, and not directly after another such.
                if i == 0 || list[i - 1]["k"] == "list" {
                    return bad("sub-list");
                }
                let e = self.list_lines(it, depth + 1, cx)?;
                items.push(json!({"item-type": "sub-list", "element": "list", "data": e["data"]}));
            } else {
                self.put(&format!("{}{m} ", " ".repeat(depth)));
                let els = self.inline(&it["c"], cx)?;
                self.put("\n");
                items.push(json!({"item-type": "elements", "attributes": {}, "elements": els}));
            }
        }
        Ok(json!({"element": "list", "data": {"type": ty, "attributes": {}, "items": items}}))
    }
}

// Random models

pub struct ModelGen {
    n: usize,
    names: usize,
    fnblock: bool,
    pub budget: usize,
    /// For rare long words.
    long: Rng,
}

/// User names which are not just words.
const USERS: &[&str] = &["a  b", "Ä-ö", "a|b", "a/b", "<b>", "x_y", "o'brien", "50%", "&amp;", "a, b", "x.y", "a:b", "1 2  3", "😀", "-x-"];

/// Repeats a random part of the document right after itself, if that is still a document.
pub fn repeat(doc: &Value, r: &mut Rng) -> Value {
    fn places(v: &Value, at: &mut String, out: &mut Vec<String>) {
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    let n = at.len();
                    at.push_str(&format!("/{i}"));
                    if !x.is_string() && !x.is_number() {
                        out.push(at.clone());
                    }
                    places(x, at, out);
                    at.truncate(n);
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    let n = at.len();
                    at.push_str(&format!("/{k}"));
                    places(x, at, out);
                    at.truncate(n);
                }
            }
            _ => (),
        }
    }
    let mut all = vec![];
    places(doc, &mut String::new(), &mut all);
    for _ in 0..4 {
        if all.is_empty() {
            break;
        }
        let at = r.pick(&all).to_string();
        let (list, i) = at.rsplit_once('/').unwrap();
        let i: usize = i.parse().unwrap();
        let mut new = doc.clone();
        if let Some(Value::Array(a)) = new.pointer_mut(list) {
            let x = a[i].clone();
            for _ in 0..if r.chance(1, 12) { super::big::few(r) } else { r.range(1, 3) } {
                a.insert(i, x.clone());
            }
        }
        if write(&new, &Options { vary: false, seed: 0, crlf: false }).is_ok() {
            return new;
        }
    }
    doc.clone()
}

fn r_long(r: &mut Rng) -> bool {
    r.chance(1, 4000)
}

impl ModelGen {
    pub fn new(budget: usize) -> ModelGen {
        ModelGen { n: 0, names: 0, fnblock: false, budget, long: Rng::new(budget as u64) }
    }

    fn w(&mut self) -> String {
        self.n += 1;
        if r_long(&mut self.long) {
            return format!("w{}{}w", self.n, "q".repeat(super::big::count(&mut self.long) * 4));
        }
        format!("w{}w", self.n)
    }

    fn words(&mut self, r: &mut Rng) -> String {
        (0..r.range(1, 2)).map(|_| self.w()).collect::<Vec<_>>().join(" ")
    }

    pub fn doc(&mut self, r: &mut Rng) -> Value {
        self.long = r.fork();
        let d = r.range(0, 3);
        let n = r.range(1, 4);
        let mut v = self.blocks(r, d, n, true, false);
        if r.chance(1, 10) {
            v.as_array_mut().unwrap().push(self.fnblock(r));
        }
        v
    }

    fn fnblock(&mut self, r: &mut Rng) -> Value {
        self.fnblock = true;
        let mut b = json!({"k": "fnblock"});
        if r.coin() {
            b["t"] = json!(self.words(r));
        }
        if r.coin() {
            b["hide"] = json!(r.coin());
        }
        b
    }

    fn attrs(&mut self, r: &mut Rng, o: &mut Value) {
        if !r.chance(1, 3) {
            return;
        }
        let mut a = Map::new();
        for _ in 0..r.range(1, 3) {
            let k = r.pick(ATTRS);
            let v = match r.below(5) {
                0 => self.w(),
                1 => self.words(r),
                2 => (r.pick(&["a \"b\" c", "x\\y", "<&>", "]]", "[[/div]]", "**", "a: b; c: d", "ü😀", "||", "-- a", "a\nb", "@@", "{{x}}", "a|b", "'"])).to_string(),
                3 => "k".to_string(),
                _ => "color: red; width: 50%".into(),
            };
            a.insert(k.into(), json!(v));
        }
        o["a"] = Value::Object(a);
    }

    pub fn blocks(&mut self, r: &mut Rng, depth: usize, n: usize, top: bool, foot: bool) -> Value {
        let mut v = vec![];
        for _ in 0..n.max(1) {
            let b = self.block(r, depth, top, foot);
            v.push(b);
        }
        json!(v)
    }

    fn body(&mut self, r: &mut Rng, depth: usize, foot: bool) -> Value {
        let n = r.range(1, 2);
        self.blocks(r, depth.saturating_sub(1), n, false, foot)
    }

    fn block(&mut self, r: &mut Rng, depth: usize, top: bool, foot: bool) -> Value {
        self.budget = self.budget.saturating_sub(1);
        let depth = if self.budget == 0 { 0 } else { depth };
        if depth == 0 && r.chance(2, 3) {
            return json!({"k": "p", "c": self.inline(r, 1, true, foot, false)});
        }
        match r.below(27) {
            0 | 1 => json!({"k": "p", "c": self.inline(r, 2, true, foot, false)}),
            2 if !foot => json!({"k": "h", "l": r.range(1, 6), "star": r.chance(1, 5), "c": self.inline(r, 1, false, foot, false)}),
            3 => json!({"k": "hr"}),
            4 => json!({"k": "float", "v": r.s(&["both", "left", "right"])}),
            5 => json!({"k": "center", "c": self.inline(r, 1, false, foot, false)}),
            6 | 7 if depth > 0 => {
                let mut b = if r.chance(1, 4) {
                    json!({"k": "div", "score": true, "c": self.inline(r, 1, false, foot, false)})
                } else {
                    json!({"k": "div", "c": self.body(r, depth, foot)})
                };
                self.attrs(r, &mut b);
                b
            }
            8 if depth > 0 => {
                let mut b = json!({"k": "quoteblock", "c": self.body(r, depth, foot)});
                self.attrs(r, &mut b);
                b
            }
            9 if depth > 0 => json!({"k": "align", "v": r.s(&["center", "justify", "left", "right"]), "c": self.body(r, depth, foot)}),
            10 | 11 if depth > 0 => {
                let mut b = json!({"k": "collapsible", "c": self.body(r, depth, foot)});
                self.attrs(r, &mut b);
                if r.coin() {
                    b["show"] = json!(self.words(r));
                }
                if r.coin() {
                    b["hide"] = json!(self.words(r));
                }
                if r.coin() {
                    b["folded"] = json!(r.coin());
                }
                if r.coin() {
                    b["loc"] = json!(r.s(&["top", "bottom", "both", "neither"]));
                }
                b
            }
            12 if depth > 0 => {
                let tabs: Vec<Value> = (0..r.range(1, 2)).map(|_| json!({"t": self.words(r), "c": self.body(r, depth, foot)})).collect();
                json!({"k": "tabs", "c": tabs})
            }
            13 => {
                let v = r.s(&["a", " a\n b", "**x** //y//", "[[div]]\n[[/div]]", "<b>&amp;", "a\n\n\nb", "@@", "[[html]]", "|| a", "[!-- x --]", "w -- w", "\"q"]);
                let mut b = json!({"k": "code", "v": v});
                if r.coin() {
                    b["lang"] = json!(r.s(&["css", "php", "rust"]));
                }
                if r.chance(1, 3) {
                    self.names += 1;
                    b["name"] = json!(format!("n{}", self.names));
                }
                b
            }
            14 => json!({"k": "html", "v": r.s(&["<b>x</b>", "<script>1</script>", "[[code]]\nx\n[[/code]]", "a\n\nb"])}),
            15 => {
                let mut b = json!({"k": "math", "v": r.s(&["x^2", "a_1 + b\n= c", "\\frac{1}{2}"])});
                if r.coin() {
                    b["n"] = json!(self.w());
                }
                b
            }
            16 => {
                let d = r.range(0, 2);
                self.ul(r, d, foot)
            }
            17 | 18 => {
                let d = r.range(0, 3);
                self.list(r, d, foot)
            }
            19 => {
                let mut rows = vec![];
                for _ in 0..r.range(1, 3) {
                    let mut cells = vec![];
                    for _ in 0..r.range(1, 3) {
                        let mut c = if depth > 0 && r.chance(1, 4) {
                            json!({"b": [self.block(r, depth - 1, false, foot)]})
                        } else {
                            json!({"c": self.inline(r, 1, true, foot, false)})
                        };
                        if r.chance(1, 3) {
                            c["sp"] = json!(r.range(1, 4));
                        }
                        if r.chance(1, 3) {
                            c["h"] = json!(true);
                        }
                        self.attrs(r, &mut c);
                        cells.push(c);
                    }
                    let mut row = json!({"c": cells});
                    self.attrs(r, &mut row);
                    rows.push(row);
                }
                let mut b = json!({"k": "table", "c": rows});
                self.attrs(r, &mut b);
                b
            }
            20 => {
                let mut rows = vec![];
                for _ in 0..r.range(1, 3) {
                    let mut cells = vec![];
                    for _ in 0..r.range(1, 3) {
                        let mut l = self.inline(r, 1, false, foot, false);
                        let w = self.w();
                        l.as_array_mut().unwrap().insert(0, json!(w));
                        let mut c = json!({"c": l});
                        if r.chance(1, 3) {
                            c["sp"] = json!(r.range(1, 4));
                        }
                        if r.coin() {
                            c["m"] = json!(r.s(&["~", "<", ">", "="]));
                        }
                        cells.push(c);
                    }
                    rows.push(json!(cells));
                }
                json!({"k": "ptable", "c": rows})
            }
            21 => {
                let lines: Vec<Value> = (0..r.range(1, 3)).map(|_| self.inline(r, 1, false, foot, false)).collect();
                json!({"k": "quote", "d": r.range(1, 3), "c": lines})
            }
            22 => {
                let d: Vec<Value> = (0..r.range(1, 3)).map(|_| json!({"t": self.words(r), "c": self.inline(r, 1, false, foot, false)})).collect();
                json!({"k": "deflist", "c": d})
            }
            23 => {
                if r.coin() {
                    match r.below(3) {
                        0 => json!({"k": "toc"}),
                        1 => json!({"k": "toc", "al": "left"}),
                        _ => json!({"k": "toc", "al": "right"}),
                    }
                } else {
                    let mut b = json!({"k": "iframe"});
                    self.attrs(r, &mut b);
                    b
                }
            }
            24 => match r.below(7) {
                0 => json!({"k": "embed", "v": r.s(&["youtube", "vimeo"]), "id": self.w()}),
                1 => json!({"k": "style", "v": r.s(&["a { b: c }", "p > q {}\n\n.x { y: z }"])}),
                2 => json!({"k": "module", "v": "rate"}),
                3 => {
                    let mut b = json!({"k": "module", "v": "join"});
                    if r.coin() {
                        b["t"] = json!(self.words(r));
                    }
                    self.attrs(r, &mut b);
                    b
                }
                4 => {
                    let mut b = json!({"k": "module", "v": "backlinks"});
                    if r.coin() {
                        b["t"] = json!(self.words(r));
                    }
                    b
                }
                5 => {
                    let mut b = json!({"k": "module", "v": "categories"});
                    if r.coin() {
                        b["b"] = json!(r.coin());
                    }
                    b
                }
                _ => {
                    let mut b = json!({"k": "module", "v": "pagetree"});
                    if r.coin() {
                        b["b"] = json!(r.coin());
                    }
                    if r.coin() {
                        b["n"] = json!(r.range(1, 9));
                    }
                    if r.coin() {
                        b["t"] = json!(self.w());
                    }
                    b
                }
            },
            25 if !foot => {
                let d: Vec<Value> = (0..r.range(1, 3)).map(|_| json!({"t": self.w(), "c": self.inline(r, 1, false, foot, false)})).collect();
                let mut b = json!({"k": "bib", "c": d});
                if r.coin() {
                    b["t"] = json!(self.words(r));
                }
                if r.coin() {
                    b["hide"] = json!(r.coin());
                }
                b
            }
            26 => {
                if top && !self.fnblock && r.chance(1, 3) {
                    return self.fnblock(r);
                }
                let mut b = json!({"k": "pblock", "c": self.inline(r, 1, false, foot, false)});
                self.attrs(r, &mut b);
                b
            }
            _ => json!({"k": "p", "c": self.inline(r, 2, true, foot, false)}),
        }
    }

    fn ul(&mut self, r: &mut Rng, depth: usize, foot: bool) -> Value {
        let mut items = vec![];
        for i in 0..r.range(1, 3) {
            if depth > 0 && i > 0 && r.chance(1, 3) {
                items.push(self.ul(r, depth - 1, foot));
            } else {
                let mut it = json!({"c": self.inline(r, 1, true, foot, false)});
                self.attrs(r, &mut it);
                items.push(it);
            }
        }
        let mut b = json!({"k": "ul", "o": r.coin(), "c": items});
        self.attrs(r, &mut b);
        b
    }

    pub fn list(&mut self, r: &mut Rng, depth: usize, foot: bool) -> Value {
        let mut items: Vec<Value> = vec![];
        for i in 0..r.range(1, 4) {
            if depth > 0 && i > 0 && items[i - 1]["k"] != "list" && r.chance(1, 2) {
                items.push(self.list(r, depth - 1, foot));
            } else {
                items.push(json!({"c": self.inline(r, 1, false, foot, false)}));
            }
        }
        json!({"k": "list", "o": r.coin(), "c": items})
    }

    pub fn inline(&mut self, r: &mut Rng, depth: usize, nl: bool, foot: bool, link: bool) -> Value {
        let mut v: Vec<Value> = vec![];
        let n = r.range(1, 4);
        let mut brk = true;
        for i in 0..n {
            if nl && !brk && i + 1 < n && r.chance(1, 6) {
                v.push(json!({"k": r.s(&["br", "br", "nbr"])}));
                brk = true;
                continue;
            }
            brk = false;
            let x = self.item(r, depth, foot, link, nl);
            v.push(x);
        }
        if !v.iter().any(|x| x.is_string()) || v.last().is_some_and(|x| x["k"] == "lines") {
            let w = self.w();
            v.push(json!(w));
        }
        for i in 1..v.len() {
            if v[i - 1]["k"] == "lines" && matches!(v[i]["k"].as_str(), Some("br" | "nbr" | "comment")) {
                v[i - 1] = json!(self.w());
            } else if v[i]["k"] == "lines" && v[i - 1]["k"] == "br" {
                v[i] = json!(self.w());
            }
        }
        json!(v)
    }

    fn item(&mut self, r: &mut Rng, depth: usize, foot: bool, link: bool, nl: bool) -> Value {
        if depth == 0 || r.chance(1, 3) {
            let w = self.w();
            return json!(w);
        }
        match r.below(30) {
            0..=6 => {
                let s = r.pick(STYLES);
                let mut b = json!({"k": s.0, "c": self.inline(r, depth - 1, false, foot, link)});
                if r.chance(1, 3) {
                    self.attrs(r, &mut b);
                }
                b
            }
            7 => json!({"k": "sym", "s": r.s(&["<<", "...", "&", "<b>", "ü", "😀", "*x", "[x]", "x_y", "$5", "a=b", "(x)", "\"q\"", "\\"])}),
            8 => json!({"k": "color", "v": r.s(&["red", "abc", "12Ab90", "#123456", "rgb(1,2,3)"]), "c": self.inline(r, depth - 1, false, foot, link)}),
            9 => json!({"k": "size", "v": r.s(&["2em", "150%", "x-large", "0.8em"]), "c": self.inline(r, depth - 1, false, foot, link)}),
            10 if !link => {
                let mut b = json!({"k": "a", "star": r.chance(1, 4), "c": self.inline(r, depth - 1, false, true, true)});
                self.attrs(r, &mut b);
                b
            }
            11 => json!({"k": "ruby", "b": self.words(r), "t": self.words(r)}),
            12 => json!({"k": "raw", "v": r.s(&["**", "a b", "[[div]]", "<i>", "&lt;", "//", "||", "--", "x", "[[[a]]]", "##"])}),
            13 if !link => json!({"k": "link", "page": self.words(r), "t": self.words(r), "star": r.chance(1, 4)}),
            14 if !link => json!({"k": "url", "v": r.s(&["http://x.com/a", "https://y.org/?q=1&r=2", "ftp://z.net/", "/page/sub"]), "t": self.words(r), "star": r.chance(1, 4)}),
            15 if !link => json!({"k": "anchorlink", "n": self.w(), "t": self.words(r)}),
            16 => json!({"k": "target", "n": self.w()}),
            17 | 18 if !foot && !link => {
                if nl && r.chance(1, 4) {
                    json!({"k": "foot", "b": [{"k": "p", "c": self.inline(r, 0, true, true, false)}, {"k": "p", "c": self.inline(r, 1, true, true, false)}]})
                } else {
                    json!({"k": "foot", "c": self.inline(r, depth - 1, false, true, false)})
                }
            }
            19 => {
                let n = if r.chance(1, 3) { r.pick(USERS).to_string() } else { self.words(r) };
                json!({"k": "user", "n": n, "star": r.coin()})
            }
            20 => {
                let mut b = json!({"k": "image", "v": r.s(&["http://x.com/a.png", "a.png", "/p/a.png", "/s/p/a.png", "p/a.png", "s/p/a.png", "/a.png"])});
                if r.coin() {
                    b["al"] = json!(r.s(&["=", "<", ">", "f<", "f>"]));
                }
                if !link && r.chance(1, 3) {
                    b["link"] = json!(r.s(&["/foo", "http://z.org/", "#k"]));
                }
                self.attrs(r, &mut b);
                b
            }
            21 => json!({"k": "imath", "v": r.s(&["x^2", "a_1 + b", "\\frac{1}{2}"])}),
            22 => {
                let mut b = if r.coin() { json!({"k": "check", "star": r.coin()}) } else { json!({"k": "radio", "star": r.coin(), "n": self.w()}) };
                self.attrs(r, &mut b);
                b
            }
            23 => json!({"k": "eref", "n": self.w()}),
            24 => json!({"k": "cite", "n": self.w(), "br": r.coin()}),
            25 => {
                if r.coin() {
                    json!({"k": "char", "v": r.s(&["copy", "&amp;", "#65", "#x1F600", "&mdash;"])})
                } else {
                    let mut b = json!({"k": "date", "v": r.s(&["2020-02-29", "1216502818", "2010-01-01T08:10:00+00:00"])});
                    if r.coin() {
                        b["hover"] = json!(r.coin());
                    }
                    if r.coin() {
                        b["fmt"] = json!(r.s(&["%Y", "%Y-%m-%d"]));
                    }
                    b
                }
            }
            26 => json!({"k": "if", "v": r.s(&["t1", "t2", "t3", "c1", "c2"]), "c": self.inline(r, depth - 1, false, foot, link)}),
            28 => json!({"k": "lines", "v": if r.chance(1, 6) { r.range(6, 100) } else { r.range(1, 5) }}),
            27 => json!({"k": "comment", "v": r.s(&["x", "**", "[[div]]", " a b "])}),
            _ => {
                if r.coin() {
                    json!({"k": "var", "n": self.w()})
                } else {
                    let w = self.w();
                    json!(w)
                }
            }
        }
    }
}

/// The source of a random well-formed document.
pub fn random_source(r: &mut Rng) -> String {
    for _ in 0..20 {
        let doc = ModelGen::new(15).doc(r);
        let seed = r.next();
        if let Ok(o) = write(&doc, &Options { vary: true, seed, crlf: false }) {
            return o.src;
        }
    }
    "w".into()
}
