//! An independent renderer from the serialized tree to the DOM the HTML body should have.
//! Opaque parts (styles, MathML) are left out on both sides: see `canon`.

use crate::html::{El, Node};
use crate::pipe::Env;
use serde_json::Value;

pub struct Ref<'a> {
    env: &'a Env,
    tree: &'a Value,
    toc: usize,
    eq: usize,
    foot: usize,
    in_cite: bool,
    ids: usize,
    scopes: Vec<&'a Value>,
    /// What the backlinks should be: internal pages as (site, page), and external addresses.
    pub internal: Vec<(Option<String>, String)>,
    pub external: Vec<String>,
    budget: usize,
}

type Attrs = Vec<(String, String)>;

fn at(list: &[(&str, &str)]) -> Attrs {
    list.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn el(name: &str, attrs: Attrs) -> El {
    El {
        name: name.into(),
        attrs: attrs.into_iter().map(|(k, v)| (k, Some(v))).collect(),
        ..El::default()
    }
}

fn text(e: &mut El, t: &str) {
    let t = t.replace('\0', " ");
    if t.is_empty() {
        return;
    }
    if let Some(Node::Text(p)) = e.kids.last_mut() {
        p.push_str(&t);
    } else {
        e.kids.push(Node::Text(t));
    }
}

fn with_text(mut e: El, t: &str) -> El {
    text(&mut e, t);
    e
}

fn push(e: &mut El, k: El) {
    e.kids.push(Node::El(k));
}

/// The renderer's own attributes first, the user's appended where both give one.
fn merge(own: &[(&str, &str)], user: &Value) -> Attrs {
    let mut out = at(own);
    for (k, v) in user.as_object().into_iter().flatten() {
        let v = v.as_str().unwrap_or("");
        match out.iter_mut().find(|(k2, _)| k2 == k) {
            Some((_, o)) => {
                o.push(' ');
                o.push_str(v);
            }
            None => out.push((k.clone(), v.to_string())),
        }
    }
    out
}

pub fn is_url(u: &str) -> bool {
    [
        "blob:", "chrome-extension://", "chrome://", "content://", "dns:", "feed:", "file://",
        "ftp://", "git://", "gopher://", "http://", "https://", "irc6://", "irc://", "ircs://",
        "mailto:", "resource://", "rtmp://", "sftp://",
    ]
    .iter()
    .any(|s| u.starts_with(s))
}

/// Addresses: URLs and anchors as they are, the first path segment of others normalized.
pub fn href(u: &str) -> String {
    if is_url(u) || u.starts_with('#') || u == "javascript:;" {
        return u.to_string();
    }
    if let Some((scheme, _)) = u.split_once(':') {
        // No scheme can have these, only a path.
        let none = scheme.contains(['/', '?', '#']);
        let odd = scheme.is_empty() || !scheme.chars().all(word_char);
        if !none && (odd || scheme.eq_ignore_ascii_case("javascript") || scheme.eq_ignore_ascii_case("data")) {
            return "#invalid-url".into();
        }
    }
    let (path, frag) = match u.split_once('#') {
        Some((p, f)) => (p, Some(f)),
        None => (u, None),
    };
    let path = path.strip_prefix('/').unwrap_or(path);
    let (first, rest) = match path.split_once('/') {
        Some((f, r)) => (f, Some(r)),
        None => (path, None),
    };
    let mut first = first.to_string();
    wikidot_normalize::normalize(&mut first);
    let mut out = format!("/{first}");
    if let Some(r) = rest {
        out.push('/');
        out.push_str(r);
    }
    if let Some(f) = frag {
        out.push('#');
        out.push_str(f);
    }
    out
}

fn word_char(c: char) -> bool {
    static WORD: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new();
    let w = WORD.get_or_init(|| regex::Regex::new(r"^[\w-]$").unwrap());
    c.is_ascii_alphanumeric() || w.is_match(c.encode_utf8(&mut [0; 4]))
}

pub fn link_href(link: &Value) -> String {
    match link {
        Value::String(u) => href(u),
        l => {
            let page = l["page"].as_str().unwrap_or("");
            match l["site"].as_str() {
                Some(site) => {
                    let mut p = page.to_string();
                    wikidot_normalize::normalize(&mut p);
                    format!("https://{site}.wikijump.com/{p}")
                }
                None => {
                    let mut p = page.to_string();
                    wikidot_normalize::normalize(&mut p);
                    format!("/{p}")
                }
            }
        }
    }
}

fn page_ref(l: &Value) -> (Option<String>, String) {
    (l["site"].as_str().map(|s| s.to_string()), l["page"].as_str().unwrap_or("").to_string())
}

fn align_class(name: &str, float: bool) -> String {
    format!("wj-{}-{name}", if float { "float" } else { "align" })
}

impl<'a> Ref<'a> {
    pub fn new(env: &'a Env, tree: &'a Value) -> Ref<'a> {
        Ref {
            env, tree, toc: 0, eq: 0, foot: 0, in_cite: false, ids: 0, scopes: vec![],
            internal: vec![], external: vec![], budget: 400_000,
        }
    }

    pub fn body(&mut self) -> Result<El, String> {
        let mut e = el("wj-body", at(&[("class", "wj-body")]));
        let t = self.tree;
        self.list(&mut e, &t["elements"])?;
        Ok(e)
    }

    fn id(&mut self) -> String {
        self.ids += 1;
        format!("wj-id-{:016}", self.ids)
    }

    fn list(&mut self, e: &mut El, list: &'a Value) -> Result<(), String> {
        for x in list.as_array().into_iter().flatten() {
            self.one(e, x)?;
        }
        Ok(())
    }

    fn wrap(&mut self, e: &mut El, name: &str, attrs: Attrs, list: &'a Value) -> Result<(), String> {
        let mut k = el(name, attrs);
        self.list(&mut k, list)?;
        push(e, k);
        Ok(())
    }

    fn container(&mut self, e: &mut El, d: &'a Value) -> Result<(), String> {
        let a = &d["attributes"];
        let kids = &d["elements"];
        let plain = |n: &'static str| (n, vec![]);
        let (name, own): (&str, Vec<(&str, String)>) = match &d["type"] {
            Value::String(t) => match t.as_str() {
                "bold" => plain("strong"),
                "italics" => plain("em"),
                "underline" => plain("u"),
                "superscript" => plain("sup"),
                "subscript" => plain("sub"),
                "strikethrough" => plain("s"),
                "monospace" => ("code", vec![("class", "wj-monospace".into())]),
                "span" | "size" => plain("span"),
                "div" => plain("div"),
                "mark" => plain("mark"),
                "blockquote" => plain("blockquote"),
                "insertion" => plain("ins"),
                "deletion" => plain("del"),
                "hidden" => ("span", vec![("class", "wj-hidden".into())]),
                "invisible" => ("span", vec![("class", "wj-invisible".into())]),
                "ruby" => plain("ruby"),
                "ruby-text" => plain("rt"),
                "paragraph" => plain("p"),
                t => return Err(format!("unknown container {t}")),
            },
            Value::Object(m) => {
                if let Some(al) = m.get("align") {
                    ("div", vec![("class", align_class(al.as_str().unwrap_or("?"), false))])
                } else if let Some(h) = m.get("header") {
                    let n = ["h0", "h1", "h2", "h3", "h4", "h5", "h6"]
                        [h["level"].as_u64().unwrap_or(0).min(6) as usize];
                    if h["has-toc"] == Value::Bool(true) {
                        let id = if self.env.true_ids {
                            format!("toc{}", self.toc)
                        } else {
                            self.id()
                        };
                        self.toc += 1;
                        (n, vec![("id", id)])
                    } else {
                        (n, vec![])
                    }
                } else {
                    return Err("unknown container object".into());
                }
            }
            _ => return Err("container without type".into()),
        };
        let own: Vec<(&str, &str)> = own.iter().map(|(k, v)| (*k, v.as_str())).collect();
        let attrs = merge(&own, a);
        if name == "rt" {
            push(e, with_text(el("rp", vec![]), "("));
        }
        self.wrap(e, name, attrs, kids)?;
        if name == "rt" {
            push(e, with_text(el("rp", vec![]), ")"));
        }
        Ok(())
    }

    fn sprite(&self, e: &mut El, id: &str) {
        let vb = if id == "wj-karma" { "0 0 64 114" } else { "0 0 24 24" };
        let mut s = el("svg", at(&[("class", &format!("wj-sprite sprite-{id}")), ("viewBox", vb)]));
        push(&mut s, el("use", at(&[("href", &format!("/files--static/media/ui.svg#{id}"))])));
        push(e, s);
    }

    fn one(&mut self, e: &mut El, x: &'a Value) -> Result<(), String> {
        self.budget = self.budget.checked_sub(1).ok_or("output too large")?;
        let d = &x["data"];
        let st = |v: &'a Value| v.as_str().unwrap_or("");
        match st(&x["element"]) {
            "container" => self.container(e, d)?,
            "module" => {
                let n = match st(&d["module"]) {
                    "backlinks" => "Backlinks",
                    "categories" => "Categories",
                    "join" => "Join",
                    "page-tree" => "PageTree",
                    "rate" => "Rate",
                    m => return Err(format!("unknown module {m}")),
                };
                push(e, with_text(el("p", vec![]), &format!("TODO: module {n}")));
            }
            "text" => text(e, st(d)),
            "raw" => push(e, with_text(el("span", at(&[("class", "wj-raw")])), st(d))),
            "variable" => {
                let v = self.scopes.iter().rev().find_map(|s| s.get(st(d)).and_then(|v| v.as_str()));
                match v {
                    Some(v) => text(e, v),
                    None => text(e, &format!("{{${}}}", st(d))),
                }
            }
            "email" => push(e, with_text(el("span", at(&[("class", "wj-email")])), st(d))),
            "table" => {
                let mut t = el("table", merge(&[], &d["attributes"]));
                let mut b = el("tbody", vec![]);
                for row in d["rows"].as_array().ok_or("rows")? {
                    let mut tr = el("tr", merge(&[], &row["attributes"]));
                    for c in row["cells"].as_array().ok_or("cells")? {
                        let span = c["column-span"].as_u64().unwrap_or(0).to_string();
                        let class;
                        let mut own = vec![];
                        if span != "1" {
                            own.push(("colspan", span.as_str()));
                        }
                        if let Some(al) = c["align"].as_str() {
                            class = align_class(al, false);
                            own.push(("class", class.as_str()));
                        }
                        let n = if c["header"] == Value::Bool(true) { "th" } else { "td" };
                        self.wrap(&mut tr, n, merge(&own, &c["attributes"]), &c["elements"])?;
                    }
                    push(&mut b, tr);
                }
                push(&mut t, b);
                push(e, t);
            }
            "tab-view" => {
                let tabs = d.as_array().ok_or("tabs")?;
                let bids: Vec<String> = tabs.iter().map(|_| self.id()).collect();
                let tids: Vec<String> = tabs.iter().map(|_| self.id()).collect();
                let mut v = el("wj-tabs", at(&[("class", "wj-tabs")]));
                let mut bl = el("div", at(&[("class", "wj-tabs-button-list"), ("role", "tablist")]));
                for (i, t) in tabs.iter().enumerate() {
                    let (s, x) = if i == 0 { ("true", "0") } else { ("false", "-1") };
                    push(&mut bl, with_text(
                        el("wj-tabs-button", at(&[
                            ("class", "wj-tabs-button"), ("id", &bids[i]), ("role", "tab"),
                            ("aria-label", st(&t["label"])), ("aria-selected", s),
                            ("aria-controls", &tids[i]), ("tabindex", x),
                        ])),
                        st(&t["label"]),
                    ));
                }
                push(&mut v, bl);
                let mut pl = el("div", at(&[("class", "wj-tabs-panel-list")]));
                for (i, t) in tabs.iter().enumerate() {
                    let mut a = at(&[
                        ("class", "wj-tabs-panel"), ("id", &tids[i]), ("role", "tabpanel"),
                        ("aria-labelledby", &bids[i]), ("tabindex", "0"),
                    ]);
                    if i > 0 {
                        a.push(("hidden".into(), "".into()));
                    }
                    self.wrap(&mut pl, "div", a, &t["elements"])?;
                }
                push(&mut v, pl);
                push(e, v);
            }
            "anchor" => {
                let t = target(&d["target"])?;
                let mut own = vec![("class", "wj-anchor")];
                if let Some(t) = t {
                    own.push(("target", t));
                }
                self.wrap(e, "a", merge(&own, &d["attributes"]), &d["elements"])?;
            }
            "anchor-name" => push(e, el("a", at(&[("id", st(d))]))),
            "link" => self.link(e, d)?,
            "image" => {
                let s = &d["source"];
                let sd = &s["data"];
                let file = |s: &str, p: &str, f: &str| Some(format!("https://{s}.wjfiles.com/local--files/{p}/{f}"));
                let url = match st(&s["type"]) {
                    "url" => Some(st(sd).to_string()),
                    _ if !self.env.local => None,
                    "file1" => file(&self.env.site, &self.env.page, st(&sd["file"])),
                    "file2" => file(&self.env.site, st(&sd["page"]), st(&sd["file"])),
                    "file3" => file(st(&sd["site"]), st(&sd["page"]), st(&sd["file"])),
                    t => return Err(format!("unknown image source {t}")),
                };
                let Some(url) = url else {
                    push(e, with_text(el("div", at(&[("class", "wj-error-block")])), "No images in this context"));
                    return Ok(());
                };
                let class = match &d["alignment"] {
                    Value::Null => "wj-image-container".to_string(),
                    a => format!("wj-image-container {}", align_class(st(&a["align"]), a["float"] == Value::Bool(true))),
                };
                let img = el("img", merge(&[("class", "wj-image"), ("src", &url), ("crossorigin", "")], &d["attributes"]));
                let mut div = el("div", at(&[("class", &class)]));
                match &d["link"] {
                    Value::Null => push(&mut div, img),
                    l => {
                        let mut a = el("a", at(&[("href", &link_href(l))]));
                        push(&mut a, img);
                        push(&mut div, a);
                    }
                }
                push(e, div);
            }
            "list" => {
                let n = match st(&d["type"]) {
                    "numbered" => "ol",
                    "bullet" | "generic" => "ul",
                    t => return Err(format!("unknown list {t}")),
                };
                let mut l = el(n, merge(&[], &d["attributes"]));
                for i in d["items"].as_array().ok_or("items")? {
                    if i["item-type"] == "elements" {
                        self.wrap(&mut l, "li", merge(&[], &i["attributes"]), &i["elements"])?;
                    } else {
                        self.one(&mut l, i)?;
                    }
                }
                push(e, l);
            }
            "definition-list" => {
                let mut l = el("dl", vec![]);
                for i in d.as_array().ok_or("definitions")? {
                    self.wrap(&mut l, "dt", vec![], &i["key"])?;
                    self.wrap(&mut l, "dd", vec![], &i["value"])?;
                }
                push(e, l);
            }
            "radio-button" | "check-box" => {
                let radio = x["element"] == "radio-button";
                let mut own = vec![];
                if radio {
                    own.push(("name", st(&d["name"])));
                }
                own.push(("type", if radio { "radio" } else { "checkbox" }));
                if d["checked"] == Value::Bool(true) {
                    own.push(("checked", ""));
                }
                push(e, el("input", merge(&own, &d["attributes"])));
            }
            "collapsible" => {
                let mut own = vec![("class", "wj-collapsible")];
                for (k, a) in [("start-open", "open"), ("show-top", "data-show-top"), ("show-bottom", "data-show-bottom")] {
                    if d[k] == Value::Bool(true) {
                        own.push((a, ""));
                    }
                }
                let show = d["show-text"].as_str().unwrap_or("+ open block");
                let hide = d["hide-text"].as_str().unwrap_or("- hide block");
                let mut t = el("details", merge(&own, &d["attributes"]));
                let mut s = el("summary", at(&[("class", "wj-collapsible-button wj-collapsible-button-top")]));
                push(&mut s, with_text(el("span", at(&[("class", "wj-collapsible-show-text")])), show));
                push(&mut s, with_text(el("span", at(&[("class", "wj-collapsible-hide-text")])), hide));
                push(&mut t, s);
                self.wrap(&mut t, "div", at(&[("class", "wj-collapsible-content")]), &d["elements"])?;
                if d["show-bottom"] == Value::Bool(true) {
                    let mut b = el("wj-collapsible-button-bottom", at(&[("class", "wj-collapsible-button wj-collapsible-button-bottom")]));
                    push(&mut b, with_text(el("span", at(&[("class", "wj-collapsible-hide-text")])), hide));
                    push(&mut t, b);
                }
                push(e, t);
            }
            "table-of-contents" => {
                let ids = self.env.true_ids;
                let class;
                let mut own = vec![];
                if ids {
                    own.push(("id", "wj-toc"));
                }
                if let Some(al) = d["align"].as_str() {
                    class = align_class(al, true);
                    own.push(("class", class.as_str()));
                }
                let mut t = el("div", merge(&own, &d["attributes"]));
                let idat = |i: &str| if ids { at(&[("id", i)]) } else { vec![] };
                let mut bar = el("div", idat("wj-toc-action-bar"));
                push(&mut bar, el("a", at(&[("href", "javascript:;"), ("onclick", "WIKIJUMP.page.listeners.foldToc(event)")])));
                push(&mut t, bar);
                push(&mut t, with_text(el("div", at(&[("class", "title")])), "Table of Contents"));
                let tree = self.tree;
                self.wrap(&mut t, "div", idat("wj-toc-list"), &tree["table-of-contents"])?;
                push(e, t);
            }
            "footnote" => {
                if self.in_cite {
                    return Ok(());
                }
                self.foot += 1;
                let n = self.foot.to_string();
                let label = format!("Footnote {n}.");
                let tree = self.tree;
                let contents = tree["footnotes"].get(self.foot - 1).ok_or("footnote without contents")?;
                let mut s = el("span", at(&[("class", "wj-footnote-ref")]));
                push(&mut s, with_text(
                    el("wj-footnote-ref-marker", at(&[("class", "wj-footnote-ref-marker"), ("role", "link"), ("aria-label", &label), ("data-id", &n)])),
                    &n,
                ));
                let mut tip = el("span", at(&[("class", "wj-footnote-ref-tooltip"), ("aria-hidden", "true")]));
                push(&mut tip, with_text(el("span", at(&[("class", "wj-footnote-ref-tooltip-label")])), &label));
                self.wrap(&mut tip, "span", at(&[("class", "wj-footnote-ref-contents")]), contents)?;
                push(&mut s, tip);
                push(e, s);
            }
            "footnote-block" => {
                let tree = self.tree;
                let notes = tree["footnotes"].as_array().ok_or("footnotes")?;
                if d["hide"] == Value::Bool(true) || notes.is_empty() {
                    return Ok(());
                }
                let mut f = el("div", at(&[("class", "wj-footnote-list")]));
                push(&mut f, with_text(el("div", at(&[("class", "wj-title")])), d["title"].as_str().unwrap_or("Footnotes")));
                let mut ol = el("ol", vec![]);
                for (i, c) in notes.iter().enumerate() {
                    let n = (i + 1).to_string();
                    let mut li = el("li", at(&[("class", "wj-footnote-list-item"), ("data-id", &n)]));
                    let mut m = with_text(
                        el("wj-footnote-list-item-marker", at(&[("class", "wj-footnote-list-item-marker"), ("type", "button"), ("role", "link")])),
                        &n,
                    );
                    push(&mut m, with_text(el("span", at(&[("class", "wj-footnote-sep")])), "."));
                    push(&mut li, m);
                    self.wrap(&mut li, "span", at(&[("class", "wj-footnote-list-item-contents")]), c)?;
                    push(&mut ol, li);
                }
                push(&mut f, ol);
                push(e, f);
            }
            "bibliography-cite" => self.cite(e, d)?,
            "bibliography-block" => {
                if d["hide"] == Value::Bool(true) {
                    return Ok(());
                }
                let i = d["index"].as_u64().ok_or("index")? as usize;
                let tree = self.tree;
                let bib = tree["bibliographies"].get(i).ok_or("no such bibliography")?;
                let mut b = el("div", at(&[("class", "wj-bibliography bibitems")]));
                push(&mut b, with_text(el("div", at(&[("class", "wj-bibliography-title title")])), d["title"].as_str().unwrap_or("Bibliography")));
                for (k, entry) in bib.as_array().ok_or("bibliography")?.iter().enumerate() {
                    let (x, y) = (i + 1, k + 1);
                    let mut item = el("div", at(&[("class", "wj-bibliography-item bibitem"), ("id", &format!("wj-bibliography-item-{x}-{y} bibitem-{x}-{y}"))]));
                    let mut m = with_text(
                        el("wj-bibliography-item-marker", at(&[("class", "wj-bibliography-item-marker"), ("type", "button"), ("role", "link")])),
                        &y.to_string(),
                    );
                    push(&mut m, with_text(el("span", at(&[("class", "wj-bibliography-sep")])), "."));
                    push(&mut item, m);
                    self.list(&mut item, &entry[1])?;
                    push(&mut b, item);
                }
                push(e, b);
            }
            "user" => {
                let name = st(&d["name"]);
                let mut s = el("span", at(&[("class", "wj-user-info")]));
                let mut a = el("a", at(&[("class", "wj-user-info-link"), ("href", &format!("/user:info/{name}"))]));
                if d["show-avatar"] == Value::Bool(true) {
                    let mut k = el("span", at(&[("class", "wj-karma"), ("data-karma", "5")]));
                    self.sprite(&mut k, "wj-karma");
                    push(&mut a, k);
                    push(&mut a, el("img", at(&[("class", "wj-user-info-avatar"), ("src", "*")])));
                }
                push(&mut a, with_text(el("span", at(&[("class", "wj-user-info-name")])), name));
                push(&mut s, a);
                push(e, s);
            }
            "date" => {
                let class = if d["hover"] == Value::Bool(true) { "wj-date wj-date-hover" } else { "wj-date" };
                let w = crate::refdate::parse(st(&d["value"])).ok_or_else(|| format!("date {} in tree", d["value"]))?;
                let t = w.timestamp().to_string();
                push(e, with_text(el("span", at(&[("class", class), ("data-timestamp", &t)])), &w.rfc2822().unwrap_or("*".into())));
            }
            "color" => {
                let style = format!("color: {};", st(&d["color"]));
                self.wrap(e, "span", at(&[("style", &style)]), &d["elements"])?;
            }
            "code" => {
                let lang = d["language"].as_str();
                let class = format!("wj-code wj-language-{}", lang.unwrap_or("none")).to_ascii_lowercase();
                let mut c = el("wj-code", at(&[("class", &class)]));
                let mut p = el("div", at(&[("class", "wj-code-panel")]));
                let mut b = el("wj-code-copy", at(&[("type", "button"), ("class", "wj-code-copy"), ("title", "Copy to Clipboard")]));
                self.sprite(&mut b, "wj-clipboard");
                self.sprite(&mut b, "wj-clipboard-success");
                push(&mut p, b);
                push(&mut p, with_text(el("span", at(&[("class", "wj-code-language")])), lang.unwrap_or("")));
                push(&mut c, p);
                let mut pre = el("pre", vec![]);
                push(&mut pre, with_text(el("code", vec![]), st(&d["contents"])));
                push(&mut c, pre);
                push(e, c);
            }
            "math" | "math-inline" => {
                let block = x["element"] == "math";
                let mut a = at(&[("class", if block { "wj-math wj-math-block" } else { "wj-math wj-math-inline" })]);
                if let Some(n) = d["name"].as_str() {
                    a.push(("data-name".into(), n.into()));
                }
                let mut m = el(if block { "div" } else { "span" }, a);
                if block {
                    self.eq += 1;
                    let mut n = el("span", at(&[("class", "wj-equation-number")]));
                    push(&mut n, with_text(el("span", at(&[("class", "wj-equation-paren wj-equation-paren-open")])), "("));
                    text(&mut n, &self.eq.to_string());
                    push(&mut n, with_text(el("span", at(&[("class", "wj-equation-paren wj-equation-paren-close")])), ")"));
                    push(&mut m, n);
                }
                push(&mut m, with_text(
                    el("code", at(&[("class", "wj-math-source wj-hidden"), ("aria-hidden", "true")])),
                    st(&d["latex-source"]),
                ));
                push(&mut m, el("wj-math-ml", vec![]));
                push(e, m);
            }
            "equation-reference" => {
                let mut s = el("span", at(&[("class", "wj-equation-ref")]));
                push(&mut s, with_text(
                    el("wj-equation-ref-marker", at(&[("class", "wj-equation-ref-marker"), ("type", "button"), ("data-name", st(d))])),
                    st(d),
                ));
                push(&mut s, el("span", at(&[("class", "wj-equation-ref-tooltip"), ("aria-hidden", "true")])));
                push(e, s);
            }
            "embed" => {
                let f = &d["data"];
                let mut v = el("div", at(&[("class", "wj-embed")]));
                let k = match st(&d["embed"]) {
                    "youtube" => el("iframe", at(&[
                        ("src", &format!("https://www.youtube.com/embed/{}", st(&f["video-id"]))), ("frameborder", "0"),
                        ("allow", "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture"),
                        ("allowfullscreen", ""),
                    ])),
                    "vimeo" => el("iframe", at(&[
                        ("src", &format!("https://player.vimeo.com/video/{}", st(&f["video-id"]))), ("frameborder", "0"),
                        ("allow", "autoplay; fullscreen; picture-inpicture"), ("allowfullscreen", ""),
                    ])),
                    "github-gist" => el("script", at(&[("src", &format!("https://gist.github.com/{}/{}.js", st(&f["username"]), st(&f["hash"])))])),
                    "gitlab-snippet" => el("script", at(&[("src", &format!("https://gitlab.com/-/snippets/{}.js", st(&f["snippet-id"])))])),
                    n => return Err(format!("unknown embed {n}")),
                };
                push(&mut v, k);
                push(e, v);
            }
            "html" => push(e, el("iframe", at(&[("src", "https://example.com/"), ("crossorigin", "")]))),
            "iframe" => push(e, el("iframe", merge(&[("src", st(&d["url"])), ("crossorigin", "")], &d["attributes"]))),
            "include" => {
                self.scopes.push(&d["variables"]);
                self.list(e, &d["elements"])?;
                self.scopes.pop();
            }
            // A style sheet that cannot be printed again leaves nothing.
            "style" => {}
            "line-break" => push(e, el("br", vec![])),
            "line-breaks" => {
                for _ in 0..d.as_u64().unwrap_or(0) {
                    push(e, el("br", vec![]));
                }
            }
            "clear-float" => push(e, el("div", at(&[("class", &format!("wj-clear-float wj-clear-float-{}", st(d)))]))),
            "horizontal-rule" => push(e, el("hr", vec![])),
            n => return Err(format!("unknown element {n}")),
        }
        Ok(())
    }

    fn link(&mut self, e: &mut El, d: &'a Value) -> Result<(), String> {
        let link = &d["link"];
        let mut a = at(&[("href", &format!("{}{}", link_href(link), d["extra"].as_str().unwrap_or("")))]);
        if let Some(t) = target(&d["target"])? {
            a.push(("target".into(), t.into()));
        }
        let kind = match link {
            Value::String(u) if u == "javascript:;" || u.starts_with('#') => "anchor",
            Value::String(u) if u.starts_with('/') => "internal",
            Value::String(_) => "external",
            _ => "internal",
        };
        let ltype = d["type"].as_str().unwrap_or("");
        let inter = if ltype == "interwiki" { " wj-link-interwiki" } else { "" };
        a.push(("class".into(), format!("wj-link wj-link-{kind}{inter}")));
        a.push(("data-link-type".into(), ltype.into()));
        let label = crate::reftext::link_label(d, &self.env.site);
        push(e, with_text(el("a", a), &label));

        // Backlinks.
        match link {
            // Links to nowhere and to this page are no backlinks.
            Value::String(u) if u == "javascript:;" || u.starts_with('#') => {}
            Value::String(u) => match u.strip_prefix('/') {
                Some(p) if !is_url(p) => {
                    let end = p.find(['/', '#']).unwrap_or(p.len());
                    self.internal.push((None, p[..end].to_string()));
                }
                Some(p) => self.external.push(p.to_string()),
                None if is_url(u) => self.external.push(u.to_string()),
                None => self.internal.push((None, u.to_string())),
            },
            l => self.internal.push(page_ref(l)),
        }
        Ok(())
    }

    fn cite(&mut self, e: &mut El, d: &'a Value) -> Result<(), String> {
        let label = d["label"].as_str().unwrap_or("");
        let tree = self.tree;
        let found = tree["bibliographies"].as_array().into_iter().flatten().find_map(|b| {
            b.as_array()?.iter().enumerate().find(|(_, x)| x[0] == label).map(|(i, x)| (i + 1, &x[1]))
        });
        let Some((n, contents)) = found else {
            push(e, with_text(el("span", at(&[("class", "wj-error-inline")])), "Bibliography item not found"));
            return Ok(());
        };
        let n = n.to_string();
        let label = format!("Reference {n}.");
        let mut s = el("span", at(&[("class", "wj-bibliography-ref")]));
        let brackets = d["brackets"] == Value::Bool(true);
        if brackets {
            text(&mut s, "[");
        }
        push(&mut s, with_text(
            el("wj-bibliography-ref-marker", at(&[("class", "wj-bibliography-ref-marker"), ("role", "link"), ("aria-label", &label), ("data-id", &n)])),
            &n,
        ));
        if brackets {
            text(&mut s, "]");
        }
        if !self.in_cite {
            let mut tip = el("span", at(&[("class", "wj-bibliography-ref-tooltip"), ("aria-hidden", "true")]));
            push(&mut tip, with_text(el("span", at(&[("class", "wj-bibliography-ref-tooltip-label")])), &label));
            self.in_cite = true;
            let r = self.wrap(&mut tip, "span", at(&[("class", "wj-bibliography-ref-contents")]), contents);
            self.in_cite = false;
            r?;
            push(&mut s, tip);
        }
        push(e, s);
        Ok(())
    }

}

fn target(v: &Value) -> Result<Option<&'static str>, String> {
    Ok(match v.as_str() {
        None => None,
        Some("new-tab") => Some("_blank"),
        Some("parent") => Some("_parent"),
        Some("top") => Some("_top"),
        Some("same") => Some("_self"),
        Some(t) => return Err(format!("unknown target {t}")),
    })
}

/// Makes DOMs comparable: attributes sorted, valueless as empty, opaque parts removed.
pub fn canon(mut e: El) -> El {
    for (_, v) in e.attrs.iter_mut() {
        let t = v.take().unwrap_or_default();
        // The escaper turns null characters into spaces.
        *v = Some(t.replace('\0', " "));
    }
    e.raw = None;
    if e.has_class("wj-date") && e.name == "span" && e.has("data-timestamp") {
        // The age isn't fixed, nor how dates without RFC 2822 form are shown.
        e.attrs.retain(|(k, _)| k != "data-delta");
        if let [Node::Text(t)] = &mut e.kids[..] {
            if !t.contains(", ") && !t.contains("ERROR") {
                *t = "*".into();
            }
        }
    }
    if e.has_class("wj-user-info-avatar") && e.name == "img" && e.attr("src").is_some_and(|s| s.starts_with("data:image/png;base64,")) {
        for (k, v) in e.attrs.iter_mut() {
            if k == "src" {
                *v = Some("*".into());
            }
        }
    }
    if e.has_class("wj-math") && matches!(e.name.as_str(), "div" | "span") {
        if let Some(Node::El(last)) = e.kids.last_mut() {
            if last.name == "wj-math-ml" || last.has_class("wj-error-block") || last.has_class("wj-error-inline") {
                *last = el("wj-math-ml", vec![]);
            }
        }
    }
    e.attrs.sort();
    let kids = std::mem::take(&mut e.kids);
    for k in kids {
        match k {
            Node::El(k) if k.name == "style" => {}
            Node::El(k) => e.kids.push(Node::El(canon(k))),
            Node::Text(t) => {
                if let Some(Node::Text(p)) = e.kids.last_mut() {
                    p.push_str(&t);
                } else {
                    e.kids.push(Node::Text(t));
                }
            }
        }
    }
    e
}

/// Compares the HTML of a tree with the DOM the tree denotes.
pub fn compare(tree: &Value, env: &Env, html: &str) -> Result<El, String> {
    compare_all(tree, env, html).map(|x| x.0)
}

/// Also returns the reference rendering, for the backlinks.
pub fn compare_all<'a>(tree: &'a Value, env: &'a Env, html: &str) -> Result<(El, Ref<'a>), String> {
    let actual = crate::html::parse_body(html)?;
    let mut r = Ref::new(env, tree);
    let expected = r.body()?;
    let a = crate::pipe::normalize_ids(&canon(actual.clone()).show());
    let e = crate::pipe::normalize_ids(&canon(expected).show());
    if a != e {
        let p = a.bytes().zip(e.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(e.len()));
        let cut = |s: &str| {
            let b: Vec<char> = String::from_utf8_lossy(&s.as_bytes()[p.saturating_sub(100).min(s.len())..(p + 200).min(s.len())]).chars().collect();
            b.into_iter().collect::<String>()
        };
        return Err(format!("HTML differs from the tree's rendering\n  got:      …{}…\n  expected: …{}…", cut(&a), cut(&e)));
    }
    Ok((actual, r))
}
