//! An independent renderer from the serialized tree to the plain text it should have.

use crate::pipe::Env;
use serde_json::Value;

/// The visible label of a link.
pub fn link_label(d: &Value, site: &str) -> String {
    let link = &d["link"];
    let page = || link["page"].as_str().unwrap_or("").to_string();
    match &d["label"] {
        // The title of the page.
        Value::String(_) => match link {
            Value::String(u) => u.clone(),
            l => format!("TODO: actual title ({} {})", l["site"].as_str().unwrap_or(site), page()),
        },
        l => match (&l["text"], &l["url"]) {
            (Value::String(t), _) | (_, Value::String(t)) => t.clone(),
            _ => match link {
                Value::String(u) => u.clone(),
                _ => page(),
            },
        },
    }
}

/// Pieces of the output; a date's text isn't always fixed.
#[derive(Debug, Clone, PartialEq)]
enum Piece {
    Text(String),
    Date(String, usize),
}

pub struct RefText<'a> {
    env: &'a Env,
    out: Vec<Piece>,
    hidden: usize,
    scopes: Vec<&'a Value>,
    budget: usize,
    pub kinds: std::collections::BTreeMap<String, u64>,
}

impl<'a> RefText<'a> {
    pub fn new(env: &'a Env) -> Self {
        RefText { env, out: vec![], hidden: 0, scopes: vec![], budget: 400_000, kinds: Default::default() }
    }

    fn put(&mut self, s: &str) {
        let s = if self.hidden > 0 { " ".repeat(s.chars().count()) } else { s.to_string() };
        self.raw(&s);
    }

    fn raw(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(Piece::Text(t)) = self.out.last_mut() {
            t.push_str(s);
        } else {
            self.out.push(Piece::Text(s.to_string()));
        }
    }

    /// Line breaks show even in invisible text.
    fn line(&mut self) {
        self.raw("\n");
    }

    fn fresh_line(&mut self) {
        if !matches!(self.out.last(), Some(Piece::Text(t)) if t.ends_with('\n')) {
            self.line();
        }
    }

    fn list(&mut self, v: &'a Value) -> Result<(), String> {
        for x in v.as_array().into_iter().flatten() {
            self.one(x)?;
        }
        Ok(())
    }

    pub fn one(&mut self, x: &'a Value) -> Result<(), String> {
        self.budget = self.budget.checked_sub(1).ok_or("output too large")?;
        let d = &x["data"];
        let st = |v: &'a Value| v.as_str().unwrap_or("");
        let kind = st(&x["element"]);
        *self.kinds.entry(kind.to_string()).or_default() += 1;
        match kind {
            "container" => {
                let kids = &d["elements"];
                let ty = d["type"].as_str().unwrap_or(if d["type"].get("header").is_some() { "header" } else { "" });
                match ty {
                    "hidden" => {}
                    "invisible" => {
                        self.hidden += 1;
                        self.list(kids)?;
                        self.hidden -= 1;
                    }
                    "div" | "paragraph" | "blockquote" | "header" => {
                        self.line();
                        self.list(kids)?;
                        self.line();
                    }
                    "ruby-text" => {
                        self.put("(");
                        self.list(kids)?;
                        self.put(")");
                    }
                    _ => self.list(kids)?,
                }
            }
            "text" | "raw" | "email" => self.put(st(d)),
            "variable" => {
                let v = self.scopes.iter().rev().find_map(|s| s.get(st(d)).and_then(|v| v.as_str()));
                let v = v.map(|v| v.to_string()).unwrap_or_else(|| format!("{{${}}}", st(d)));
                self.put(&v);
            }
            "table" => {
                self.fresh_line();
                for row in d["rows"].as_array().into_iter().flatten() {
                    for cell in row["cells"].as_array().into_iter().flatten() {
                        self.list(&cell["elements"])?;
                    }
                    self.line();
                }
                self.line();
            }
            "tab-view" => {
                for t in d.as_array().into_iter().flatten() {
                    self.put(st(&t["label"]));
                    self.line();
                    self.list(&t["elements"])?;
                    self.line();
                }
            }
            "anchor" | "collapsible" | "color" => self.list(&d["elements"])?,
            "link" => {
                let l = link_label(d, &self.env.site);
                self.put(&l);
            }
            "list" => {
                self.fresh_line();
                for item in d["items"].as_array().into_iter().flatten() {
                    if item["item-type"] == "sub-list" {
                        self.one(item)?;
                    } else if item["elements"].as_array().is_some_and(|l| !l.is_empty()) {
                        self.list(&item["elements"])?;
                        self.line();
                    }
                }
            }
            "definition-list" => {
                for item in d.as_array().into_iter().flatten() {
                    self.list(&item["key"])?;
                    self.put(" ");
                    self.list(&item["value"])?;
                    self.line();
                }
                self.line();
            }
            "user" => self.put(st(&d["name"])),
            "date" => {
                self.out.push(Piece::Date(st(&d["value"]).to_string(), self.hidden));
            }
            "code" => {
                self.line();
                self.put(st(&d["contents"]));
                self.line();
            }
            "equation-reference" => {
                self.put("[");
                self.put(st(d));
                self.put("]");
            }
            "include" => {
                self.scopes.push(&d["variables"]);
                self.list(&d["elements"])?;
                self.scopes.pop();
            }
            "line-break" => self.line(),
            "line-breaks" => {
                for _ in 0..d.as_u64().unwrap_or(0) {
                    self.line();
                }
            }
            // Nothing to show in text.
            "module" | "anchor-name" | "image" | "radio-button" | "check-box" | "table-of-contents" | "footnote"
            | "footnote-block" | "bibliography-cite" | "bibliography-block" | "math" | "math-inline" | "embed" | "html"
            | "iframe" | "style" | "clear-float" | "horizontal-rule" => {}
            k => return Err(format!("unknown element {k}")),
        }
        Ok(())
    }

    /// Compares with the text made, consuming it from the left.
    fn compare(&self, got: &str) -> Result<(), String> {
        let mut pieces = self.out.clone();
        if let Some(Piece::Text(t)) = pieces.first_mut() {
            *t = t.trim_start_matches('\n').to_string();
        }
        if let Some(Piece::Text(t)) = pieces.last_mut() {
            *t = t.trim_end_matches('\n').to_string();
        }
        let mut rest = got;
        for p in &pieces {
            match p {
                Piece::Text(t) => {
                    rest = rest.strip_prefix(t.as_str()).ok_or_else(|| self.differ(got, rest, t))?;
                }
                Piece::Date(v, hidden) => {
                    let w = crate::refdate::parse(v).ok_or_else(|| format!("date {v:?} in tree"))?;
                    match w.rfc2822() {
                        Some(t) => {
                            let t = if *hidden > 0 { " ".repeat(t.len()) } else { t };
                            rest = rest.strip_prefix(t.as_str()).ok_or_else(|| self.differ(got, rest, &t))?;
                        }
                        // No particular form.
                        None => {
                            static FORM: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new();
                            let f = FORM.get_or_init(|| {
                                regex::Regex::new(r"^-?\d{4,6}-\d\d-\d\d \d{1,2}:\d\d:\d\d(\.\d+)? [+-]\d\d:\d\d(:\d\d)?|^ +").unwrap()
                            });
                            let n = f.find(rest).map(|m| m.end()).ok_or_else(|| self.differ(got, rest, v))?;
                            if *hidden == 0 && !w.shown(&rest[..n]) {
                                return Err(self.differ(got, rest, v));
                            }
                            if *hidden > 0 {
                                // As many blanks as there may be.
                                return Ok(());
                            }
                            rest = &rest[n..];
                        }
                    }
                }
            }
        }
        if rest.is_empty() {
            Ok(())
        } else {
            Err(self.differ(got, rest, "(the end)"))
        }
    }

    fn differ(&self, got: &str, rest: &str, want: &str) -> String {
        let at = got.len() - rest.len();
        let cut = |s: &str| s.chars().take(200).collect::<String>();
        let before: String = got[..at].chars().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect();
        format!("text differs from the tree's, after {before:?}\n  got:      {:?}\n  expected: {:?}", cut(rest), cut(want))
    }
}

/// Compares the plain text of a tree with the text the tree denotes.
pub fn compare<'a>(elements: &'a Value, env: &'a Env, got: &str) -> Result<RefText<'a>, String> {
    let mut r = RefText::new(env);
    r.list(elements)?;
    r.compare(got)?;
    Ok(r)
}
