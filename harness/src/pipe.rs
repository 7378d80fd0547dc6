//! Running the real pipeline: settings and page information as plain data, and the stages.

use ftml::layout::Layout;
use ftml::prelude::*;
use ftml::render::{html::HtmlOutput, html::HtmlRender, text::TextRender, Render};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::borrow::Cow;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(default)]
pub struct Env {
    pub mode: String,
    pub page_syntax: bool,
    pub compat: bool,
    pub true_ids: bool,
    pub isolate: bool,
    pub local: bool,
    pub minify: bool,
    pub layout: String,
    pub page: String,
    pub category: Option<String>,
    pub site: String,
    pub title: String,
    pub alt: Option<String>,
    pub tags: Vec<String>,
    pub lang: String,
    pub score: f64,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            mode: "page".into(),
            page_syntax: true,
            compat: false,
            true_ids: true,
            isolate: false,
            local: true,
            minify: false,
            layout: "wikijump".into(),
            page: "some-page".into(),
            category: None,
            site: "sandbox".into(),
            title: "A page".into(),
            alt: None,
            tags: vec!["tale".into(), "_cc".into()],
            lang: "default".into(),
            score: 69.0,
        }
    }
}

impl Env {
    pub fn settings(&self) -> WikitextSettings {
        let mode = match self.mode.as_str() {
            "draft" => WikitextMode::Draft,
            "forum-post" => WikitextMode::ForumPost,
            "direct-message" => WikitextMode::DirectMessage,
            "list" => WikitextMode::List,
            _ => WikitextMode::Page,
        };
        let layout = if self.layout == "wikidot" {
            Layout::Wikidot
        } else {
            Layout::Wikijump
        };
        let mut s = WikitextSettings::from_mode(mode, layout);
        s.enable_page_syntax = self.page_syntax;
        s.use_include_compatibility = self.compat;
        s.use_true_ids = self.true_ids;
        s.isolate_user_ids = self.isolate;
        s.allow_local_paths = self.local;
        s.minify_css = self.minify;
        s
    }

    pub fn info(&self) -> PageInfo<'static> {
        PageInfo {
            page: Cow::Owned(self.page.clone()),
            category: self.category.clone().map(Cow::Owned),
            site: Cow::Owned(self.site.clone()),
            title: Cow::Owned(self.title.clone()),
            alt_title: self.alt.clone().map(Cow::Owned),
            score: ScoreValue::Float(self.score),
            tags: self.tags.iter().cloned().map(Cow::Owned).collect(),
            language: Cow::Owned(self.lang.clone()),
        }
    }

    /// A random environment, covering every switch.
    pub fn random(r: &mut crate::rng::Rng) -> Env {
        Env {
            mode: r.s(&["page", "page", "draft", "forum-post", "direct-message", "list"]),
            page_syntax: !r.chance(1, 5),
            compat: r.chance(1, 5),
            true_ids: r.chance(3, 4),
            isolate: r.chance(1, 3),
            local: !r.chance(1, 4),
            minify: r.chance(1, 3),
            layout: r.s(&["wikijump", "wikidot"]),
            page: r.s(&["some-page", "scp-001", "a", "x:y", "Übung page"]),
            category: match r.below(4) {
                0 => Some("component".into()),
                1 => Some("".into()),
                2 => Some("fragment".into()),
                _ => None,
            },
            site: r.s(&["sandbox", "scp-wiki", "www"]),
            title: r.s(&["A page", "SCP-001 & <co>", ""]),
            alt: if r.coin() { Some("The \"Alt\"".into()) } else { None },
            tags: match r.below(3) {
                0 => vec![],
                1 => vec!["tale".into(), "_cc".into()],
                _ => vec!["scp".into(), "safe".into(), "tale".into()],
            },
            lang: r.s(&["default", "en", "fr", "xx"]),
            score: r.range(0, 50) as f64,
        }
    }
}

pub fn preprocess(s: &str) -> String {
    let mut t = s.to_string();
    ftml::preprocess(&mut t);
    t
}

/// Everything observable about one run of tokenizing, parsing and rendering.
pub struct Run {
    pub tokens: Vec<(String, std::ops::Range<usize>, String)>,
    pub tree: SyntaxTree<'static>,
    pub json: Value,
    pub errors: Vec<ParseError>,
    pub text: String,
    pub html: HtmlOutput,
}

pub fn tree_of(src: &str, env: &Env) -> (SyntaxTree<'static>, Vec<ParseError>) {
    let info = env.info();
    let settings = env.settings();
    let tok = ftml::tokenize(src);
    let (tree, errors) = ftml::parse(&tok, &info, &settings).into();
    (tree.to_owned(), errors)
}

/// The tree as JSON (an error of the serializer shows up as a string).
pub fn json_of(tree: &SyntaxTree) -> Value {
    serde_json::to_value(tree).unwrap_or_else(|e| Value::String(format!("unserializable: {e}")))
}

pub fn html_of(tree: &SyntaxTree, env: &Env) -> HtmlOutput {
    HtmlRender.render(tree, &env.info(), &env.settings())
}

pub fn html_of_with(tree: &SyntaxTree, env: &Env, settings: &WikitextSettings) -> HtmlOutput {
    HtmlRender.render(tree, &env.info(), settings)
}

pub fn text_of(tree: &SyntaxTree, env: &Env) -> String {
    TextRender.render(tree, &env.info(), &env.settings())
}

/// Runs tokenizer, parser and both renderers (no preprocessing).
pub fn run(src: &str, env: &Env) -> Run {
    let info = env.info();
    let settings = env.settings();
    let tok = ftml::tokenize(src);
    let tokens = tok
        .tokens()
        .iter()
        .map(|t| (format!("{:?}", t.token), t.span.clone(), t.slice.to_string()))
        .collect();
    let (tree, errors) = ftml::parse(&tok, &info, &settings).into();
    let html = HtmlRender.render(&tree, &info, &settings);
    let text = TextRender.render(&tree, &info, &settings);
    let json = json_of(&tree);
    Run {
        tokens,
        tree: tree.to_owned(),
        json,
        errors,
        text,
        html,
    }
}

/// Removes the randomness of generated ids from HTML.
pub fn normalize_ids(html: &str) -> String {
    let mut out = String::with_capacity(html.len());
    let mut rest = html;
    let mut seen: Vec<String> = Vec::new();
    while let Some(p) = rest.find("wj-id-") {
        out.push_str(&rest[..p + 6]);
        rest = &rest[p + 6..];
        let n = rest
            .char_indices()
            .take_while(|(i, c)| *i < 16 && c.is_ascii_alphanumeric())
            .count();
        if n == 16 {
            let id = &rest[..16];
            let k = match seen.iter().position(|s| s == id) {
                Some(k) => k,
                None => {
                    seen.push(id.to_string());
                    seen.len() - 1
                }
            };
            out.push_str(&format!("#{k}"));
            rest = &rest[16..];
        }
    }
    out.push_str(rest);
    out
}

/// Whether there may be a date that is the current time.
pub fn uses_clock(src: &str) -> bool {
    let low = src.to_ascii_lowercase();
    low.match_indices("date").any(|(i, _)| {
        let t = low[i + 4..].trim_start();
        t.starts_with('.') || t.starts_with("now") || t.starts_with('…')
    })
}

struct Sink;

/// What was logged so far (messages, bytes).
pub static LOGGED: [std::sync::atomic::AtomicU64; 2] = [std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0)];

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        struct Count(u64);
        impl std::fmt::Write for Count {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len() as u64;
                Ok(())
            }
        }
        let mut c = Count(0);
        let _ = std::fmt::write(&mut c, *record.args());
        LOGGED[0].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        LOGGED[1].fetch_add(c.0, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}

/// Runs with every log message formatted, as under a logger of the most verbose level.
pub fn logged<T>(on: bool, f: impl FnOnce() -> T) -> T {
    if on {
        let _ = log::set_logger(&Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let out = f();
    log::set_max_level(log::LevelFilter::Off);
    out
}
