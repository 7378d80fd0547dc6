//! P23: links, their addresses, and backlinks.

use super::basic::hostile;
use super::wellformed::diff;
use crate::gen::{model, soup};
use crate::pipe::{self, Env};
use crate::refhtml::{self, is_url};
use crate::rng::Rng;
use crate::runner::*;
use ftml::data::PageRef;
use ftml::prelude::*;
use ftml::settings::InterwikiSettings;
use ftml::tree::LinkLocation;
use serde_json::{json, Value};
use std::borrow::Cow;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P23]
}

struct P23;

/// Interwiki prefixes besides the default ones.
const WIKIS: &[(&str, &str)] = &[
    ("wikipedia", "https://wikipedia.org/wiki/$$"),
    ("wp", "https://wikipedia.org/wiki/$$"),
    ("google", "https://google.com/search?q=$$"),
    ("ddg", "https://duckduckgo.com/?q=$$"),
    ("own", "https://own.example/$$?again=$$"),
    ("two words", "https://two.example/a b/$$"),
    ("const", "https://const.example/"),
    ("m", "mailto:$$@example.com"),
    ("local", "/local/$$"),
];

fn interwiki() -> InterwikiSettings {
    let mut s = InterwikiSettings::new();
    for (k, v) in WIKIS {
        s.prefixes.insert(Cow::Borrowed(*k), Cow::Borrowed(*v));
    }
    s
}

/// The reference of a page that is written.
fn page_ref(s: &str) -> Option<(Option<String>, String)> {
    let s = s.trim();
    match s.strip_prefix(':') {
        None if s.is_empty() => None,
        None => Some((None, s.to_string())),
        Some(rest) => {
            let (site, page) = rest.split_once(':')?;
            let site = site.trim();
            if site.is_empty() {
                None
            } else {
                Some((Some(site.to_string()), page.trim().to_string()))
            }
        }
    }
}

fn first_part(u: &str) -> &str {
    &u[..u.find(['/', '#']).unwrap_or(u.len())]
}

/// What a written target leads to: location, extra part, whether it is a page.
fn location(u: &str) -> (Value, Value, bool) {
    if is_url(u) || u.starts_with('#') || u.starts_with('/') {
        return (json!(u), Value::Null, false);
    }
    let first = first_part(u);
    let extra = if first.len() < u.len() { json!(&u[first.len()..]) } else { Value::Null };
    match page_ref(first) {
        Some((site, page)) => (json!({"site": site, "page": page}), extra, true),
        None => (json!(first), extra, false),
    }
}

fn wiki(u: &str) -> Option<String> {
    let (prefix, path) = u.split_once(':')?;
    if path.is_empty() {
        return None;
    }
    let (_, template) = WIKIS.iter().find(|w| w.0 == prefix)?;
    Some(template.split("$$").collect::<Vec<_>>().join(path).replace(' ', "%20"))
}

fn norm(s: &str) -> String {
    let mut s = s.to_string();
    wikidot_normalize::normalize(&mut s);
    s
}

/// The label of `[[[target]]]`.
fn own_label(u: &str) -> Value {
    if is_url(u) {
        return Value::Null;
    }
    let named = |rest: &str| -> Option<String> {
        let (cat, name) = rest.split_once(':')?;
        if cat.trim_start_matches('/').contains(['/', '#']) {
            return None;
        }
        Some(name.trim_start().to_string())
    };
    match u.strip_prefix(':') {
        // After the name of a site.
        Some(rest) => match rest.split_once(':') {
            None => Value::Null,
            Some((_, rest)) => {
                let rest = rest.trim_start();
                match rest.strip_prefix(':') {
                    Some(_) => own_label(rest).as_str().map_or(json!(rest), |s| json!(s)),
                    None => json!(named(rest).unwrap_or(rest.to_string())),
                }
            }
        },
        None => named(u).map_or(Value::Null, |s| json!(s)),
    }
}

/// Written targets and labels that can't end their links or be something else.
fn tame(s: &str) -> bool {
    s.len() < 5000
        && !s.contains(['[', ']', '|', '"', '\n', '\r', '\t', '\0', '@', '`', '{', '\u{a0}'])
        && !["..", ",,", "''", "--", "<<", ">>", "http", "ftp", "((", "  ", ". . ."].iter().any(|x| s.contains(x))
        && !s.chars().any(|c| c != ' ' && c.is_whitespace())
        && s.trim_matches(|c: char| c.is_whitespace()).len() == s.trim_matches(' ').len()
}

fn tame_target(s: &str) -> bool {
    let rest = ["https://", "http://", "ftp://"].iter().find_map(|p| s.strip_prefix(p)).unwrap_or(s);
    tame(&rest.replace('@', "")) && (rest.len() < s.len() || !rest.contains('@') || s.starts_with("mailto:"))
}

/// What is text without a link around it.
fn plain(s: &str) -> bool {
    s.chars().all(|c| c.is_alphanumeric() || " !:.?/-".contains(c)) && !s.contains("//")
}

struct Written {
    src: String,
    /// Nothing if it isn't a link.
    link: Option<Value>,
    href: Option<String>,
    text: String,
}

fn written(v: &Value, site: &str) -> Option<Written> {
    let kind = v["k"].as_str()?;
    let t = v["t"].as_str()?;
    let star = v["star"].as_bool().unwrap_or(false);
    let label = v["l"].as_str();
    if !tame_target(t) || label.is_some_and(|l| !tame(l)) {
        return None;
    }
    let s = if star { "*" } else { "" };
    let target = if star { json!("new-tab") } else { Value::Null };
    Some(match kind {
        "single" => {
            // Something else begins with these.
            if t.contains(' ') || t.starts_with(['#', '*', '!']) && !star || t.starts_with('[') {
                return None;
            }
            let l = label?;
            let ok = t.starts_with('/') || is_url(t);
            if t.is_empty() || !ok && !(plain(t) && plain(l) && !l.is_empty()) {
                return None;
            }
            Written {
                src: format!("[{s}{t} {l}]"),
                link: ok.then(|| json!({"type": "direct", "link": t, "extra": null, "label": {"text": l.trim()}, "target": target})),
                href: ok.then(|| refhtml::href(t)),
                text: l.trim().into(),
            }
        }
        "anchor" => {
            if t.contains(' ') || star {
                return None;
            }
            let l = label?;
            let to = if t.is_empty() { "javascript:;".to_string() } else { format!("#{}", norm(t)) };
            Written {
                src: format!("[#{t} {l}]"),
                link: Some(json!({"type": "anchor", "link": to, "extra": null, "label": {"text": l.trim()}, "target": null})),
                href: Some(to),
                text: l.trim().into(),
            }
        }
        "url" => {
            // Where there is no `]` at least.
            if !["https://", "http://", "ftp://"].iter().any(|p| t.starts_with(p)) || t.contains(' ') || t.ends_with("//") {
                return None;
            }
            Written {
                src: t.into(),
                link: Some(json!({"type": "direct", "link": t, "extra": null, "label": {"url": null}, "target": null})),
                href: Some(t.into()),
                text: t.into(),
            }
        }
        "triple" => {
            let u = t.trim();
            if t.starts_with('*') || u.is_empty() {
                return None;
            }
            let (link, extra, page, ty) = match u.strip_prefix('!') {
                Some(w) => match wiki(w) {
                    Some(to) => (json!(to), Value::Null, false, "interwiki"),
                    None => (Value::Null, Value::Null, false, ""),
                },
                None => {
                    let (l, e, page) = location(u);
                    (l, e, page, if page { "page" } else { "direct" })
                }
            };
            let shown = match label {
                None => json!({"url": own_label(u)}),
                Some(l) if l.trim().is_empty() => json!("page"),
                Some(l) => json!({"text": l.trim()}),
            };
            let text = match (&shown, &link) {
                (Value::String(_), Value::String(u)) => u.clone(),
                (Value::String(_), l) => format!("TODO: actual title ({} {})", l["site"].as_str().unwrap_or(site), l["page"].as_str()?),
                (s, l) => match s["text"].as_str().or(s["url"].as_str()) {
                    Some(t) => t.into(),
                    None => l.as_str().or(l["page"].as_str()).unwrap_or("").to_string(),
                },
            };
            let base = match &link {
                Value::String(u) => refhtml::href(u),
                l => match (l["site"].as_str(), l["page"].as_str().unwrap_or("")) {
                    (None, p) => format!("/{}", norm(p)),
                    (Some(s), p) => format!("https://{s}.wikijump.com/{}", norm(p)),
                },
            };
            let _ = page;
            let src = match label {
                None => format!("[[[{s}{t}]]]"),
                Some(l) => format!("[[[{s}{t}|{l}]]]"),
            };
            // The lexer reads `$]]` as the end of math first.
            if src.ends_with("$]]]") && v["dollar"] != true {
                return None;
            }
            if ty.is_empty() {
                // The rest of it needs to be text.
                if !plain(t) || label.is_some_and(|l| !plain(l)) {
                    return None;
                }
                Written { src, link: None, href: None, text }
            } else {
                let href = format!("{base}{}", extra.as_str().unwrap_or(""));
                Written {
                    src,
                    link: Some(json!({"type": ty, "link": link, "extra": extra, "label": shown, "target": target})),
                    href: Some(href),
                    text,
                }
            }
        }
        _ => return None,
    })
}

/// All the links of a tree, in the order they are written.
fn links(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| links(x, out)),
        Value::Object(o) => {
            if v["element"] == "link" {
                out.push(v["data"].clone());
            } else if v.get("key_string").is_some() {
                links(&v["key"], out);
                links(&v["value"], out);
            } else {
                o.values().for_each(|x| links(x, out));
            }
        }
        _ => {}
    }
}

const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("**b ", " b**"),
    ("//i ", " i//"),
    ("* ", ""),
    ("# x ", " y"),
    ("|| ", " ||x||"),
    ("||x||~ ", "||"),
    ("+ ", ""),
    ("++* h ", " h"),
    ("> ", ""),
    (": k : ", ""),
    (": ", " : v"),
    ("= ", ""),
    ("[[div]]\n", "\n[[/div]]"),
    ("[[span]]", "[[/span]]"),
    ("[[iftags +tale]]", "[[/iftags]]"),
    ("[[ul]]\n[[li]]", "[[/li]]\n[[/ul]]"),
    ("[[table]]\n[[row]]\n[[cell]]", "[[/cell]]\n[[/row]]\n[[/table]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n[[/tabview]]"),
    ("x[[footnote]]", "[[/footnote]]"),
    ("[[size 2em]]", "[[/size]]"),
    ("##red|c ", " c##"),
    ("[[p]]\n", "\n[[/p]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"),
];

const NAMES: &[&str] = &[
    "SCP-001", "Some Page", "a", "x_y", "Übung", "日本", "theme", "Guide Hub!", "it's", "50%", "a.b", "a,b", "a+b", "(x)", "_t", "-x-", "$1", "a=b",
    "&c", "<i>", "~x", "Ａ", "component", "x?y=1&z", "**b**", "javascript", "data", "main", "system", "a**", "//x", "İ", "ß", "e\u{301}", "😀", "***",
];
const EXTRAS: &[&str] = &[
    "/edit", "/noredirect/true", "#toc0", "/a:b", "#x:y", "/edit#x", "/", "#", "##x", "/a b", "#/p", "/Ü", "/x#y/z#w", "/javascript:x", "#a b", "//",
];
const URLS: &[&str] = &[
    "https://e.com/", "http://e.com", "https://e.com/a?b=c&d=e#f", "ftp://e.com/x", "mailto:x@y.org", "irc://irc.e.com/x", "dns:e.com", "feed:x",
    "https://Ü.com/Ä", "https://e.com/(x)", "https://e.com/a,b;c", "https://e.com/**x**", "https://e.com/it's", "https://e.com/<b>", "file:///etc/x",
    "chrome://x", "blob:x", "https://e.com/a:b", "https://e.com/__x__", "https://e.com//x", "https://e.com/%20", "https://e.com/x.",
];

fn name(r: &mut Rng) -> String {
    let mut s = r.s(NAMES);
    if r.chance(1, 300) {
        return s.repeat(crate::gen::big::count(r));
    }
    if r.chance(1, 5) {
        let t = r.s(NAMES);
        s = format!("{s} {t}");
    }
    s
}

fn target(r: &mut Rng) -> String {
    match r.below(16) {
        0 | 1 => r.s(URLS),
        2 => format!("#{}", name(r)),
        3 => format!("/{}", name(r)),
        4 => {
            let (a, b) = (name(r), r.s(EXTRAS));
            format!("/{a}{b}")
        }
        5 | 6 => {
            let p = r.s(&["wp", "own", "two words", "const", "m", "local", "nope", "", "WP", "wp ", "wp:x"]);
            let mut t = format!("!{p}:{}", name(r));
            if r.chance(1, 3) {
                t.push_str(&r.s(EXTRAS));
            }
            if r.chance(1, 10) {
                t = r.s(&["!wp", "!wp:", "!", "!:", "!wp:$$", "!own:$$", "!!wp:x"]);
            }
            t
        }
        7 => r.s(&["::x", ": :x", ":x", ":", ":: ", ":x:", ":x: :y", ":x::y", "x:", "a:b:c", "javascript:alert(1)", "data:x", "JavaScript:;", "javascript:;", ":x:javascript:;", "::javascript:x"]),
        _ => {
            let mut t = name(r);
            let colon = r.s(&[":", ": ", " : ", " :"]);
            if r.chance(1, 3) {
                let n = name(r);
                t = format!("{n}{colon}{t}");
            }
            if r.chance(1, 6) {
                let n = r.s(&["scp-wiki", "www", "Some Site", "x"]);
                t = format!(":{n}{colon}{t}");
            }
            if r.chance(1, 3) {
                t.push_str(&r.s(EXTRAS));
            }
            t
        }
    }
}

fn label(r: &mut Rng) -> String {
    if r.chance(1, 300) {
        return crate::gen::big::long(r);
    }
    let n = r.range(1, 3);
    let words: Vec<String> = (0..n)
        .map(|_| {
            r.s(&[
                "one", "Two", "3", "**b**", "//i//", "__u__", "^^x^^", "<b>", "&amp;", "it's", "(x)", "#", "##red", "*", "+", "=", ">", "~", "-", "x:y", "Ü", "日本",
                "$x", "%", "!", "/", "a/b", "_", "a_", "😀", "javascript:x", ":", "?", "\\", "on=x",
            ])
        })
        .collect();
    words.join(" ")
}

fn spec(r: &mut Rng) -> Value {
    let star = r.chance(1, 4);
    match r.below(10) {
        0 | 1 => {
            let t = match r.below(6) {
                0 => r.s(&["nope", "Nope:x", "e.com/x", "javascript:x", "//", "page", "../x", "?x"]),
                1 | 2 => {
                    let (a, b) = (r.s(NAMES), r.s(EXTRAS));
                    format!("/{a}{b}")
                }
                _ => r.s(URLS),
            };
            let l = if r.chance(1, 15) { String::new() } else { label(r) };
            json!({"k": "single", "t": t.replace(' ', "_"), "l": l, "star": star})
        }
        2 => {
            let t = if r.chance(1, 4) { String::new() } else { r.s(NAMES).replace(' ', "-") };
            let l = label(r);
            json!({"k": "anchor", "t": t, "l": l})
        }
        3 => json!({"k": "url", "t": r.s(URLS)}),
        _ => {
            let mut t = target(r);
            if r.chance(1, 5) {
                t = format!(" {t} ");
            }
            let mut v = json!({"k": "triple", "t": t, "star": star});
            match r.below(3) {
                0 => {}
                1 => v["l"] = json!(r.s(&["", " "])),
                _ => {
                    let l = label(r);
                    v["l"] = json!(if r.chance(1, 3) { format!(" {l} ") } else { l });
                }
            }
            v
        }
    }
}

impl P23 {
    fn model(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(list) = v["blocks"].as_array() else { return Verdict::Skip };
        let env = Env { site: v["site"].as_str().unwrap_or("sandbox").into(), ..Env::default() };
        let mut src = String::new();
        let mut want: Vec<Written> = vec![];
        let mut foot: Vec<Written> = vec![];
        let mut last = usize::MAX;
        for b in list {
            let (Some(c), Some(l)) = (b["c"].as_u64(), b["l"].as_array()) else { return Verdict::Skip };
            let Some((open, close)) = CTX.get(c as usize) else { return Verdict::Skip };
            if !src.is_empty() {
                src.push_str("\n\n");
            }
            let _ = std::mem::replace(&mut last, c as usize);
            src.push_str(open);
            src.push_str("w ");
            for s in l {
                let Some(w) = written(s, &env.site) else { return Verdict::Skip };
                src.push_str(&w.src);
                src.push_str(" w ");
                if open.contains("footnote") {
                    foot.push(w);
                } else {
                    want.push(w);
                }
            }
            // Colors and styles can't end with blanks.
            while src.ends_with(' ') {
                src.pop();
            }
            src.push_str(close);
        }
        let given = src.clone();
        src = pipe::preprocess(&src);
        if src != given {
            return Verdict::Skip;
        }
        let info = env.info();
        let mut settings = env.settings();
        settings.interwiki = interwiki();
        let tok = ftml::tokenize(&src);
        let (tree, errors) = ftml::parse(&tok, &info, &settings).into();
        let j = pipe::json_of(&tree);
        let mut got = vec![];
        links(&j["elements"], &mut got);
        let plain_foot = foot.is_empty();
        links(&j["footnotes"], &mut got);
        let all: Vec<&Written> = want.iter().chain(&foot).collect();
        let exp: Vec<Value> = all.iter().filter_map(|w| w.link.clone()).collect();
        if let Some(d) = diff("links", &json!(got), &json!(exp)) {
            return fail("links", format!("{d}\n  source: {src:?}\n  errors: {errors:?}"));
        }
        let html = pipe::html_of_with(&tree, &env, &settings);
        let (el, r) = match refhtml::compare_all(&j, &env, &html.body) {
            Err(e) if e.contains("output too large") => return Verdict::Ok(false),
            Err(e) => return fail("html", format!("{e}\n  source: {src:?}")),
            Ok(x) => x,
        };
        if let Some(f) = backlinks(&html, &r, &src) {
            return f;
        }
        if plain_foot {
            // What a browser gets, and the backlinks.
            let shown: Vec<(String, String, bool)> = el
                .all()
                .iter()
                .filter(|e| e.name == "a" && e.has_class("wj-link"))
                .map(|e| (e.attr("href").unwrap_or("").to_string(), e.text(), e.attr("target") == Some("_blank")))
                .collect();
            let exp: Vec<(String, String, bool)> = all
                .iter()
                .filter_map(|w| Some((w.href.clone()?, w.text.clone(), w.link.as_ref()?["target"] == "new-tab")))
                .collect();
            if shown != exp {
                let at = shown.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(shown.len().min(exp.len()));
                return fail("address", format!("link {at}: {:?} instead of {:?}\n  source: {src:?}", shown.get(at), exp.get(at)));
            }
            let (mut int, mut ext) = (vec![], vec![]);
            for w in all.iter().filter_map(|w| w.link.as_ref()) {
                match w["link"].as_str() {
                    Some(u) if u == "javascript:;" || u.starts_with('#') => {}
                    Some(u) if is_url(u) => ext.push(u.to_string()),
                    Some(u) => match u.strip_prefix('/') {
                        // Which leads nowhere.
                        Some(p) if is_url(p) => ext.push(p.to_string()),
                        Some(p) => int.push((None, first_part(p).to_string())),
                        None => int.push((None, u.to_string())),
                    },
                    None => int.push((w["link"]["site"].as_str().map(String::from), w["link"]["page"].as_str().unwrap_or("").to_string())),
                }
            }
            let b = &html.backlinks;
            let gi: Vec<(Option<String>, String)> = b.internal_links.iter().map(|p| (p.site().map(String::from), p.page().to_string())).collect();
            let ge: Vec<String> = b.external_links.iter().map(|p| p.to_string()).collect();
            if gi != int || ge != ext {
                return fail("backlinks", format!("{gi:?} {ge:?}\n  instead of {int:?} {ext:?}\n  source: {src:?}"));
            }
            stats.hit("backlinks checked exactly");
        }
        for w in &all {
            match &w.link {
                Some(l) => stats.hit(&format!("{} links", l["type"].as_str().unwrap_or(""))),
                None => stats.hit("no links"),
            }
        }
        Verdict::Ok(!exp.is_empty())
    }

    /// The functions behind links and includes.
    fn api(&self, s: &str, stats: &mut Stats) -> Verdict {
        let want = page_ref(s);
        let got = PageRef::parse(s).ok();
        let fields = got.as_ref().map(|p| (p.site().map(String::from), p.page().to_string()));
        if fields != want {
            return fail("page reference", format!("{fields:?} instead of {want:?} for {s:?}"));
        }
        if let Some(p) = &got {
            let printed = p.to_string();
            let again = PageRef::parse(&printed).ok();
            if again.as_ref() != Some(p) {
                return fail("page reference", format!("{p:?} is printed {printed:?}, which is {again:?}"));
            }
            let or = (want.as_ref().and_then(|w| w.0.clone()).unwrap_or("here".into()), want.as_ref().map_or(String::new(), |w| w.1.clone()));
            let (a, b) = p.fields_or("here");
            if (a.to_string(), b.to_string()) != or {
                return fail("page reference", format!("{:?} instead of {or:?} for {s:?}", p.fields_or("here")));
            }
        }
        let (l, e, page) = location(s);
        let got = LinkLocation::parse(Cow::Borrowed(s));
        let j = serde_json::to_value(&got).unwrap_or_default();
        let x = LinkLocation::parse_extra(Cow::Borrowed(s));
        if j != l || x.as_deref() != e.as_str() || page != matches!(got, LinkLocation::Page(_)) {
            return fail("location", format!("{j} with {x:?} instead of {l} with {e} for {s:?}"));
        }
        if got.to_owned() != got || serde_json::from_value::<LinkLocation>(j.clone()).ok().as_ref() != Some(&got) {
            return fail("location", format!("{got:?} isn't kept by copying or serializing"));
        }
        let w = interwiki().build(s);
        if w != wiki(s) {
            return fail("interwiki", format!("{w:?} instead of {:?} for {s:?}", wiki(s)));
        }
        stats.hit(if page { "page references" } else { "other references" });
        Verdict::Ok(true)
    }
}

fn backlinks(html: &ftml::render::html::HtmlOutput, r: &refhtml::Ref, src: &str) -> Option<Verdict> {
    let b = &html.backlinks;
    let gi: Vec<(Option<String>, String)> = b.internal_links.iter().map(|p| (p.site().map(String::from), p.page().to_string())).collect();
    let ge: Vec<String> = b.external_links.iter().map(|p| p.to_string()).collect();
    if gi != r.internal {
        let at = gi.iter().zip(&r.internal).position(|(a, b)| a != b).unwrap_or(gi.len().min(r.internal.len()));
        return Some(fail("backlinks", format!("internal {at}: {:?} instead of {:?} ({} of {})\n  source: {src:?}", gi.get(at), r.internal.get(at), gi.len(), r.internal.len())));
    }
    if ge != r.external {
        return Some(fail("backlinks", format!("external: {ge:?} instead of {:?}\n  source: {src:?}", r.external)));
    }
    None
}

impl Prop for P23 {
    fn id(&self) -> &'static str {
        "P23"
    }
    fn rule(&self) -> &'static str {
        "random links (targets with categories, sites, paths, anchors, schemes, interwiki prefixes; labels; stars) in 25 contexts, random references, and hostile documents; oracle: the links in the tree and in the HTML (address, label, tab) are the written ones in order, backlinks are theirs, functions behind them agree with a reference; non-trivial: at least one link"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 90_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![json!({"blocks": [{"c": 0, "l": [{"k": "triple", "t": "US$", "dollar": true}]}]})];
        for t in NAMES.iter().chain(URLS) {
            for k in ["single", "anchor", "url", "triple"] {
                for c in [0, 5, 9, 20] {
                    out.push(json!({"blocks": [{"c": c, "l": [{"k": k, "t": t, "l": "x y"}]}]}));
                    out.push(json!({"blocks": [{"c": c, "l": [{"k": k, "t": format!("/{t}"), "l": "x y", "star": true}]}]}));
                }
            }
            out.push(json!({"api": t}));
            for x in EXTRAS {
                let u = format!("{t}{x}");
                out.push(json!({"blocks": [{"c": 0, "l": [{"k": "triple", "t": u}]}]}));
                out.push(json!({"api": u}));
                let u = format!("!wp:{t}{x}");
                out.push(json!({"blocks": [{"c": 0, "l": [{"k": "triple", "t": u}]}]}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        match r.below(8) {
            0 => {
                let mut s = target(r);
                if r.chance(1, 3) {
                    s = s.trim_start_matches('!').to_string();
                }
                if r.chance(1, 3) {
                    let n = r.below(s.chars().count() + 1);
                    let at = s.char_indices().nth(n).map_or(s.len(), |x| x.0);
                    s.insert_str(at, &r.s(&[":", " ", "/", "#", "::", "\t", "\u{a0}", "$$", "!", "http://"]));
                }
                json!({"api": s})
            }
            1 => {
                let s = match r.below(3) {
                    0 => hostile(r, t),
                    1 => soup::mutant(r),
                    _ => model::random_source(r),
                };
                json!({"doc": s, "env": Env::random(r)})
            }
            _ => {
                let n = r.range(1, 4);
                let mut blocks = vec![];
                for _ in 0..n {
                    let c = r.below(CTX.len());
                    let m = if r.chance(1, 200) { crate::gen::big::few(r) } else { r.range(1, 3) };
                    let l: Vec<Value> = (0..m).map(|_| spec(r)).collect();
                    blocks.push(json!({"c": c, "l": l}));
                }
                json!({"blocks": blocks, "site": r.s(&["sandbox", "x"])})
            }
        }
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if let Some(s) = v["api"].as_str() {
            return self.api(s, stats);
        }
        if let Some(s) = v["doc"].as_str() {
            let Ok(env) = serde_json::from_value::<Env>(v["env"].clone()) else { return Verdict::Skip };
            let src = pipe::preprocess(s);
            if soup::risky(&src) {
                return Verdict::Skip;
            }
            let (tree, _) = pipe::tree_of(&src, &env);
            let j = pipe::json_of(&tree);
            let html = pipe::html_of(&tree, &env);
            let mut r = refhtml::Ref::new(&env, &j);
            if r.body().is_err() {
                return Verdict::Skip;
            }
            if let Some(f) = backlinks(&html, &r, &src) {
                return f;
            }
            let n = r.internal.len() + r.external.len();
            stats.add("backlinks of documents", n as u64);
            return Verdict::Ok(n > 0);
        }
        self.model(v, stats)
    }
}
