//! P31: metadata of pages, layouts and modes.

use super::basic::{get_env, hostile};
use super::render::{with_env, NASTY};
use crate::gen::{model, soup};
use crate::html;
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use ftml::layout::Layout;
use ftml::render::html::{HtmlMeta, HtmlMetaType};
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P31]
}

struct P31;

fn name(r: &mut Rng) -> String {
    let n = r.range(0, 3);
    (0..n)
        .map(|_| match r.below(4) {
            0 => r.pick(&["SCP-001", " - ", ",", "a b", "%%title%%", "-", "\n", "é😀"]).to_string(),
            1 => r.pick(NASTY).to_string(),
            2 => soup::chars(r, 6),
            _ => r.pick(&["x", "page", "keter"]).to_string(),
        })
        .collect()
}

fn tag(m: &HtmlMeta) -> Result<(String, String), String> {
    let mut s = String::new();
    m.render(&mut s);
    let inner = s.strip_suffix(" />").ok_or(format!("{s:?} isn't a closed tag"))?;
    let nodes = html::parse(&format!("{inner}>")).map_err(|e| format!("{e} in {s:?}"))?;
    let [html::Node::El(e)] = &nodes[..] else {
        return Err(format!("{s:?} isn't one element"));
    };
    if e.name != "meta" || e.attrs.len() != 2 || e.attrs[1].0 != "content" {
        return Err(format!("{s:?} isn't a meta element"));
    }
    let key = match m.tag_type {
        HtmlMetaType::Name => "name",
        HtmlMetaType::HttpEquiv => "http-equiv",
        HtmlMetaType::Property => "property",
    };
    let clean = |s: &str| s.replace('\0', " ");
    if e.attr(key) != Some(clean(&m.name).as_str()) || e.attr("content") != Some(clean(&m.value).as_str()) {
        return Err(format!("{s:?} doesn't say {:?} is {:?}", m.name, m.value));
    }
    Ok((e.attrs[0].0.clone(), m.name.clone()))
}

impl Prop for P31 {
    fn id(&self) -> &'static str {
        "P31"
    }
    fn rule(&self) -> &'static str {
        "documents with page infos of hostile titles and tags in both layouts: the list of metadata, its HTML, and equality of tokens, trees, errors, texts and bodies across layouts; names of layouts; non-trivial: all"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 25_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v = vec![];
        for s in NASTY {
            let env = Env { title: s.to_string(), alt: Some(s.to_string()), tags: vec![s.to_string(), "b".into()], ..Env::default() };
            v.push(with_env("x".into(), env));
            v.push(with_env("x".into(), Env { title: s.to_string(), tags: vec![], ..Env::default() }));
        }
        for s in ["wikidot", "wikijump", "", "wikidotx", " wikidot", "wiki", "WikiDot", "WIKIJUMP", "wikidot\0", "wıkidot", "wi\u{212a}idot", "null", "0"] {
            v.push(json!({"src": "", "name": s}));
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let src = match r.below(3) {
            0 => hostile(r, tier),
            1 => model::random_source(r),
            _ => "+ a\n\nb [[footnote]]c[[/footnote]]".into(),
        };
        let src = if soup::risky(&src) { "x".to_string() } else { src };
        let mut env = Env::random(r);
        env.title = if r.chance(1, 60) { crate::gen::big::long(r) } else { name(r) };
        env.alt = if r.coin() { Some(name(r)) } else { None };
        let n = if r.chance(1, 60) { crate::gen::big::few(r) } else { r.below(4) };
        env.tags = (0..n).map(|_| name(r)).collect();
        let mut v = with_env(src, env);
        if r.chance(1, 2) {
            let base = r.pick(&["wikidot", "wikijump"]);
            let mut s: String = base.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect();
            if r.chance(1, 3) {
                let at = r.below(s.len());
                s.replace_range(at..at + 1, r.pick(&["", "x", " ", "kk", "I"]));
            }
            v["name"] = json!(s);
        }
        let (a, b) = (name(r), name(r));
        v["meta"] = json!([a, b]);
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(mut env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        if let Some(n) = v["name"].as_str() {
            let lower = n.to_ascii_lowercase();
            let got = n.parse::<Layout>().ok();
            let want = match lower.as_str() {
                "wikidot" => Some(Layout::Wikidot),
                "wikijump" => Some(Layout::Wikijump),
                _ => None,
            };
            if got != want {
                return fail("layout-name", format!("{n:?} was read as {got:?}"));
            }
            if let Some(l) = got {
                stats.hit("layout names");
                if l.value() != lower || json!(l) != json!(lower) || l.legacy() != (lower == "wikidot") {
                    return fail("layout-name", format!("{l:?} is called {:?}, {}, legacy {}", l.value(), json!(l), l.legacy()));
                }
            }
        }
        env.layout = "wikijump".into();
        let new = pipe::run(src, &env);
        env.layout = "wikidot".into();
        let old = pipe::run(src, &env);
        env.layout = "wikijump".into();
        // Only HTML may depend on the layout.
        if new.tokens != old.tokens || new.json != old.json || new.text != old.text || format!("{:?}", new.errors) != format!("{:?}", old.errors) {
            return fail("layout", format!("tokens, tree, text or errors depend on the layout\n  source: {src:?}"));
        }
        for (run, description) in [(&new, "Wikijump"), (&old, "Wikidot (legacy)")] {
            let mut text = env.title.clone();
            if let Some(a) = &env.alt {
                text.push_str(" - ");
                text.push_str(a);
            }
            let want = [
                ("http-equiv", "Content-Type", "text/html".to_string()),
                ("name", "generator", format!("{} {description}", *ftml::info::VERSION)),
                ("name", "description", text),
                ("name", "keywords", env.tags.join(",")),
            ];
            if run.html.meta.len() != want.len() {
                return fail("meta", format!("{} entries of metadata: {:?}", run.html.meta.len(), run.html.meta));
            }
            for (m, (kind, name, value)) in run.html.meta.iter().zip(&want) {
                let (k, n) = match tag(m) {
                    Ok(x) => x,
                    Err(e) => return fail("meta-html", e),
                };
                if k != *kind || n != *name || m.value != *value {
                    return fail("meta", format!("{m:?} instead of {kind} {name} {value:?}"));
                }
                stats.hit("metadata entries");
            }
            let again: Result<Vec<HtmlMeta>, _> = serde_json::from_value(json!(run.html.meta));
            match again {
                Ok(l) if json!(l) == json!(run.html.meta) => {}
                _ => return fail("meta-json", format!("{:?} changes as JSON", run.html.meta)),
            }
        }
        if !ftml::info::VERSION.starts_with(&format!("{} v{}", ftml::info::PKG_NAME, ftml::info::PKG_VERSION)) {
            return fail("version", ftml::info::VERSION.clone());
        }
        // Entries of others.
        if let (Some(a), Some(b)) = (v["meta"][0].as_str(), v["meta"][1].as_str()) {
            for tag_type in [HtmlMetaType::Name, HtmlMetaType::HttpEquiv, HtmlMetaType::Property] {
                if let Err(e) = tag(&HtmlMeta { tag_type, name: a.into(), value: b.into() }) {
                    return fail("meta-html", e);
                }
            }
        }
        Verdict::Ok(true)
    }
}
