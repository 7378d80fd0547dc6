//! Properties of the HTML decided on hostile input: P12 P13.

use super::basic::{envs, get_env, hostile, REGRESSIONS};
use crate::gen::soup::{self, Cfg};
use crate::html::{self, El, Node};
use crate::pipe::{self, Env};
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P12, &P13]
}

pub fn with_env(src: String, env: Env) -> Value {
    if env == Env::default() {
        json!({ "src": src })
    } else {
        json!({"src": src, "env": serde_json::to_value(&env).unwrap()})
    }
}

/// Strings that matter to whoever reads the HTML.
pub(crate) const NASTY: &[&str] = &[
    "<", ">", "&", "\"", "'", "</div>", "<b>", "&lt;", "&amp;lt;", "&#60;", "\" onload=\"k", "' x='", "-->", "<!--",
    "]]>", "</style>", "</STYLE >", "<script>k()</script>", "<img src=x onerror=k>", "\u{0}", "\u{7f}", "\t", "é", "\u{202e}",
    "javascript:k()", "JaVaScRiPt:k()", " javascript:k()", "java\tscript:k()", "\u{1}javascript:k()", "data:text/html,k",
    "vbscript:k", "javascript&colon;k", "javascript:;", "javascript:;k", "javascript:;/k/.test(k())", "javascript:;#k", "//evil.example", "/javascript:k", "#javascript:k",
    "jav\u{0}ascript:k", "ｊavascript:k", "http://a\" onclick=\"k", "https://a.b/<x>", "a=b", "a b", "`", "=", "\\", "\\\"", "{$x}",
    "javascript\u{a0}:k", "_javascript:k", "-data:k", "../x", "?q=<k>", "mailto:\"<k>\"@x", "x:y", "wp:k",
];

fn nasty(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        if r.chance(2, 3) {
            s.push_str(r.pick(NASTY));
        } else {
            s.push_str(r.pick(&["k", "a b", "é", "x-1", "0"]));
        }
    }
    s
}

const KEYS: &[&str] = &[
    "class", "id", "style", "href", "src", "title", "onclick", "onload", "ONERROR", "data-k", "data-", "aria-label", "aria-",
    "data-k\u{e9}", "data-x=y", "srcdoc", "action", "formaction", "target", "rel", "name", "type", "value", "alt", "link",
    "width", "is", "xmlns", "http-equiv", "hidden", "checked", "open", "colspan", "background", "poster", "srcset", "style",
    "Data-K", "ARIA-x", "xlink:href", "on-k", "slot", "part", "aria-on_k", "data-on", "k", "autofocus", "nonce", "integrity",
    "dir", "lang", "role", "tabindex", "download", "autoplay", "sandbox", "allow",
];

fn nasty_args(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) {
        let v = nasty(r);
        let v = if r.chance(4, 5) { v.replace('\\', "\\\\").replace('"', "\\\"") } else { v };
        s.push_str(&format!(" {}=\"{}\"", r.pick(KEYS), v));
    }
    s
}

/// Every place where text of the source ends up in an attribute or text of the HTML.
pub fn injections(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let n = nasty(r);
        let l = nasty(r);
        let a = nasty_args(r);
        let p = match r.below(50) {
            0 => format!("[[[{n}|{l}]]]"),
            1 => format!("[[[{n}]]]"),
            2 => format!("[{n} {l}]"),
            3 => format!("[*{n} {l}]"),
            4 => format!("[#{n} {l}]"),
            5 => format!("[[# {n}]]"),
            6 => format!("[[a href=\"{n}\"{a}]]{l}[[/a]]"),
            7 => format!("[[div{a}]]\n{n}\n[[/div]]"),
            8 => format!("[[span{a}]]{n}[[/span]]"),
            9 => format!("[[image {n}{a}]]"),
            10 => format!("[[image k.png link=\"{n}\"{a}]]"),
            11 => format!("[[iframe {n}{a}]]"),
            12 => format!("[[iframe https://a.b/{n}{a}]]"),
            13 => format!("[[code type=\"{n}\" name=\"{l}\"]]\n{l}\n[[/code]]"),
            14 => format!("[[math {n}]]\nx {l} y\n[[/math]]"),
            15 => format!("[[module css]]\n.k::before {{ content: \"{n}\"; background: url({l}) }}\n{l}\n[[/module]]"),
            16 => format!("[[module css]]\n{n}\n[[/module]]"),
            17 => format!("@@{n}@@ @<{l}>@"),
            18 => format!("##{n}|{l}##"),
            19 => format!("[[size {n}]]{l}[[/size]]"),
            20 => format!("[[user {n}]] [[*user {l}]]"),
            21 => format!("[[tabview]]\n[[tab {n}]]\n{l}\n[[/tab]]\n[[/tabview]]"),
            22 => format!("[[collapsible show=\"{n}\" hide=\"{l}\"{a}]]\nk\n[[/collapsible]]"),
            23 => format!("[[date 1600000000 format=\"{n}\"]]"),
            24 => format!("[[embed youtube video=\"{n}\"]] [[embed vimeo video=\"{l}\"]]"),
            25 => format!("[[embed github-gist username=\"{n}\" hash=\"{l}\"]]"),
            26 => format!("[[embed gitlab-snippet snippet-id=\"{n}\"]]"),
            27 => format!("[[radio {n}{a}]] x"),
            28 => format!("[[checkbox{a}]] x"),
            29 => format!("[[eref {n}]]"),
            30 => format!("((bibcite {n}))\n\n[[bibliography title=\"{l}\"]]\n: {n} : {l}\n[[/bibliography]]"),
            31 => format!("a[[footnote]]{n}[[/footnote]]\n\n[[footnoteblock title=\"{l}\"]]"),
            32 => format!("+ {n}\n\n[[toc]]\n\n++ {l}"),
            33 => format!("[[table{a}]]\n[[row{a}]]\n[[cell{a}]]{n}[[/cell]]\n[[/row]]\n[[/table]]"),
            34 => format!("[[ul{a}]]\n[[li{a}]]{n}[[/li]]\n[[/ul]]"),
            35 => format!("|| {n} || {l} ||"),
            36 => format!(": {n} : {l}"),
            37 => format!("[[ruby{a}]]{n}[[rt{a}]]{l}[[/rt]][[/ruby]] [[rb {n}|{l}]]"),
            38 => format!("[[module {n}]] [[module Backlinks page=\"{l}\"]] [[module Join button=\"{l}\"{a}]]"),
            39 => format!("[[html]]\n{n}\n[[/html]]"),
            40 => format!("[[$ {n} $]]"),
            41 => format!("[[[!{n}|{l}]]] [!{n} {l}]"),
            42 => format!("[[include-elements {n}]]"),
            43 => format!("https://a.b/{n} {n}@example.com {{${n}}}"),
            44 => format!("[[toc{a}]]\n\n+ {l}"),
            45 => format!("[[p{a}]]{n}[[/p]] [[blockquote{a}]]{l}[[/blockquote]]"),
            46 => format!("[[b{a}]]{n}[[/b]] [[mark{a}]]{l}[[/mark]] [[ins{a}]]k[[/ins]]"),
            47 => format!("[[={a}]]\n{n}\n[[/=]]"),
            48 => format!("{n} {l}"),
            _ => format!("[[char {n}]] [[target {n}]] [[xyz {n}]]"),
        };
        s.push_str(&p);
        s.push_str(r.pick(&["\n\n", "\n", " "]));
    }
    if r.chance(1, 4) {
        s = format!("{}\n\n{s}", soup::soup(r, &Cfg { size: 3, budget: 3, ..Cfg::default() }));
    }
    s
}

pub fn gen_html(r: &mut Rng, tier: Tier) -> Value {
    let src = if r.coin() { injections(r) } else { hostile(r, tier) };
    let src = if soup::risky(&src) { injections(r) } else { src };
    let src = if r.coin() { pipe::preprocess(&src) } else { src };
    with_env(src, envs(r))
}

pub fn html_fixed() -> Vec<Value> {
    let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
    v.extend(crate::gen::corpus().iter().map(|s| json!({ "src": s })));
    // Every character that needs care in every place.
    let mut r = Rng::new(7);
    for k in 0..1500 {
        let _ = k;
        v.push(json!({"src": injections(&mut r)}));
    }
    v
}

// P12

struct P12;

impl Prop for P12 {
    fn id(&self) -> &'static str {
        "P12"
    }
    fn rule(&self) -> &'static str {
        "hostile text and every text- or attribute-carrying construct filled with HTML metacharacters; the body is parsed by a strict parser (balanced, quoted, escaped, no duplicate attributes) and its DOM compared with the DOM an independent renderer builds from the serialized tree; a quarter of the trees are first varied through JSON to what no wikitext denotes; non-trivial: at least one escaped character or element besides the root"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        html_fixed()
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let mut v = gen_html(r, tier);
        if r.chance(1, 4) {
            v["vary"] = json!(r.next() >> 32);
        }
        v
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the MathML the latex2mathml dependency makes, and the style sheets parcel_css prints, are opaque here (P13 looks at both)"]
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        let (tree, _) = pipe::tree_of(src, &env);
        let tree = match super::tree::varied(tree, v) {
            Ok(t) => t,
            Err(e) => return fail("vary", e),
        };
        let out = pipe::html_of(&tree, &env);
        let json = pipe::json_of(&tree);
        if v["mathml"] == true {
            // Strict within MathML as well (only used to show a recorded finding).
            if let Err(e) = html::parse(&out.body.replace("<math ", "<maths ").replace("</math>", "</maths>")) {
                return fail("mathml", e);
            }
        }
        match refhtml::compare(&json, &env, &out.body) {
            Err(e) if e.contains("output too large") => Verdict::Skip,
            Err(e) => fail(if e.starts_with("HTML differs") { "html-differs" } else { "html-malformed" }, format!("{e}\n  source: {src:?}")),
            Ok(dom) => {
                let all = dom.all();
                stats.add("html elements", all.len() as u64);
                stats.add("html attributes", all.iter().map(|e| e.attrs.len() as u64).sum());
                stats.add("escaped characters", out.body.matches('&').count() as u64);
                for e in &all {
                    stats.hit(&format!("<{}>", e.name));
                }
                Verdict::Ok(all.len() > 1 || out.body.contains('&'))
            }
        }
    }
}

// P13

struct P13;

const ELEMENTS: &[&str] = &[
    "wj-body", "strong", "em", "u", "sup", "sub", "s", "code", "span", "div", "mark", "blockquote", "ins", "del", "ruby", "rt",
    "rp", "p", "h1", "h2", "h3", "h4", "h5", "h6", "a", "img", "iframe", "table", "tbody", "tr", "td", "th", "ul", "ol", "li",
    "dl", "dt", "dd", "input", "details", "summary", "br", "hr", "pre", "svg", "use", "style", "math", "script", "wj-tabs",
    "wj-tabs-button", "wj-collapsible-button-bottom", "wj-footnote-ref-marker", "wj-footnote-list-item-marker",
    "wj-bibliography-ref-marker", "wj-bibliography-item-marker", "wj-code", "wj-code-copy", "wj-math-ml",
    "wj-equation-ref-marker",
];

const SAFE: &[&str] = &[
    "accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked", "cite",
    "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime", "decoding", "default", "dir", "dirname",
    "disabled", "download", "draggable", "for", "form", "headers", "height", "hidden", "high", "href", "hreflang", "id",
    "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength", "min", "minlength",
    "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster", "preload", "readonly", "required", "reversed",
    "role", "rows", "rowspan", "scope", "selected", "shape", "size", "sizes", "span", "spellcheck", "src", "srclang", "srcset",
    "start", "step", "style", "tabindex", "target", "title", "translate", "type", "usemap", "value", "width", "wrap",
];

/// Attributes only the renderer gives, on these elements.
fn own_attr(e: &El, k: &str, v: &str) -> bool {
    match (e.name.as_str(), k) {
        ("details", "open") => true,
        ("svg", "viewBox") => true,
        ("iframe" | "img", "crossorigin") => v.is_empty(),
        ("iframe", "frameborder") => v == "0",
        ("iframe", "allowfullscreen") => v.is_empty(),
        ("iframe", "allow") => {
            v == "autoplay; fullscreen; picture-inpicture"
                || v == "accelerometer; autoplay; clipboard-write; encrypted-media; gyroscope; picture-in-picture"
        }
        ("a", "onclick") => v == "WIKIJUMP.page.listeners.foldToc(event)",
        ("math", "xmlns") => v == "http://www.w3.org/1998/Math/MathML",
        ("math", "display") => true,
        _ => false,
    }
}

/// An address as a browser reads it.
fn scheme_of(v: &str) -> Option<String> {
    let v: String = v.chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    let v = v.trim_start_matches(|c: char| c <= ' ');
    let (s, _) = v.split_once(':')?;
    let ok = s.starts_with(|c: char| c.is_ascii_alphabetic())
        && s.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'));
    ok.then(|| s.to_ascii_lowercase())
}

const MATHML: &[&str] = &[
    "mi", "mo", "mn", "ms", "mtext", "mspace", "mrow", "mfrac", "msqrt", "mroot", "msub", "msup", "msubsup", "munder", "mover",
    "munderover", "mtable", "mtr", "mtd", "mstyle", "mpadded", "mphantom", "mfenced", "menclose", "merror", "semantics",
    "annotation",
    // Emitted by the dependency in place of mo.
    "mro",
];
const MATH_ATTRS: &[&str] = &[
    "mathvariant", "accent", "stretchy", "form", "maxsize", "minsize", "width", "columnalign", "linethickness", "displaystyle",
    "lspace", "rspace", "scriptlevel", "fence", "separator", "mathsize", "movablelimits", "largeop", "symmetric", "rowspacing",
    "columnspacing", "accentunder",
];

fn check_math(raw: &str) -> Result<(), String> {
    let mut rest = raw;
    while let Some(p) = rest.find('<') {
        rest = &rest[p + 1..];
        // A browser takes only these for the start of a tag (or comment).
        let first = rest.chars().next().unwrap_or(' ');
        if !(first.is_ascii_alphabetic() || matches!(first, '/' | '!' | '?')) {
            continue;
        }
        let end = rest.find('>').ok_or("unterminated MathML tag")?;
        let tag = &rest[..end];
        let name: String = tag.trim_start_matches('/').chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        if !MATHML.contains(&name.as_str()) {
            return Err(format!("<{tag}> in MathML"));
        }
        let mut attrs = tag.trim_start_matches('/')[name.len()..].trim().trim_end_matches('/').trim();
        while !attrs.is_empty() {
            let (k, r) = attrs.split_once("=\"").ok_or_else(|| format!("<{tag}> in MathML"))?;
            let (_, r) = r.split_once('"').ok_or_else(|| format!("<{tag}> in MathML"))?;
            if !MATH_ATTRS.contains(&k) {
                return Err(format!("attribute {k} in MathML"));
            }
            attrs = r.trim_start();
        }
        rest = &rest[end + 1..];
    }
    Ok(())
}

fn safe(e: &El, stats: &mut Stats) -> Result<(), String> {
    if !ELEMENTS.contains(&e.name.as_str()) {
        return Err(format!("element <{}>", e.name));
    }
    if e.name == "script" {
        let src = e.attr("src").unwrap_or("");
        let fixed = src.starts_with("https://gist.github.com/") || src.starts_with("https://gitlab.com/-/snippets/");
        if !fixed || e.attrs.len() != 1 || !e.kids.is_empty() || !src.ends_with(".js") {
            return Err(format!("script {}", e.show()));
        }
        stats.hit("scripts of embeds");
    }
    for (k, v) in &e.attrs {
        let v = v.as_deref().unwrap_or("");
        let lower = k.to_ascii_lowercase();
        let extra = lower.strip_prefix("data-").or_else(|| lower.strip_prefix("aria-"));
        let known = SAFE.contains(&lower.as_str())
            || extra.is_some_and(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'))
            || own_attr(e, k, v);
        if !known {
            return Err(format!("attribute {k:?} in {}", head(e)));
        }
        if matches!(lower.as_str(), "href" | "src") {
            stats.hit("addresses");
            let fixed = v == "javascript:;"
                || (e.name == "img" && e.class() == "wj-user-info-avatar" && v.starts_with("data:image/png;base64,"));
            if !fixed {
                if let Some(s) = scheme_of(v) {
                    if matches!(s.as_str(), "javascript" | "data" | "vbscript") {
                        return Err(format!("address {v:?} in {}", head(e)));
                    }
                }
            }
            stats.add("literal javascript:; addresses", (v == "javascript:;") as u64);
        }
        stats.hit("attributes");
    }
    if let Some(raw) = &e.raw {
        if e.name == "math" {
            check_math(raw)?;
            stats.hit("math elements");
        } else {
            // The strict parser already saw to it that nothing in here ends the element.
            stats.hit("style elements");
        }
    }
    for k in &e.kids {
        if let Node::El(k) = k {
            safe(k, stats)?;
        }
    }
    Ok(())
}

fn head(e: &El) -> String {
    let s = El { kids: vec![], raw: None, ..e.clone() }.show();
    s.chars().take(200).collect()
}

impl Prop for P13 {
    fn id(&self) -> &'static str {
        "P13"
    }
    fn rule(&self) -> &'static str {
        "every construct with arguments, targets or bodies filled with injection attempts (tags, quotes, handlers, schemes in odd spellings, style terminators), and hostile text; the resulting DOM is checked against fixed lists of elements, attributes and address schemes; non-trivial: the DOM has an attribute from the source or an address"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v = html_fixed();
        // Every key in every construct which passes attributes on, and every scheme spelling.
        for k in KEYS {
            for (a, b) in [("[[div %]]", "x[[/div]]"), ("[[span %]]", "x[[/span]]"), ("[[a %]]", "x[[/a]]"), ("[[image k.png %]]", ""), ("[[iframe https://a.b/ %]]", ""), ("[[ul %]]", "[[li]]x[[/li]][[/ul]]"), ("[[table %]]", "[[row]][[cell]]x[[/cell]][[/row]][[/table]]"), ("[[collapsible %]]", "x[[/collapsible]]"), ("[[checkbox %]]", ""), ("[[radio k %]]", ""), ("[[toc %]]", ""), ("[[ruby %]]", "[[rt %]]x[[/rt]][[/ruby]]"), ("[[= %]]", "x[[/=]]"), ("[[p %]]", "x[[/p]]"), ("[[b %]]", "x[[/b]]"), ("[[size 1em %]]", "x[[/size]]")] {
                for val in ["k", "javascript:k()", "data:k"] {
                    v.push(json!({"src": format!("{}{b}", a).replace('%', &format!("{k}=\"{val}\""))}));
                }
            }
        }
        for n in NASTY {
            for p in ["[[[%|x]]]", "[[[*%|x]]]", "[% x]", "[*% x]", "[[a href=\"%\"]]x[[/a]]", "[[a src=\"%\"]]x[[/a]]", "[[image %]]", "[[image k link=\"%\"]]", "[[iframe %]]", "[[image k src=\"%\"]]", "[[iframe https://a/ src=\"%\"]]", "[[[!%|x]]]", "[!% x]", "[#% x]", "[[user %]]", "[[module css]]\na::b { content: \"%\" }\n[[/module]]", "[[module css]]\na { background: url(\"%\") }\n[[/module]]", "[[module css]]\n@import \"%\";\n[[/module]]", "[[module css]]\n/* % */ a { b: % }\n[[/module]]"] {
                v.push(json!({"src": p.replace('%', n)}));
                v.push(json!({"src": p.replace('%', n), "env": {"minify": true}}));
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        gen_html(r, tier)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the style attribute and the contents of user style sheets are meant to be the user's; only leaving the style element is looked for", "the address javascript:; (which does nothing) is a documented constant"]
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        let (tree, _) = pipe::tree_of(src, &env);
        let out = pipe::html_of(&tree, &env);
        let dom = match html::parse_body(&out.body) {
            Ok(d) => d,
            Err(e) => return fail("malformed", format!("{e}\n  source: {src:?}\n  html: {}", out.body)),
        };
        match safe(&dom, stats) {
            Err(e) => fail("active", format!("{e}\n  source: {src:?}")),
            Ok(()) => Verdict::Ok(dom.all().iter().any(|e| e.name != "wj-body" && !e.attrs.is_empty())),
        }
    }
}
