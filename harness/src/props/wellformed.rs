//! Well-formed documents made from models: P22 (the tree they denote) and P26 (spellings).

use crate::gen::model::{self, merged, ModelGen, Options};
use crate::pipe::{self, Env};
use crate::refhtml;
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P22, &P26]
}

/// The first place where two values differ.
pub fn diff(path: &str, a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(&format!("{path}/{i}"), p, q) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                let n = x.len().min(y.len());
                let f = |v: &Vec<Value>| v.get(n).map(|v| short(&v.to_string())).unwrap_or("nothing".into());
                return Some(format!("{path}/{n}: {} instead of {}", f(x), f(y)));
            }
            None
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, p) in x {
                match y.get(k) {
                    None => return Some(format!("{path}/{k}: unexpected {}", short(&p.to_string()))),
                    Some(q) => {
                        if let Some(d) = diff(&format!("{path}/{k}"), p, q) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, q) in y {
                if !x.contains_key(k) {
                    return Some(format!("{path}/{k}: missing, should be {}", short(&q.to_string())));
                }
            }
            None
        }
        _ if a == b => None,
        _ => Some(format!("{path}: {} instead of {}", short(&a.to_string()), short(&b.to_string()))),
    }
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

fn options(v: &Value) -> Options {
    match v["sp"].as_u64() {
        None => Options { vary: false, seed: 0, crlf: false },
        Some(n) => Options { vary: true, seed: n, crlf: v["crlf"] == true },
    }
}

fn random_doc(r: &mut Rng, tier: Tier) -> Value {
    let mut g = ModelGen::new(12 * tier.scale().max(1));
    let doc = g.doc(r);
    if r.chance(1, 4) {
        model::repeat(&doc, r)
    } else {
        doc
    }
}

// P22

struct P22;

impl Prop for P22 {
    fn id(&self) -> &'static str {
        "P22"
    }
    fn rule(&self) -> &'static str {
        "random abstract documents over all documented constructs, spelled as wikitext in random documented spellings; oracle: no errors, and tree, footnotes, code and html blocks and bibliographies equal those the model denotes (adjacent texts joined); the HTML's DOM equals that of the reference renderer; non-trivial: two or more kinds of constructs"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 70_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let doc = random_doc(r, t);
        if r.chance(1, 5) {
            json!({ "doc": doc })
        } else {
            json!({"doc": doc, "sp": r.below(1 << 20), "crlf": r.chance(1, 10)})
        }
    }
    fn fixed(&self) -> Vec<Value> {
        vec![json!({"quoted": "**a**"})]
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if v["quoted"] == "**a**" {
            let (tree, _) = pipe::tree_of("\"**a**\"", &Env::default());
            return match pipe::json_of(&tree).to_string().contains("\"type\":\"bold\"") {
                true => Verdict::Ok(true),
                false => fail("tree", "\"**a**\" is not bold"),
            };
        }
        let o = match model::write(&v["doc"], &options(v)) {
            Ok(o) => o,
            Err(e) => {
                stats.hit(&format!("refused: {e}"));
                return Verdict::Skip;
            }
        };
        let env = Env::default();
        let src = pipe::preprocess(&o.src);
        let (tree, errors) = pipe::tree_of(&src, &env);
        if let Some(e) = errors.first() {
            return fail("error", format!("{e:?}\n  source: {src:?}"));
        }
        let j = pipe::json_of(&tree);
        for (key, want) in [("elements", &o.elements), ("footnotes", &o.footnotes), ("code-blocks", &o.code), ("html-blocks", &o.html), ("bibliographies", &o.bibs)] {
            if let Some(d) = diff(key, &merged(&j[key]), &merged(&json!(want))) {
                return fail("tree", format!("{d}\n  source: {src:?}"));
            }
        }
        for (k, n) in &o.kinds {
            stats.add(&format!("kind {k}"), *n);
        }
        stats.add("words", o.words as u64);
        let html = pipe::html_of(&tree, &env);
        match refhtml::compare(&j, &env, &html.body) {
            Err(e) if e.contains("output too large") => {}
            Err(e) => return fail("html", format!("{e}\n  source: {src:?}")),
            Ok(dom) => stats.add("html elements", dom.all().len() as u64),
        }
        Verdict::Ok(o.kinds.len() > 1)
    }
}

// P26

/// Names of each documented block, a use of it (% is the name), and what its tree then holds.
pub(crate) const NAMES: &[(&[&str], &str, &str)] = &[
    (&["a", "anchor"], "[[% href=\"/k\"]]x[[/%]]", "\"element\":\"anchor\""),
    (&["bibcite"], "[[% x]]", "\"element\":\"bibliography-cite\""),
    (&["bibliography"], "[[%]]\n: a : b\n[[/%]]", "\"element\":\"bibliography-block\""),
    (&["blockquote", "quote"], "[[%]]\nx\n[[/%]]", "\"type\":\"blockquote\""),
    (&["b", "bold", "strong"], "[[%]]x[[/%]]", "\"type\":\"bold\""),
    (&["char", "character"], "[[% copy]]", "\"data\":\"©\""),
    (&["checkbox"], "[[%]] x", "\"element\":\"check-box\""),
    (&["code"], "[[%]]\nx\n[[/%]]", "\"element\":\"code\""),
    (&["collapsible"], "[[%]]\nx\n[[/%]]", "\"element\":\"collapsible\""),
    (&["date"], "[[% 2020-02-29]]", "\"element\":\"date\""),
    (&["del", "deletion"], "[[%]]x[[/%]]", "\"type\":\"deletion\""),
    (&["div"], "[[%]]\nx\n[[/%]]", "\"type\":\"div\""),
    (&["embed"], "[[% youtube video=\"abc\"]]", "\"element\":\"embed\""),
    (&["equation", "eref", "eqref"], "[[% x]]", "\"element\":\"equation-reference\""),
    (&["footnote"], "x[[%]]y[[/%]]", "\"element\":\"footnote\""),
    (&["footnoteblock"], "[[% title=\"zz\"]]", "\"title\":\"zz\""),
    (&["hidden"], "[[%]]x[[/%]]", "\"type\":\"hidden\""),
    (&["html"], "[[%]]\nx\n[[/%]]", "\"element\":\"html\""),
    (&["ifcategory"], "[[% _default]]yes[[/%]]", "\"data\":\"yes\""),
    (&["iftags"], "[[% +tale]]yes[[/%]]", "\"data\":\"yes\""),
    (&["iframe"], "[[% http://x.com/]]", "\"element\":\"iframe\""),
    (&["image", "=image", "<image", ">image", "f<image", "f>image"], "[[% a.png]]", "\"element\":\"image\""),
    (&["include-elements"], "[[% some-page]]\n", "\"element\":\"include\""),
    (&["ins", "insertion"], "[[%]]x[[/%]]", "\"type\":\"insertion\""),
    (&["invisible"], "[[%]]x[[/%]]", "\"type\":\"invisible\""),
    (&["i", "italics", "em", "emphasis"], "[[%]]x[[/%]]", "\"type\":\"italics\""),
    (&["lines", "newlines"], "[[% 3]]", "\"element\":\"line-breaks\""),
    (&["ul"], "[[%]]\n[[li]]x[[/li]]\n[[/%]]", "\"type\":\"bullet\""),
    (&["ol"], "[[%]]\n[[li]]x[[/li]]\n[[/%]]", "\"type\":\"numbered\""),
    (&["li"], "[[ul]]\n[[%]]x[[/%]]\n[[/ul]]", "\"item-type\":\"elements\""),
    (&["mark", "highlight"], "[[%]]x[[/%]]", "\"type\":\"mark\""),
    (&["math"], "[[%]]\nx\n[[/%]]", "\"element\":\"math\""),
    (&["module"], "[[% Rate]]", "\"element\":\"module\""),
    (&["tt", "mono", "monospace"], "[[%]]x[[/%]]", "\"type\":\"monospace\""),
    (&["p", "paragraph"], "[[% class=\"k\"]]\nx\n[[/%]]", "\"class\":\"k\""),
    (&["radio", "radio-button"], "[[% n]] x", "\"element\":\"radio-button\""),
    (&["ruby"], "[[%]]x[[rt]]y[[/rt]][[/%]]", "\"type\":\"ruby\""),
    (&["rt", "rubytext"], "[[ruby]]x[[%]]y[[/%]][[/ruby]]", "\"type\":\"ruby-text\""),
    (&["rb", "ruby2"], "[[% x|y]]", "\"type\":\"ruby-text\""),
    (&["size"], "[[% 2em]]x[[/%]]", "\"type\":\"size\""),
    (&["span"], "[[%]]x[[/%]]", "\"type\":\"span\""),
    (&["s", "strikethrough"], "[[%]]x[[/%]]", "\"type\":\"strikethrough\""),
    (&["sub", "subscript"], "[[%]]x[[/%]]", "\"type\":\"subscript\""),
    (&["sup", "super", "superscript"], "[[%]]x[[/%]]", "\"type\":\"superscript\""),
    (&["table"], "[[%]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/%]]", "\"element\":\"table\""),
    (&["row"], "[[table]]\n[[%]]\n[[cell]]x[[/cell]]\n[[/%]]\n[[/table]]", "\"element\":\"table\""),
    (&["cell"], "[[table]]\n[[row]]\n[[%]]x[[/%]]\n[[/row]]\n[[/table]]", "\"header\":false"),
    (&["hcell"], "[[table]]\n[[row]]\n[[%]]x[[/%]]\n[[/row]]\n[[/table]]", "\"header\":true"),
    (&["tabview", "tabs"], "[[%]]\n[[tab x]]\ny\n[[/tab]]\n[[/%]]", "\"element\":\"tab-view\""),
    (&["tab"], "[[tabview]]\n[[% x]]\ny\n[[/%]]\n[[/tabview]]", "\"label\":\"x\""),
    (&["target", "anchortarget"], "[[% x]]", "\"element\":\"anchor-name\""),
    (&["toc"], "[[%]]", "\"element\":\"table-of-contents\""),
    (&["f<toc", "f>toc"], "[[%]]", "\"element\":\"table-of-contents\""),
    (&["u", "underline"], "[[%]]x[[/%]]", "\"type\":\"underline\""),
    (&["user"], "[[% x]]", "\"element\":\"user\""),
    (&["*user"], "[[% x]]", "\"show-avatar\":true"),
    (&["*checkbox"], "[[%]] x", "\"checked\":true"),
    (&["*radio", "*radio-button"], "[[% n]] x", "\"checked\":true"),
    (&["*a", "*anchor"], "[[% href=\"/k\"]]x[[/a]]", "\"target\":\"new-tab\""),
    (&["=="], "[[%]]\nx\n[[/%]]", "\"align\":\"justify\""),
    (&["="], "[[%]]\nx\n[[/%]]", "\"align\":\"center\""),
    (&["<"], "[[%]]\nx\n[[/%]]", "\"align\":\"left\""),
    (&[">"], "[[%]]\nx\n[[/%]]", "\"align\":\"right\""),
];

/// Blocks whose bodies lose the line breaks at their ends with a score, as before, open, close and after.
const SCORED: &[(&str, &str, &str, &str)] = &[
    ("p ", "[[span", "[[/span]]", " q"),
    ("", "[[a", "[[/a]]", ""),
    ("p ", "[[anchor", "[[/anchor]]", " q"),
    ("[[ul]]\n", "[[li", "[[/li]]", "\n[[/ul]]"),
    ("[[ol]]\n[[li]]p[[/li]]\n", "[[li", "[[/li]]", "\n[[li]]q[[/li]]\n[[/ol]]"),
    ("[[div]]\n[[ul_]]\n", "[[li", "[[/li]]", "\n[[/ul]]\n[[/div]]"),
];

struct P26;

impl P26 {
    /// The star and the score are accepted where documented, and errors elsewhere.
    fn flags(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(i), Some(j), Some(flags)) = (v["i"].as_u64(), v["j"].as_u64(), v["flags"].as_u64()) else { return Verdict::Skip };
        let Some((names, template, marker)) = NAMES.get(i as usize) else { return Verdict::Skip };
        let Some(name) = names.get(j as usize) else { return Verdict::Skip };
        if name.starts_with('*') {
            return Verdict::Skip;
        }
        let (star, score) = (flags & 1 != 0, flags & 2 != 0);
        let open = format!("[[{}%{}", if star { "*" } else { "" }, if score { "_" } else { "" });
        let end = if flags & 4 != 0 { "[[/%_" } else { "[[/%" };
        let src = template.replacen("[[%", &open, 1).replace("[[/%", end).replace('%', name);
        let bad_star = star && !["a", "anchor", "checkbox", "radio", "radio-button", "user"].contains(name);
        let bad_score = score && !["a", "anchor", "bibcite", "div", "ol", "ul", "li", "span"].contains(name);
        let (tree, errors) = pipe::tree_of(&src, &Env::default());
        let text = pipe::json_of(&tree).to_string();
        stats.hit("block flags");
        if !bad_star && !bad_score {
            if !errors.is_empty() || !text.contains(marker) {
                return fail("flags", format!("{src:?} gave no {marker}: {errors:?} {text}"));
            }
            return Verdict::Ok(true);
        }
        let want = if bad_star { "BlockDisallowsStar" } else { "BlockDisallowsScore" };
        if !errors.iter().any(|e| format!("{:?}", e.kind()) == want) {
            return fail("flags", format!("{src:?} gave no {want}: {errors:?}"));
        }
        if text.contains(marker) && !marker.contains("\"data\"") {
            return fail("flags", format!("{src:?} gave {marker}: {text}"));
        }
        Verdict::Ok(true)
    }

    /// Spaces around the name and the value of a block don't matter.
    fn spaces(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(i), Some(n)) = (v["i"].as_u64(), v["spaces"].as_u64()) else { return Verdict::Skip };
        let Some((names, template, _)) = NAMES.get(i as usize) else { return Verdict::Skip };
        let (before, between, after) = (["", " ", "  "][n as usize % 3], [" ", "  "][n as usize / 3 % 2], ["", " ", "  "][n as usize / 6 % 3]);
        let Some(end) = template.find("[[%").and_then(|k| template[k..].find("]]").map(|e| k + e)) else { return Verdict::Skip };
        let start = template.find("[[%").unwrap_or(0);
        // The avatar's user has a star, which needs to be next to the brackets.
        let head = template[start + 3..end].trim_start();
        let gap = if head.is_empty() { "" } else { between };
        let spaced = format!("{}[[{before}%{gap}{head}{after}{}", &template[..start], &template[end..]);
        if names[0].starts_with('*') && !before.is_empty() {
            return Verdict::Skip;
        }
        // The label, the size and the name of these are everything up to the brackets.
        if ["math", "size", "tab"].contains(&names[0]) && !after.is_empty() {
            return Verdict::Skip;
        }
        let get = |s: &str| {
            let mut src = s.replace('%', names[0]);
            if let Some(k) = src.find("[[/") {
                src = format!("{}{}", &src[..k], src[k..].replace("[[/*", "[[/"));
            }
            let (tree, errors) = pipe::tree_of(&src, &Env::default());
            let mut j = pipe::json_of(&tree);
            j["wikitext-len"] = json!(0);
            (j, errors, src)
        };
        let (a, _, _) = get(template);
        let (b, errors, src) = get(&spaced);
        stats.hit("spaced heads");
        match diff("tree", &b, &a) {
            Some(d) => fail("spaces", format!("{src:?} differs from {template:?}: {d}\n  errors: {errors:?}")),
            None => Verdict::Ok(true),
        }
    }

    /// Line breaks at the ends of a body marked with a score are dropped, others kept.
    fn stripped(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(k), Some(body), Some(n)) = (v["strip"].as_u64(), v["body"].as_str(), v["n"].as_u64()) else { return Verdict::Skip };
        let Some((before, open, close, after)) = SCORED.get(k as usize) else { return Verdict::Skip };
        let gaps = ["", "\n", "\n\n", "\n\n\n"];
        let get = |score: &str, a: &str, b: &str| {
            let src = format!("{before}{}{score}]]{a}{body}{b}{close}{after}", open);
            let (tree, errors) = pipe::tree_of(&pipe::preprocess(&src), &Env::default());
            let mut j = merged(&pipe::json_of(&tree));
            j["wikitext-len"] = json!(0);
            (j, errors, src)
        };
        let (plain, e0, src0) = get("_", "", "");
        if !e0.is_empty() {
            return fail("strip", format!("{src0:?} gave {e0:?}"));
        }
        let (j, e, src) = get("_", gaps[n as usize % 4], gaps[n as usize / 4 % 4]);
        stats.hit("stripped bodies");
        if !e.is_empty() {
            return fail("strip", format!("{src:?} gave {e:?}"));
        }
        match diff("tree", &j, &plain) {
            Some(d) => fail("strip", format!("{src:?} differs from {src0:?}: {d}")),
            None => Verdict::Ok(n > 0),
        }
    }

    /// Only a block's own names end it.
    fn ends(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(i), Some(end)) = (v["i"].as_u64(), v["end"].as_str()) else { return Verdict::Skip };
        let Some((names, template, marker)) = NAMES.get(i as usize) else { return Verdict::Skip };
        let name = names[0].trim_start_matches('*');
        if !template.contains("[[/%]]") || names.iter().any(|n| n.trim_start_matches('*').eq_ignore_ascii_case(end)) || end.contains([' ', ']', '[']) {
            return Verdict::Skip;
        }
        let src = template.replace("[[/%]]", &format!("[[/{end}]]")).replace('%', names[0]);
        let (tree, errors) = pipe::tree_of(&src, &Env::default());
        let text = pipe::json_of(&tree).to_string();
        stats.hit("ends of other blocks");
        if errors.is_empty() || (text.contains(marker) && *marker != "\"data\":\"yes\"") {
            return fail("ends", format!("{src:?} is accepted as a whole {name}: {errors:?}\n  tree: {text}"));
        }
        Verdict::Ok(true)
    }

    /// A documented name in some letter case stands for its block, and no other name does.
    fn name(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(i), Some(j), Some(case)) = (v["i"].as_u64(), v["j"].as_u64(), v["case"].as_u64()) else { return Verdict::Skip };
        let Some((names, template, marker)) = NAMES.get(i as usize) else { return Verdict::Skip };
        let Some(name) = names.get(j as usize) else { return Verdict::Skip };
        let spell: String = match case {
            0 => name.to_string(),
            1 => name.to_uppercase(),
            _ => name.chars().enumerate().map(|(k, c)| if k as u64 % 2 == case % 2 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        let env = Env::default();
        let get = |n: &str| {
            let mut src = template.replace('%', n);
            if let Some(k) = src.find("[[/") {
                // The end tag of *a is that of a, and so on.
                src = format!("{}{}", &src[..k], src[k..].replace("[[/*", "[[/"));
            }
            let (tree, errors) = pipe::tree_of(&src, &env);
            (pipe::json_of(&tree), errors, src.clone())
        };
        let (j, errors, src) = get(&spell);
        if let Some(e) = errors.first() {
            return fail("name", format!("{src:?} gave the error {e:?}"));
        }
        let text = j.to_string();
        if !text.contains(marker) {
            return fail("name", format!("{src:?} gave no {marker}: {text}"));
        }
        // An alignment or float is part of an image's name.
        if names[0] != "image" && names[0] != "f<toc" {
            let mut a = get(names[0]).0;
            let mut b = j;
            a["wikitext-len"] = json!(0);
            b["wikitext-len"] = json!(0);
            if let Some(d) = diff("tree", &b, &a) {
                return fail("name", format!("{src:?} differs from the form with {:?}: {d}", names[0]));
            }
        }
        stats.hit("documented names");
        Verdict::Ok(true)
    }
}

impl Prop for P26 {
    fn id(&self) -> &'static str {
        "P26"
    }
    fn rule(&self) -> &'static str {
        "random abstract documents over all documented constructs, each spelled in its canonical and in three randomly chosen equivalent ways (letter case, aliases, argument order and spacing, booleans, CRLF, own lines or inline, symbol or block form); oracle: equal trees after joining adjacent texts; all documented names are also tried alone in several letter cases, with all flags and with spaces around them, with the line breaks a score drops, and ended by other names; non-trivial: two different sources compared"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        json!({"doc": random_doc(r, t), "sp": r.below(1 << 20)})
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for k in 0..SCORED.len() {
            for body in ["x", "a b", "**x** y", "//a//", "x [[span]]y[[/span]]", "a\nb", "@<&amp;>@"] {
                for n in 0..16 {
                    out.push(json!({"strip": k, "body": body, "n": n}));
                }
            }
        }
        for (i, (names, ..)) in NAMES.iter().enumerate() {
            for n in 0..18 {
                out.push(json!({"i": i, "spaces": n}));
            }
            // The names of all others, and its own with letters missing or added.
            for other in NAMES.iter().flat_map(|x| x.0).chain(&["x", "module", "css", "div_x", ""]) {
                out.push(json!({"i": i, "end": other.trim_start_matches('*')}));
            }
            for name in names.iter().map(|n| n.trim_start_matches('*')) {
                let mut ends = vec![format!("{name}s"), format!("{name}x"), format!("x{name}"), format!("{name}{name}"), format!("{name}-"), format!("*{name}"), format!("{name}__"), format!("_{name}")];
                for k in 1..name.len() {
                    if name.is_char_boundary(k) {
                        ends.push(name[..k].to_string());
                        ends.push(name[k..].to_string());
                    }
                }
                for e in ends {
                    out.push(json!({"i": i, "end": e}));
                }
            }
            for j in 0..names.len() {
                for case in 0..4 {
                    out.push(json!({"i": i, "j": j, "case": case}));
                }
                for flags in 0..8 {
                    out.push(json!({"i": i, "j": j, "flags": flags}));
                }
            }
        }
        out
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if !v["case"].is_null() {
            return self.name(v, stats);
        }
        if !v["strip"].is_null() {
            return self.stripped(v, stats);
        }
        if !v["end"].is_null() {
            return self.ends(v, stats);
        }
        if !v["spaces"].is_null() {
            return self.spaces(v, stats);
        }
        if !v["flags"].is_null() {
            return self.flags(v, stats);
        }
        let Some(seed) = v["sp"].as_u64() else { return Verdict::Skip };
        let env = Env::default();
        let canon = match model::write(&v["doc"], &Options { vary: false, seed: 0, crlf: false }) {
            Ok(o) => o,
            Err(_) => return Verdict::Skip,
        };
        let strip = |src: &str| {
            let (tree, errors) = pipe::tree_of(&pipe::preprocess(src), &env);
            let mut j = merged(&pipe::json_of(&tree));
            j["wikitext-len"] = json!(0);
            (j, errors)
        };
        let (j0, e0) = strip(&canon.src);
        let mut compared = 0;
        for k in 0..3u64 {
            let o = match model::write(&v["doc"], &Options { vary: true, seed: seed + k, crlf: (seed + k) % 4 == 0 }) {
                Ok(o) => o,
                Err(_) => return Verdict::Skip,
            };
            if o.src == canon.src {
                continue;
            }
            compared += 1;
            let (j, e) = strip(&o.src);
            if let Some(d) = diff("tree", &j, &j0) {
                return fail("differs", format!("{d}\n  source:    {:?}\n  canonical: {:?}", o.src, canon.src));
            }
            if e.len() != e0.len() {
                return fail("errors", format!("{} errors instead of {}\n  source:    {:?}\n  canonical: {:?}", e.len(), e0.len(), o.src, canon.src));
            }
        }
        stats.add("respelled documents", compared);
        for (k, n) in &canon.kinds {
            stats.add(&format!("kind {k}"), *n);
        }
        Verdict::Ok(compared > 0)
    }
}
