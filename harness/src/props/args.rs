//! P29: arguments of blocks and modules. P30: dates.

use crate::pipe::{self, Env};
use crate::refdate::{self, When};
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Map, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P29, &P30]
}

struct P29;

/// How an argument of a block's own is read.
#[derive(Clone, Copy)]
enum Own {
    /// A string or null.
    Text,
    /// In ASCII lowercase.
    Lower,
    Bool(bool),
    /// The opposite.
    Not(bool),
    /// A positive number or null.
    Number,
    /// Or else 1.
    Columns,
    /// Where collapsibles end: the flag at the other place, by the values setting it.
    Place(&'static [&'static str], bool),
}

struct Construct {
    /// What is before the arguments and after them.
    head: &'static str,
    tail: &'static str,
    /// Where its attributes are, if it takes any.
    attrs: Option<&'static str>,
    /// Own arguments, and where they are.
    own: &'static [(&'static str, &'static str, Own)],
    /// Other arguments fail.
    strict: bool,
    /// Where arbitrary arguments are as written.
    vars: Option<&'static str>,
    inline: bool,
}

const fn attrs(head: &'static str, tail: &'static str, at: &'static str) -> Construct {
    Construct { head, tail, attrs: Some(at), own: &[], strict: false, vars: None, inline: false }
}

const fn inline(head: &'static str, tail: &'static str) -> Construct {
    Construct { head, tail, attrs: Some("/data/elements/0/data/attributes"), own: &[], strict: false, vars: None, inline: true }
}

const fn own(head: &'static str, tail: &'static str, at: Option<&'static str>, own: &'static [(&'static str, &'static str, Own)]) -> Construct {
    Construct { head, tail, attrs: at, own, strict: false, vars: None, inline: false }
}

const A: &str = "/data/attributes";
const TOP: &[&str] = &["top", "both"];
const BOTTOM: &[&str] = &["bottom", "both"];
const PLACES: &[&str] = &["top", "bottom", "both", "neither", "none"];

const CONSTRUCTS: &[Construct] = &[
    attrs("[[div", "]]\nx\n[[/div]]", A),
    attrs("[[div_", "]]\nx\n[[/div]]", A),
    attrs("[[quote", "]]\nx\n[[/quote]]", A),
    attrs("[[blockquote", "]]\nx\n[[/blockquote]]", A),
    attrs("[[p", "]]x[[/p]]", A),
    attrs("[[paragraph", "]]x[[/paragraph]]", A),
    attrs("[[toc", "]]", A),
    attrs("[[iframe https://x.y/z", "]]", A),
    inline("[[span", "]]x[[/span]]"),
    inline("[[span_", "]]x[[/span]]"),
    inline("[[a", "]]x[[/a]]"),
    inline("[[*a", "]]x[[/a]]"),
    inline("[[anchor", "]]x[[/anchor]]"),
    inline("[[b", "]]x[[/b]]"),
    inline("[[bold", "]]x[[/bold]]"),
    inline("[[strong", "]]x[[/strong]]"),
    inline("[[i", "]]x[[/i]]"),
    inline("[[em", "]]x[[/em]]"),
    inline("[[u", "]]x[[/u]]"),
    inline("[[underline", "]]x[[/underline]]"),
    inline("[[s", "]]x[[/s]]"),
    inline("[[strikethrough", "]]x[[/strikethrough]]"),
    inline("[[mark", "]]x[[/mark]]"),
    inline("[[highlight", "]]x[[/highlight]]"),
    inline("[[ins", "]]x[[/ins]]"),
    inline("[[insertion", "]]x[[/insertion]]"),
    inline("[[del", "]]x[[/del]]"),
    inline("[[deletion", "]]x[[/deletion]]"),
    inline("[[sup", "]]x[[/sup]]"),
    inline("[[superscript", "]]x[[/superscript]]"),
    inline("[[sub", "]]x[[/sub]]"),
    inline("[[subscript", "]]x[[/subscript]]"),
    inline("[[tt", "]]x[[/tt]]"),
    inline("[[mono", "]]x[[/mono]]"),
    inline("[[monospace", "]]x[[/monospace]]"),
    inline("[[hidden", "]]x[[/hidden]]"),
    inline("[[invisible", "]]x[[/invisible]]"),
    inline("[[ruby", "]]x[[/ruby]]"),
    inline("[[image x.png", "]]"),
    inline("[[=image https://x.y/z.png", "]]"),
    inline("[[checkbox", "]]x"),
    inline("[[*checkbox", "]] x"),
    inline("[[radio r", "]]x"),
    inline("[[*radio-button r", "]] x"),
    Construct { attrs: Some("/data/elements/0/data/elements/1/data/attributes"), ..inline("[[ruby]]a[[rt", "]]x[[/rt]][[/ruby]]") },
    attrs("[[ul", "]]\n[[li]]x[[/li]]\n[[/ul]]", A),
    attrs("[[ol", "]]\n[[li]]x[[/li]]\n[[/ol]]", A),
    attrs("[[ul]]\n[[li", "]]x[[/li]]\n[[/ul]]", "/data/items/0/attributes"),
    attrs("[[ol]]\n[[li_", "]]\nx\n[[/li]]\n[[/ol]]", "/data/items/0/attributes"),
    attrs("[[table", "]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", A),
    attrs("[[table]]\n[[row", "]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "/data/rows/0/attributes"),
    Construct { own: &[("colspan", "/data/rows/0/cells/0/column-span", Own::Columns)], ..attrs("[[table]]\n[[row]]\n[[cell", "]]x[[/cell]]\n[[/row]]\n[[/table]]", "/data/rows/0/cells/0/attributes") },
    Construct { own: &[("colspan", "/data/rows/0/cells/0/column-span", Own::Columns)], ..attrs("[[table]]\n[[row]]\n[[hcell", "]]\nx\n[[/hcell]]\n[[/row]]\n[[/table]]", "/data/rows/0/cells/0/attributes") },
    own("[[collapsible", "]]\nx\n[[/collapsible]]", Some(A), &[
        ("show", "/data/show-text", Own::Text),
        ("hide", "/data/hide-text", Own::Text),
        ("folded", "/data/start-open", Own::Not(true)),
        ("hideLocation", "/data/show-top", Own::Place(TOP, true)),
        ("hideLocation", "/data/show-bottom", Own::Place(BOTTOM, false)),
    ]),
    own("[[collapsible", "]]\n[[collapsible]]\nx\n[[/collapsible]]\n[[/collapsible]]", Some(A), &[
        ("show", "/data/show-text", Own::Text),
        ("hide", "/data/hide-text", Own::Text),
        ("hideLocation", "/data/show-bottom", Own::Place(BOTTOM, false)),
    ]),
    Construct { strict: true, ..own("[[footnoteblock", "]]", None, &[("title", "/data/title", Own::Text), ("hide", "/data/hide", Own::Bool(false))]) },
    own("[[bibliography", "]]\n: a : b\n[[/bibliography]]", None, &[("title", "/data/title", Own::Text), ("hide", "/data/hide", Own::Bool(false))]),
    own("[[code", "]]\nx\n[[/code]]", None, &[("type", "/data/language", Own::Lower)]),
    own("[[embed youtube", "]]", None, &[("video", "/data/data/video-id", Own::Text)]),
    own("[[embed vimeo", "]]", None, &[("video", "/data/data/video-id", Own::Text)]),
    own("[[module Join", "]]", Some("/data/data/attributes"), &[("button", "/data/data/button-text", Own::Text)]),
    own("[[module Backlinks", "]]", None, &[("page", "/data/data/page", Own::Text)]),
    own("[[module PageTree", "]]", None, &[
        ("root", "/data/data/root", Own::Text),
        ("depth", "/data/data/depth", Own::Number),
        ("showRoot", "/data/data/show-root", Own::Bool(false)),
    ]),
    own("[[module Categories", "]]", None, &[("includeHidden", "/data/data/include-hidden", Own::Bool(false))]),
    Construct { inline: true, ..own("[[date 2001-02-03", "]]", None, &[
        ("format", "/data/elements/0/data/format", Own::Text),
        ("hover", "/data/elements/0/data/hover", Own::Bool(true)),
    ]) },
    Construct { vars: Some("/data/variables"), ..own("[[include-elements page", "]]", None, &[]) },
];

const SAFE: &[&str] = &[
    "class", "title", "style", "alt", "lang", "dir", "width", "height", "rowspan", "colspan", "role", "label", "name", "value",
    "data-x", "data-a_b-2", "aria-label", "DATA-X", "Class", "TITLE", "aria-X-1", "placeholder", "tabindex", "type", "target", "id", "srcset", "for",
];
/// The documented list.
const LISTED: &[&str] = &[
    "accept", "align", "alt", "autocapitalize", "autoplay", "background", "bgcolor", "border", "buffered", "checked", "cite", "class", "cols", "colspan", "contenteditable", "controls", "coords", "datetime", "decoding", "default", "dir", "dirname", "disabled", "download", "draggable", "for", "form", "headers", "height", "hidden", "high", "href", "hreflang", "id", "inputmode", "ismap", "itemprop", "kind", "label", "lang", "list", "loop", "low", "max", "maxlength", "min", "minlength", "multiple", "muted", "name", "optimum", "pattern", "placeholder", "poster", "preload", "readonly", "required", "reversed", "role", "rows", "rowspan", "scope", "selected", "shape", "size", "sizes", "span", "spellcheck", "src", "srclang", "srcset", "start", "step", "style", "tabindex", "target", "title", "translate", "type", "usemap", "value", "width", "wrap", "true", "false", "checked", "checkbox", "checkbox",
];
const BOOLS: &[&str] = &["checked", "disabled", "hidden", "multiple", "loop", "Muted", "reversed", "autoplay", "controls", "default", "ismap", "readonly", "required", "selected"];
const UNSAFE: &[&str] = &[
    "onclick", "onload", "foo", "data", "data-", "aria-", "aria", "formaction", "xmlns", "x", "A-1", "slot", "open", "async", "nomodule", "itemscope", "playsinline",
    "data_x", "srcdoc", "background2", "0", "--", "__", "onerror", "autofocus",
];
const TRUE: &[&str] = &["true", "t", "1", "yes", "TRUE", "Yes", " true ", "T", "YES\\n"];
const FALSE: &[&str] = &["false", "f", "0", "no", "FALSE", "No", " no", "F\\t"];
const NEITHER: &[&str] = &["", "maybe", "2", "truee", "y", "n", "tru", "on", "off", "-1", "00", "yes no", "\\\\true"];
const NUMBERS: &[&str] = &["1", "2", "17", "4294967295", "+3", "007"];
const NO_NUMBERS: &[&str] = &["0", "-1", "4294967296", "", " 3", "3 ", "x", "1.0", "00", "+", "1e3"];

const BITS: &[&str] = &[
    "a", "b c", " ", "]]", "[[", "[[/div]]", "[[/span]]", "@@", "@<", ">@", "\\\"", "\\\\", "\\n", "\\t", "\\r", "\\'", "\\q", "\\x41", "\\é", "\\ ", "||", "[!--",
    "--]", "'", "<", ">", "&", "&amp;", "😀", "é", "漢字", "%%x%%", "=", "{$x}", "https://x.y/z", "x@y.z", "[[[", "]]]", "**", "//", "__", "--", "##red|", "((", "))",
    "\u{a0}", "\u{0}", "\t", "~~", "{{", "^^", ",,", "+ ", "* ", "> ", ": ", "class=", "\\u0041", "\u{feff}", "\u{202e}", "$", "`", "\\0", "_", "#", "|", "/",
];

/// The value of a string, without its quotes, or none if it isn't one.
fn decode(raw: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = raw.chars();
    while let Some(c) = it.next() {
        match c {
            '"' | '\n' | '\r' => return None,
            '\\' => match it.next()? {
                c @ ('\\' | '"' | '\'') => out.push(c),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '\n' | '\r' => return None,
                c => out.extend(['\\', c]),
            },
            c => out.push(c),
        }
    }
    Some(out)
}

fn boolean(v: &str) -> Option<bool> {
    match v.trim().to_ascii_lowercase().as_str() {
        "true" | "t" | "1" | "yes" => Some(true),
        "false" | "f" | "0" | "no" => Some(false),
        _ => None,
    }
}

fn is_safe(k: &str) -> bool {
    LISTED.contains(&k) || (k.len() > 5 && (k.starts_with("data-") || k.starts_with("aria-")))
}

struct Read {
    /// By lowercase key.
    args: Vec<(String, String)>,
    src: String,
    index: usize,
    broken: bool,
}

fn read(v: &Value, c: &Construct) -> Option<Read> {
    let mut src = String::new();
    let before = v["before"].as_u64()? as usize % 4;
    for i in 0..before {
        src.push_str(["para\n\n", "[[div]]\ny\n[[/div]]\n\n", "+ z\n\n"][i]);
    }
    src.push_str(c.head);
    let mut args: Vec<(String, String)> = vec![];
    let mut broken = false;
    for (i, a) in v["args"].as_array()?.iter().enumerate() {
        let (k, raw) = (a["k"].as_str()?, a["v"].as_str()?);
        let sp = a["s"].as_u64()?;
        let value = decode(raw)?;
        // Addresses are another matter.
        if ["href", "src", "link"].iter().any(|s| s.eq_ignore_ascii_case(k)) {
            return None;
        }
        if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
            return None;
        }
        let gaps = ["", " ", "  ", "\n", "\t", "\n ", " \n", "\n\n", " \t "];
        let gap = gaps[sp as usize % gaps.len()];
        // Addresses go on over tabs.
        let tab = c.head.contains("https") && gap.starts_with('\t');
        src.push_str(if i == 0 && (gap.is_empty() || tab) { " " } else { gap });
        let eq = ["=", " =", "= ", " = ", "\t=", "=  "][(sp / 16) as usize % 6];
        match a["b"].as_u64() {
            // Not an argument.
            Some(n) => {
                broken = true;
                let forms = [
                    format!("{k} \"{raw}\""), format!("{k}=x"), format!("{k}='x'"), format!("=\"{raw}\""), format!("{k}==\"{raw}\""), format!("{k}.=\"{raw}\""),
                    format!("é=\"{raw}\""), format!("{k}=]]"), format!("{k}\n=\"{raw}\""), format!("{k}=\n\"{raw}\""), format!("{k}:\"{raw}\""), format!("{k}={k}=\"{raw}\""),
                    format!("\"{raw}\""), format!("{k} {k}=\"{raw}\""), format!("{k}\"{raw}\""),
                ];
                src.push_str(&forms[n as usize % forms.len()]);
            }
            None => {
                src.push_str(&format!("{k}{eq}\"{raw}\""));
                let k = k.to_ascii_lowercase();
                args.retain(|x| x.0 != k);
                args.push((k, value));
            }
        }
    }
    src.push_str(["", " ", "\n", " \n\n"][v["end"].as_u64()? as usize % 4]);
    src.push_str(c.tail);
    src.push_str("\n\nZEND");
    Some(Read { args, src, index: before, broken })
}

impl Prop for P29 {
    fn id(&self) -> &'static str {
        "P29"
    }
    fn rule(&self) -> &'static str {
        "65 constructs taking arguments, with up to 5 arguments of generated keys (safe, boolean and unsafe attributes and the construct's own, duplicates in other cases), values of hostile text and escapes, spacing and line breaks, or malformed arguments; the serialized tree must have exactly the values an independent reader of the arguments gives, and malformed ones must leave the block literal with an error; non-trivial: at least one argument"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for (i, c) in CONSTRUCTS.iter().enumerate() {
            out.push(json!({"c": i, "before": 0, "end": 0, "args": []}));
            let mut add = |k: &str, v: &str, s: u64| out.push(json!({"c": i, "before": s % 4, "end": s / 4, "args": [{"k": k, "v": v, "s": s}]}));
            let keys: Vec<&str> = c.own.iter().map(|o| o.0).chain(SAFE.iter().copied()).chain(BOOLS.iter().copied()).chain(UNSAFE.iter().copied()).collect();
            for (n, k) in keys.iter().enumerate() {
                add(k, "v", n as u64);
                add(&k.to_ascii_uppercase(), "v", n as u64 * 7);
            }
            for b in BITS.iter().chain(TRUE).chain(FALSE).chain(NEITHER).chain(NUMBERS).chain(NO_NUMBERS) {
                for k in c.own.iter().map(|o| o.0).chain(["title", "checked"]) {
                    add(k, b, 1);
                }
            }
            for n in 0..15 {
                for k in c.own.iter().map(|o| o.0).chain(["title"]) {
                    out.push(json!({"c": i, "before": n % 4, "end": 0, "args": [{"k": "class", "v": "w", "s": 1}, {"k": k, "v": "1", "s": 1, "b": n}]}));
                    out.push(json!({"c": i, "before": n % 4, "end": 1, "args": [{"k": k, "v": "1", "s": 1, "b": n}]}));
                }
            }
            for s in 0..96u64 {
                out.push(json!({"c": i, "before": 0, "end": s % 4, "args": [{"k": "class", "v": "1", "s": s}, {"k": "title", "v": "2", "s": s}, {"k": "CLASS", "v": "3", "s": s}]}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, _tier: Tier) -> Value {
        let ci = r.below(CONSTRUCTS.len());
        let c = &CONSTRUCTS[ci];
        let mut args = vec![];
        let many = r.chance(1, 300);
        let n = if many { crate::gen::big::few(r) } else { r.range(0, 5) };
        for i in 0..n {
            let own = !c.own.is_empty() && r.chance(1, 2);
            let mut key = if own {
                c.own[r.below(c.own.len())].0.to_string()
            } else {
                match r.below(if c.strict { 30 } else { 5 }) {
                    0 => r.pick(BOOLS).to_string(),
                    1 => r.pick(UNSAFE).to_string(),
                    _ if c.strict => c.own[r.below(c.own.len())].0.to_string(),
                    2 => format!("data-{}", r.pick(&["q", "1", "a-b", "Z", "_"])),
                    3 if many => format!("data-k{i}"),
                    _ => r.pick(SAFE).to_string(),
                }
            };
            if r.chance(1, 6) {
                key = key.chars().map(|ch| if r.coin() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect();
            }
            let place = c.own.iter().any(|o| o.0.eq_ignore_ascii_case(&key) && matches!(o.2, Own::Place(..)));
            let number = c.own.iter().any(|o| o.0.eq_ignore_ascii_case(&key) && matches!(o.2, Own::Number | Own::Columns));
            let boolean = BOOLS.iter().any(|b| b.eq_ignore_ascii_case(&key)) || c.own.iter().any(|o| o.0.eq_ignore_ascii_case(&key) && matches!(o.2, Own::Bool(_) | Own::Not(_)));
            let odd = r.chance(1, 8);
            let value = if place && !odd {
                r.pick(&["top", "bottom", "both", "neither", "none", "Top", "BOTH ", " none", "bottom\\n"]).to_string()
            } else if number && !odd {
                r.pick(NUMBERS).to_string()
            } else if number {
                r.pick(NO_NUMBERS).to_string()
            } else if boolean && !odd {
                let l = if r.coin() { TRUE } else { FALSE };
                r.pick(l).to_string()
            } else if boolean {
                r.pick(NEITHER).to_string()
            } else {
                let n = if r.chance(1, 200) { crate::gen::big::count(r) } else { r.range(0, 5) };
                (0..n).map(|_| r.pick(BITS)).collect::<String>()
            };
            let s = r.next() >> 40;
            let mut a = json!({"k": key, "v": value, "s": s});
            if r.chance(1, 40) {
                a["b"] = json!(r.below(15));
            }
            args.push(a);
        }
        let (before, end) = (if r.chance(1, 3) { r.below(4) } else { 0 }, r.below(4));
        json!({"c": ci, "before": before, "end": end, "args": args})
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(c) = v["c"].as_u64().and_then(|i| CONSTRUCTS.get(i as usize)) else {
            return Verdict::Skip;
        };
        let Some(Read { args, src, index, broken }) = read(v, c) else {
            return Verdict::Skip;
        };
        let env = Env::default();
        let (tree, errors) = pipe::tree_of(&src, &env);
        let json = pipe::json_of(&tree);
        let elements = json["elements"].as_array().cloned().unwrap_or_default();
        let say = |e: String| format!("{e}\n  source: {src:?}\n  element: {}", elements.get(index).unwrap_or(&Value::Null));

        // What each place should have.
        let mut bad = broken;
        let mut left = args.clone();
        let mut want: Vec<(&str, Value)> = vec![];
        for (key, at, how) in c.own {
            let k = key.to_ascii_lowercase();
            let value = args.iter().find(|a| a.0 == k).map(|a| a.1.as_str());
            left.retain(|a| a.0 != k);
            let flag = |default: bool, bad: &mut bool| match value.map(boolean) {
                None => default,
                Some(Some(b)) => b,
                Some(None) => {
                    *bad = true;
                    false
                }
            };
            let w = match how {
                Own::Text => json!(value),
                Own::Lower => json!(value.map(|v| v.to_ascii_lowercase())),
                Own::Bool(d) => json!(flag(*d, &mut bad)),
                Own::Not(d) => json!(!flag(*d, &mut bad)),
                Own::Number => match value.map(|v| v.parse::<u32>()) {
                    None => Value::Null,
                    Some(Ok(n)) if n > 0 => json!(n),
                    Some(_) => {
                        bad = true;
                        Value::Null
                    }
                },
                Own::Columns => json!(value.and_then(|v| v.parse::<u32>().ok()).filter(|n| *n > 0).unwrap_or(1)),
                Own::Place(on, default) => match value.map(|v| v.trim().to_ascii_lowercase()) {
                    None => json!(default),
                    Some(v) => {
                        bad |= !PLACES.contains(&v.as_str());
                        json!(on.contains(&v.as_str()))
                    }
                },
            };
            want.push((at, w));
        }
        bad |= c.strict && !left.is_empty();
        let missing = c.head.starts_with("[[embed") && !args.iter().any(|a| a.0 == "video");
        if bad || missing {
            stats.hit("malformed");
            let kind = if bad { "BlockMalformedArguments" } else { "BlockMissingArguments" };
            if !errors.iter().any(|e| format!("{:?}", e.kind()) == kind) {
                return fail("no-error", say(format!("no {kind} among {errors:?}")));
            }
            // It's literal: its head begins a paragraph.
            let first = c.head.find(|c: char| c.is_ascii_alphabetic()).map(|i| &c.head[..i]).unwrap_or("");
            let whole = c.head.matches("[[").count() > 1;
            if !whole && elements.get(index).and_then(|e| e.pointer("/data/elements/0/data")).and_then(|t| t.as_str()) != Some(&first[..if first.starts_with("[[*") { 3 } else { 2 }]) {
                return fail("not-literal", say("malformed arguments, but the block isn't literal".into()));
            }
            return Verdict::Ok(true);
        }
        let Some(e) = elements.get(index) else {
            return fail("missing", say("no such element".into()));
        };
        // Nothing else was taken or left.
        let whole = elements.get(index + 1).and_then(|e| e.pointer("/data/elements/0/data")).and_then(|t| t.as_str());
        if whole != Some("ZEND") {
            return fail("extent", say(format!("what follows isn't next: {}", json["elements"])));
        }
        for (at, w) in &want {
            if e.pointer(at) != Some(w) {
                return fail("own", say(format!("{at} is {:?}, not {w}", e.pointer(at))));
            }
        }
        if let Some(at) = c.attrs {
            let mut map = Map::new();
            for (k, value) in &left {
                if !is_safe(k) {
                    stats.hit("unsafe attributes");
                    continue;
                }
                let value = match boolean(value) {
                    Some(b) if BOOLS.iter().any(|s| s.eq_ignore_ascii_case(k)) => {
                        stats.hit("boolean attributes");
                        if !b {
                            continue;
                        }
                        ""
                    }
                    _ => value,
                };
                map.insert(k.clone(), json!(value));
                stats.hit("attributes");
            }
            if e.pointer(at) != Some(&Value::Object(map.clone())) {
                return fail("attributes", say(format!("{at} is {:?}, not {}", e.pointer(at).map(|v| v.to_string()), Value::Object(map))));
            }
        }
        if let Some(at) = c.vars {
            let got = e.pointer(at).and_then(|v| v.as_object()).cloned().unwrap_or_default();
            let got: std::collections::BTreeMap<String, Value> = got.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
            let exp: std::collections::BTreeMap<String, Value> = args.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
            if got != exp {
                return fail("variables", say(format!("{at} is {got:?}, not {exp:?}")));
            }
        }
        if !errors.is_empty() {
            return fail("errors", say(format!("{errors:?}")));
        }
        stats.add("arguments read", args.len() as u64);
        Verdict::Ok(!args.is_empty())
    }
}

struct P30;

/// A written date, and what it stands for, if anything; and its fraction of a second.
struct Written {
    text: String,
    when: Option<When>,
    fraction: String,
}

fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn written(v: &Value) -> Option<Written> {
    let n = |k: &str| v[k].as_i64();
    let form = n("form")? % 12;
    if form == 0 {
        let t = n("t")?;
        let text = if v["plus"] == true && t >= 0 { format!("+{t}") } else { t.to_string() };
        let ok = (-377705116800..=253402300799).contains(&t);
        return Some(Written { text, when: ok.then_some(When { local: t, has_time: true, offset: Some(0) }), fraction: "0".into() });
    }
    if form == 11 {
        return Some(Written { text: v["text"].as_str().filter(|t| JUNK.contains(t))?.to_string(), when: None, fraction: "0".into() });
    }
    let (y, m, d) = (n("y")?, n("m")?, n("d")?);
    if !(0..=9999).contains(&y) || !(0..=99).contains(&m) || !(0..=99).contains(&d) {
        return None;
    }
    let mut ok = (1..=12).contains(&m) && (1..=month_days(y, m)).contains(&d);
    let mut day = if ok { refdate::days(y, m, d) } else { 0 };
    let basic = matches!(form, 4 | 5 | 6);
    // Dates of a week or a year need a real day.
    let kind = n("kind")? % 4;
    let mut text = match kind {
        1 if ok => {
            let year_day = day - refdate::days(y, 1, 1) + 1;
            if basic { format!("{y:04}{year_day:03}") } else { format!("{y:04}-{year_day:03}") }
        }
        2 if ok && y > 0 && y < 9999 => {
            // The week's year is that of its Thursday.
            let wd = (day + 3).rem_euclid(7);
            let thursday = day - wd + 3;
            let wy = refdate::civil(thursday).0;
            let week = (thursday - refdate::days(wy, 1, 1)) / 7 + 1;
            if basic { format!("{wy:04}W{week:02}{}", wd + 1) } else { format!("{wy:04}-W{week:02}-{}", wd + 1) }
        }
        3 if ok && !basic => {
            // No such day of the year.
            let last = if month_days(y, 2) == 29 { 366 } else { 365 };
            ok = false;
            day = 0;
            format!("{y:04}-{:03}", if d % 2 == 0 { 0 } else { last + 1 })
        }
        _ if basic => format!("{y:04}{m:02}{d:02}"),
        _ => format!("{y:04}-{m:02}-{d:02}"),
    };
    let mut w = When { local: day * 86400, has_time: false, offset: None };
    let mut fraction = "0".to_string();
    if form == 1 {
        return Some(Written { text, when: ok.then_some(w), fraction });
    }
    // With a time of day.
    let (h, mi, s) = (n("h")?, n("mi")?, n("s")?);
    if !(0..=99).contains(&h) || !(0..=99).contains(&mi) || !(0..=59).contains(&s) {
        return None;
    }
    ok &= h < 24 && mi < 60;
    let lower = v["lower"] == true && form == 7 && !matches!(kind, 1 | 2);
    text.push(if lower { 't' } else { 'T' });
    let seconds = v["seconds"] != false || lower;
    let colon = if basic { "" } else { ":" };
    text.push_str(&format!("{h:02}{colon}{mi:02}"));
    if seconds {
        text.push_str(&format!("{colon}{s:02}"));
        if let Some(f) = v["frac"].as_str() {
            if f.is_empty() || f.len() > 9 || !f.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            text.push_str(&format!("{}{f}", if v["comma"] == true && !lower { ',' } else { '.' }));
            let f = f.trim_end_matches('0');
            fraction = if f.is_empty() { "0".into() } else { f.into() };
        }
    }
    w.local += h * 3600 + mi * 60 + if seconds { s } else { 0 };
    w.has_time = true;
    // And with a timezone.
    let (oh, om) = (n("oh")?, n("om")?);
    if !(-23..=23).contains(&oh) || !(0..=59).contains(&om) {
        return None;
    }
    let sign = if oh < 0 || v["neg"] == true { -1 } else { 1 };
    let (sc, oh) = (if sign < 0 { '-' } else { '+' }, oh.abs());
    match form {
        2 | 3 | 4 => {}
        5 | 7 => {
            text.push(if lower { 'z' } else { 'Z' });
            w.offset = Some(0);
        }
        6 => {
            text.push_str(&format!("{sc}{oh:02}{om:02}"));
            w.offset = Some(sign * (oh * 3600 + om * 60));
        }
        8 => {
            text.push_str(&format!("{sc}{oh:02}:{om:02}"));
            w.offset = Some(sign * (oh * 3600 + om * 60));
        }
        9 => {
            text.push_str(&format!("{sc}{oh:02}"));
            w.offset = Some(sign * oh * 3600);
        }
        // No such timezone.
        _ => {
            text.push_str(&format!("{sc}{oh:02}:{:02}", om + 60));
            ok &= om + 60 < 60;
            w.offset = Some(0);
        }
    }
    Some(Written { text, when: ok.then_some(w), fraction })
}

const JUNK: &[&str] = &[
    "foobar", "2001-09", "2001/09", "2001/09-11", "2001-09/11", "x", "2001-1-1", "01-01-2001", "2001-01-01T", "T01:02:03", "2001-01-01T01:02:03Q",
    "2001-01-01Z", "1e5", "0x10", "1.5", "tomorrow", "yesterday", "nowx", "2001-W60-1", "2001-W01-8", "2001-01-01T01:02:03+4", "９９", "-", "+", "2001-01-01T1:2:3",
];

/// What a `tz` argument stands for, in seconds.
fn timezone(s: &str) -> Option<i64> {
    let (sign, rest) = match s.as_bytes().first()? {
        b'+' => (1, &s[1..]),
        b'-' => (-1, &s[1..]),
        _ => (1, s),
    };
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    let n = |t: &str| t.parse::<i64>().ok();
    let hm = |h: &str, m: &str| Some(n(h)? * 3600 + n(m)? * 60);
    let v = match rest.split_once(':') {
        Some((h, m)) if digits(h) && digits(m) && h.len() <= 2 && m.len() == 2 => hm(h, m)?,
        Some(_) => return None,
        None if !digits(rest) => return None,
        None => match rest.len() {
            1 | 2 => hm(rest, "0")?,
            3 | 4 => hm(&rest[..rest.len() - 2], &rest[rest.len() - 2..])?,
            _ => n(rest)?,
        },
    };
    (v <= 25 * 3600 + 59 * 60 + 59).then_some(sign * v)
}

const ZONES: &[&str] = &[
    "0", "+0", "-0", "5", "+5", "-5", "05", "12", "-12", "+14", "5:30", "+05:30", "-05:30", "0530", "530", "-930", "+0930", "-0:30", "0:00", "00:00", "25:59", "-25:59",
    "12345", "-12345", "+12345", "93599", "-93599", "3600", "03600", "019800", "1", "100", "000", "00001",
];
const BAD_ZONES: &[&str] = &["", "Z", "UTC", "EST", "8:0", "*", "26:00", "26", "-26", "99", "93600", "-93600", "+ 5", " 5", "5 ", "5:300", "5.5", "--5", "+-5", "1:2:3", "999999999999", "١", "5h", "+", "-", ":30"];

impl Prop for P30 {
    fn id(&self) -> &'static str {
        "P30"
    }
    fn rule(&self) -> &'static str {
        "date blocks with timestamps, ISO 8601 and RFC 3339 dates and times in all their forms (calendar, week and ordinal dates, basic and extended, with and without seconds, fractions and timezones), impossible ones and junk, and tz arguments in all their forms; the value in the tree, the timestamp and text in the HTML and the plain text against civil arithmetic of the harness; non-trivial: all"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v = vec![];
        for t in [0i64, 1, -1, 59, 86399, 86400, 951782400, 1600000000, -62167219200, -2208988800, -2208988801, 253402300799, 253402300800, -377705116800, -377705116801, i64::MAX, i64::MIN, 2147483647, 2147483648] {
            v.push(json!({"form": 0, "t": t}));
            v.push(json!({"form": 0, "t": t, "plus": true, "hover": "no"}));
            v.push(json!({"form": 0, "t": t, "tz": "5"}));
        }
        for j in JUNK {
            v.push(json!({"form": 11, "text": j}));
            v.push(json!({"form": 11, "text": j, "tz": "5"}));
        }
        for z in ZONES.iter().chain(BAD_ZONES) {
            for form in [1, 2, 4, 7, 8] {
                v.push(json!({"form": form, "kind": 0, "y": 2004, "m": 2, "d": 29, "h": 23, "mi": 59, "s": 58, "oh": -3, "om": 30, "tz": z}));
            }
        }
        for y in [0, 1, 4, 99, 1582, 1899, 1900, 1970, 2000, 2001, 2004, 2015, 2016, 2020, 2100, 9998, 9999] {
            for m in 0..=13 {
                for d in [0, 1, 2, 28, 29, 30, 31, 32] {
                    for kind in 0..4 {
                        for form in [1, 2, 4, 6, 8] {
                            v.push(json!({"form": form, "kind": kind, "y": y, "m": m, "d": d, "h": 1, "mi": 2, "s": 3, "oh": 4, "om": 30, "neg": (m + d) % 2 == 0}));
                        }
                    }
                }
            }
        }
        for form in 2..=10 {
            for h in [0, 1, 12, 23, 24, 60] {
                for mi in [0, 59, 60] {
                    for s in [0, 59] {
                        for oh in [-23, -1, 0, 1, 12, 23] {
                            v.push(json!({"form": form, "kind": 0, "y": 2001, "m": 12, "d": 31, "h": h, "mi": mi, "s": s, "oh": oh, "om": 15, "lower": s == 0, "seconds": mi != 59}));
                        }
                    }
                }
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, _tier: Tier) -> Value {
        let mut v = match r.below(14) {
            0 => {
                let t = match r.below(3) {
                    0 => (r.next() >> 8) as i64 % 4_000_000_000,
                    1 => -((r.next() >> 8) as i64 % 4_000_000_000),
                    _ => (r.next() as i64) >> r.range(10, 40),
                };
                json!({"form": 0, "t": t, "plus": r.coin()})
            }
            1 => json!({"form": 11, "text": r.pick(JUNK)}),
            _ => {
                let form = if r.chance(1, 20) { 10 } else { r.range(1, 9) };
                let y = match r.below(4) {
                    0 => r.below(10_000),
                    1 => r.range(1850, 1950),
                    _ => r.range(1970, 2040),
                };
                let (m, d) = if r.chance(1, 12) { (r.below(15), r.below(34)) } else { (r.range(1, 12), r.range(1, 31)) };
                let (h, mi) = if r.chance(1, 20) { (r.below(30), r.below(70)) } else { (r.below(24), r.below(60)) };
                let (kind, s, om) = (if r.coin() { 0 } else { r.range(1, 3) }, r.below(60), r.below(60));
                let oh = r.below(47) as i64 - 23;
                let mut v = json!({"form": form, "kind": kind, "y": y, "m": m, "d": d, "h": h, "mi": mi, "s": s, "oh": oh, "om": om});
                v["neg"] = json!(r.coin());
                v["lower"] = json!(r.coin());
                v["seconds"] = json!(!r.chance(1, 5));
                v["comma"] = json!(r.chance(1, 4));
                if r.chance(1, 3) {
                    let n = r.range(1, 9);
                    v["frac"] = json!((0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect::<String>());
                }
                v
            }
        };
        if r.chance(1, 3) {
            let z = if r.chance(1, 8) { r.pick(BAD_ZONES).to_string() } else { r.pick(ZONES).to_string() };
            v["tz"] = json!(z);
        }
        if r.chance(1, 3) {
            let h = r.pick(&["yes", "no", "true", "0"]);
            v["hover"] = json!(h);
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(Written { text, when, fraction }) = written(v) else {
            return Verdict::Skip;
        };
        let tz = v["tz"].as_str();
        if tz.is_some_and(|z| z.contains(['"', '\\', '\n', '\r'])) {
            return Verdict::Skip;
        }
        let hover = v["hover"].as_str().map(boolean);
        if hover == Some(None) {
            return Verdict::Skip;
        }
        let hover = hover.flatten();
        let mut src = format!("[[date {text}");
        if let Some(z) = tz {
            src.push_str(&format!(" tz=\"{z}\""));
        }
        if let Some(h) = v["hover"].as_str() {
            src.push_str(&format!(" hover=\"{h}\""));
        }
        src.push_str("]]");
        // A timezone can be given once.
        let zone = tz.map(timezone);
        let when = match (when, zone) {
            (None, _) | (_, Some(None)) => None,
            (Some(When { offset: Some(_), .. }), Some(_)) => None,
            (Some(w), Some(Some(z))) => Some(When { offset: Some(z), has_time: true, ..w }),
            (Some(w), None) => Some(w),
        };
        let env = Env::default();
        let (tree, errors) = pipe::tree_of(&src, &env);
        let json = pipe::json_of(&tree);
        let at = &json["elements"][0]["data"]["elements"];
        let say = |e: String| format!("{e}\n  source: {src:?}\n  elements: {at}");
        let Some(when) = when else {
            if at[0]["element"] == "date" {
                return fail("accepted", say("an impossible date was accepted".into()));
            }
            if !errors.iter().any(|e| format!("{:?}", e.kind()) == "BlockMalformedArguments") {
                return fail("no-error", say(format!("no such error among {errors:?}")));
            }
            stats.hit("impossible dates");
            return Verdict::Ok(true);
        };
        if at[0]["element"] != "date" || !errors.is_empty() || at.as_array().is_none_or(|l| l.len() != 1) {
            return fail("not-accepted", say(format!("expected a date of {when:?}, errors {errors:?}")));
        }
        let value = at[0]["data"]["value"].as_str().unwrap_or("");
        match refdate::parse(value) {
            Some(got) if got == when => {}
            got => return fail("value", say(format!("expected {when:?}, got {got:?}"))),
        }
        let got_fraction = value.split(' ').nth(1).and_then(|t| t.split_once('.')).map_or("0", |x| x.1);
        if got_fraction != fraction {
            return fail("fraction", say(format!("expected {fraction} after the second")));
        }
        if at[0]["data"]["hover"] != json!(hover.unwrap_or(true)) {
            return fail("hover", say("wrong hover".into()));
        }
        let plain = pipe::text_of(&tree, &env);
        if !when.shown(&plain) {
            return fail("text", say(format!("{plain:?} isn't the date {when:?}")));
        }
        let html = pipe::html_of(&tree, &env).body;
        let want = format!("data-timestamp=\"{}\"", when.timestamp());
        if !html.contains(&want) {
            return fail("timestamp", say(format!("no {want} in {html:?}")));
        }
        if !html.contains(&format!(">{plain}<")) {
            return fail("html", say(format!("the text {plain:?} isn't in {html:?}")));
        }
        if html.contains("wj-date-hover") != hover.unwrap_or(true) {
            return fail("html-hover", say(format!("hover is wrong in {html:?}")));
        }
        stats.hit(match when.offset {
            None if !when.has_time => "dates",
            None => "local times",
            _ => "times with timezone",
        });
        Verdict::Ok(true)
    }
}
