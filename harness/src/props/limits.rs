//! P25: nesting and size limits.

use super::wellformed::diff;
use crate::gen::model::merged;
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P25]
}

struct P25;

/// The deepest nesting of elements that is accepted, and that of lines.
const DEPTH: usize = 100;
const LIST: usize = 20;
const QUOTE: usize = 30;
const LINES: usize = 100;

/// Name, opening, closing, levels, kinds of elements, whether it stays on a line.
type Nest = (&'static str, &'static str, &'static str, usize, &'static [&'static str], bool);

const NESTS: &[Nest] = &[
    ("div", "[[div]]\n", "\n[[/div]]", 1, &["container div"], false),
    ("div_", "[[div_ class=\"k\"]]\n", "\n[[/div]]", 1, &["container div"], false),
    ("span", "[[span]]", "[[/span]]", 1, &["container span"], true),
    ("b", "[[b]]", "[[/b]]", 1, &["container bold"], true),
    ("i", "[[em]]", "[[/em]]", 1, &["container italics"], true),
    ("sub", "[[sub]]", "[[/sub]]", 1, &["container subscript"], true),
    ("mark", "[[mark]]", "[[/mark]]", 1, &["container mark"], true),
    ("hidden", "[[hidden]]", "[[/hidden]]", 1, &["container hidden"], true),
    ("size", "[[size 1em]]", "[[/size]]", 1, &["container size"], true),
    ("a", "[[a href=\"/k\"]]", "[[/a]]", 1, &["anchor"], true),
    ("iftags", "[[iftags +tale]]", "[[/iftags]]", 1, &[], true),
    ("ifcategory", "[[ifcategory -k]]", "[[/ifcategory]]", 1, &[], true),
    ("color", "[[span style=\"color: red\"]]", "[[/span]]", 1, &["container span"], true),
    ("ul", "[[ul]]\n[[li]]\n", "\n[[/li]]\n[[/ul]]", 2, &["list"], false),
    ("ol", "[[ol]]\n[[li]]", "[[/li]]\n[[/ol]]", 2, &["list"], false),
    ("table", "[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]", 3, &["table"], false),
    ("quote", "[[blockquote]]\n", "\n[[/blockquote]]", 1, &["container blockquote"], false),
    ("coll", "[[collapsible]]\n", "\n[[/collapsible]]", 1, &["collapsible"], false),
    ("tab", "[[tabview]]\n[[tab x]]\n", "\n[[/tab]]\n[[/tabview]]", 2, &["tab-view"], false),
    ("center", "[[=]]\n", "\n[[/=]]", 1, &["container align"], false),
    ("right", "[[>]]\n", "\n[[/>]]", 1, &["container align"], false),
];

/// What stands before the nesting: broken and complete things, none of which stays open.
const BEFORE: &[&str] = &[
    "x", "]]", "[[/div]]", "[[nope]]", "[[nope a=\"b\"]]x[[/nope]]", "[[lines x]]", "[[lines 999]]", "|| x", "**x\n", "//y\n", "__z\n", "^^z\n",
    "{{z\n", "##red|z\n", "[[image ]]", "[[module Nope]]", "[[user ]]", "[[char nope]]", "[[*b]]x[[/b]]", "[[cell]]x[[/cell]]", "[[li]]x[[/li]]",
    "[[row]]x[[/row]]", "[[tab a]]x[[/tab]]", "[[rt]]x[[/rt]]", "[[bibliography]]\nx\n[[/bibliography]]", "[[tabview]]\nx\n[[/tabview]]",
    "[[table]]\nx\n[[/table]]", "[[ul]]\nx\n[[/ul]]", "[[iframe]]", "[[date x]]", "[[math]]\n[[/math]]", "[[include a]]", "[[checkbox",
    "((bibcite", "[[[", "[[[x", "[http", "[#", "[[#", "{$", "@<", ">@", "+", "++++++++ x", "* ", "> ", ": ", ": a :", "~~~~", "-----", "\"", "``",
    "[[b]]x[[/b]]", "[[div]]\nx\n[[/div]]", "**x**", "* a\n * b", "> a\n>> b", "+ h", "[[footnote]]x[[/footnote]]", "||a||b||", "[[[p|q]]]",
    "[[code]]\nx\n[[/code]]", "[[html]]\nx\n[[/html]]", "[[ul]]\n[[li]]x[[/li]]\n[[/ul]]", ": a : b", "[[iftags +zz]]x[[/iftags]]", "@@x@@",
    "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[image a.png]]", "[[$ x $]]", "[[toc]]", "[[lines 3]]", "[*user x]", "[https://e.com/ x]",
];

/// Complete blocks which can be repeated, with blank lines between.
const UNITS: &[&str] = &[
    "x", "x y\nz", "**x**", "[[b]]x[[/b]]", "[[div]]\nx\n[[/div]]", "[[span]]//x//[[/span]]", "[[blockquote]]\nx\n[[/blockquote]]", "+ h", "++* h",
    "[[collapsible]]\nx\n[[/collapsible]]", "[[footnote]]x[[/footnote]]", "a[[footnote]]**x**[[/footnote]]b", "[[code]]\nx\n[[/code]]",
    "[[html]]\nx\n[[/html]]", "[[[p|q]]]", "[https://e.com/ x]", "https://e.com/", "[[image a.png]]", "-----", "[[# k]]", "[[ul]]\n[[li]]x[[/li]]\n[[/ul]]",
    "[[table]]\n[[row]]\n[[cell]]x[[/cell]]\n[[/row]]\n[[/table]]", "[[tabview]]\n[[tab a]]\nx\n[[/tab]]\n[[/tabview]]", "[[iftags +tale]]x[[/iftags]]",
    "[[iftags +zz]]x[[/iftags]]y", "[[=]]\nx\n[[/=]]", "= x", "[[math]]\nx\n[[/math]]", "[[$ x $]]", "[[lines 2]]", "[[user x]]", "@@x@@", "[[checkbox]] x",
    "[[size 2em]]x[[/size]]", "##red|x##", "[[date 0]]", "{$x}", "[[ruby]]x[[rt]]y[[/rt]][[/ruby]]", "[[char copy]]", "[!-- x --]y", "\"x\"", "``x''", "x -- y",
    "[[iframe https://e.com/]]", "[[target k]]", "[[p class=\"k\"]]\nx\n[[/p]]", "[[a href=\"/k\"]]x[[/a]]", "((bibcite x))", "[[module Rate]]",
    "nope]]", "[[nope]]", "**x", "[[/div]]", "[[[x", "|| x", "[[lines x]]", "[[*b]]x[[/b]]", "[[li]]x[[/li]]",
];

/// What can be repeated within a line, a paragraph, or a construct.
const DENSE: &[&str] = &[
    "é", "a ", "a b\n", "w. ", "é \n", "** ", "**a** ", "//a// ", "[[b]]x[[/b]] ", "[[[p|q]]] ", "[https://e.com/ x] ", "@@x@@ ", "((bibcite x)) ", "x[[footnote]]y[[/footnote]] ",
    "[!-- x --] ", "\"x\" ", "* a\n", "# a\n", " * a\n", "> a\n", "|| a || b ||\n", ": a : b\n", "+ a\n", "~~~~\n", "----\n", "[[user a]] ", "{$x} ", "##red|x## ", "{{x}} ", "-- ",
    "[[", "[[[", "]] ", "[", "((", "@@", "@< ", "]]] ", "[!-- ", "\n", "\t", " ", "= a\n", "[# x] ", "https://e.com/a ", "[[span]]a[[/span]]", "__a__", "[[$ x $]] ", "[[image a.png]] ",
    "[[checkbox]]", "[[div]]\na\n[[/div]]\n", "[[code]]\na\n[[/code]]\n", "* a\n * b\n", "> a\n>> b\n", ": a\n", "_\n", "a _\n", "a@b.c ", "\\", "\"", "|| a\n", "[[/b]]",
];

/// Those of them which look for their ends far away.
const OPENERS: &[&str] = &["[[", "[[[", "[", "((", "@@", "@< ", "[!-- "];

fn count(v: &Value, out: &mut BTreeMap<String, usize>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| count(x, out)),
        Value::Object(o) => {
            if let Some(e) = v["element"].as_str() {
                let name = if e == "container" {
                    match &v["data"]["type"] {
                        Value::String(s) => format!("container {s}"),
                        Value::Object(m) => format!("container {}", m.keys().next().cloned().unwrap_or_default()),
                        _ => "container".into(),
                    }
                } else {
                    // Also where there is no container for it.
                    e.to_string()
                };
                *out.entry(name).or_default() += 1;
            }
            o.values().for_each(|x| count(x, out));
        }
        _ => {}
    }
}

/// Bytes of HTML there may be for a source: so many for each of its own, as often as all of it is
/// shown again (contents by tables of contents, entries by citations).
fn bound(src: &str, j: &Value) -> usize {
    let mut n = BTreeMap::new();
    count(j, &mut n);
    let again = n.get("table-of-contents").copied().unwrap_or(0) + n.get("bibliography-cite").copied().unwrap_or(0);
    250 * src.len() * (1 + again) + 4000
}

fn sizes(src: &str, j: &Value, tree: &ftml::tree::SyntaxTree, env: &Env, stats: &mut Stats) -> Option<Verdict> {
    let html = pipe::html_of(tree, env);
    let text = pipe::text_of(tree, env);
    let b = bound(src, j);
    if html.body.len() > b || text.len() > b {
        return Some(fail("size", format!("{} bytes of HTML and {} of text for {} of source\n  source: {:?}", html.body.len(), text.len(), src.len(), short(src))));
    }
    let tree = j.to_string().len();
    if tree > 600 * src.len() + 4000 {
        return Some(fail("size", format!("a tree of {tree} bytes for {} of source\n  source: {:?}", src.len(), short(src))));
    }
    stats.add("bytes of source", src.len() as u64);
    stats.add("bytes of html", html.body.len() as u64);
    None
}

fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

fn recursion(errors: &[ftml::parsing::ParseError]) -> usize {
    errors.iter().filter(|e| format!("{:?}", e.kind()) == "RecursionDepthExceeded").count()
}

fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|s| s.as_str().map(String::from)).collect()
}

impl P25 {
    fn stack(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(names) = strings(&v["stack"]) else { return Verdict::Skip };
        let mut list: Vec<&Nest> = vec![];
        for n in &names {
            match NESTS.iter().find(|x| x.0 == n) {
                Some(x) => list.push(x),
                None => return Verdict::Skip,
            }
        }
        if list.is_empty() || list.len() > 400 {
            return Verdict::Skip;
        }
        let mut before = String::new();
        for b in v["before"].as_array().into_iter().flatten() {
            let (Some(s), Some(n)) = (b[0].as_str(), b[1].as_u64()) else { return Verdict::Skip };
            if !BEFORE.contains(&s) || n > 300 {
                return Verdict::Skip;
            }
            for _ in 0..n {
                before.push_str(s);
                before.push_str("\n\n");
            }
        }
        let mut src = before.clone();
        // Not the last levels' things next to the nested ones.
        let side = v["side"].as_bool().unwrap_or(false);
        for x in &list {
            src.push_str(x.1);
            if side {
                src.push_str("s ");
            }
        }
        src.push('x');
        for x in list.iter().rev() {
            src.push_str(x.2);
        }
        let src = pipe::preprocess(&src);
        let env = Env::default();
        let levels: usize = list.iter().map(|x| x.3).sum::<usize>() + 1;
        let (tree, errors) = pipe::tree_of(&src, &env);
        let j = pipe::json_of(&tree);
        if let Some(f) = sizes(&src, &j, &tree, &env, stats) {
            return f;
        }
        if levels > DEPTH {
            stats.hit("too deep");
            if recursion(&errors) != 1 || errors.len() != 1 {
                return fail("too deep", format!("{} errors for {levels} levels: {:?}\n  source: {:?}", errors.len(), errors.first(), short(&src)));
            }
            let want = json!([{"element": "text", "data": src}]);
            if j["elements"] != want {
                return fail("too deep", format!("{:?}\n  source: {:?}", diff("elements", &j["elements"], &want), short(&src)));
            }
            for k in ["footnotes", "code-blocks", "html-blocks", "table-of-contents", "bibliographies"] {
                if !j[k].as_array().is_some_and(|a| a.is_empty()) {
                    return fail("too deep", format!("{k}: {}\n  source: {:?}", j[k], short(&src)));
                }
            }
            return Verdict::Ok(true);
        }
        stats.hit("deep enough");
        stats.add("levels", levels as u64);
        if recursion(&errors) > 0 {
            return fail("limit", format!("{levels} levels are too deep for it\n  source: {:?}", short(&src)));
        }
        // Everything is there, besides what came before.
        let (t0, e0) = pipe::tree_of(&pipe::preprocess(&before), &env);
        let j0 = pipe::json_of(&t0);
        let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
        count(&j0["elements"], &mut a);
        count(&j["elements"], &mut b);
        for x in &list {
            for k in x.4 {
                *a.entry(k.to_string()).or_default() += 1;
            }
        }
        for x in &list {
            for k in x.4 {
                if a.get(*k) != b.get(*k) {
                    return fail("nesting", format!("{:?} of {k:?} instead of {:?}\n  source: {:?}", b.get(*k), a.get(*k), short(&src)));
                }
            }
        }
        if errors.len() != e0.len() {
            return fail("nesting", format!("{} errors instead of {}: {:?}\n  source: {:?}", errors.len(), e0.len(), errors.last(), short(&src)));
        }
        Verdict::Ok(true)
    }

    /// Lines of lists and quotes of some depth, and numbers of line breaks.
    fn line(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(kind), Some(n)) = (v["line"].as_str(), v["n"].as_u64()) else { return Verdict::Skip };
        let n = n as usize;
        if n > 5000 {
            return Verdict::Skip;
        }
        let (src, ok, error) = match kind {
            "*" | "#" => (format!("{}{kind} x", " ".repeat(n)), n <= LIST, "ListDepthExceeded"),
            ">" => (format!("{} x", ">".repeat(n)), n >= 1 && n <= QUOTE, "BlockquoteDepthExceeded"),
            "lines" => (format!("[[lines {n}]]"), n >= 1 && n <= LINES, "BlockMalformedArguments"),
            _ => return Verdict::Skip,
        };
        if n == 0 && kind == ">" {
            return Verdict::Skip;
        }
        let mut full = String::new();
        for _ in 0..v["times"].as_u64().unwrap_or(0).min(500) {
            full.push_str("> a\n>> b\n\n* c\n * d\n\nf\n\n");
        }
        // Spaces at a text's start aren't there after preprocessing.
        full.push_str("before\n\n");
        full.push_str(&src);
        if kind == "lines" {
            full.push_str("z");
        }
        let full = pipe::preprocess(&full);
        let env = Env::default();
        let (tree, errors) = pipe::tree_of(&full, &env);
        let j = pipe::json_of(&tree);
        if let Some(f) = sizes(&full, &j, &tree, &env, stats) {
            return f;
        }
        let last = &j["elements"].as_array().and_then(|a| a.iter().rev().nth(1)).cloned().unwrap_or_default();
        let what = format!("{last}");
        let (there, depth) = match kind {
            "*" | "#" => (what.contains("\"list\""), what.matches("\"item-type\"").count()),
            ">" => (what.contains("blockquote"), what.matches("\"blockquote\"").count()),
            _ => (what.contains("line-breaks"), 0),
        };
        if there != ok {
            return fail("line", format!("{} though {} is {} the limit\n  source: {:?}", if there { "accepted" } else { "refused" }, n, if ok { "within" } else { "beyond" }, short(&full)));
        }
        if ok {
            if !errors.is_empty() {
                return fail("line", format!("{:?}\n  source: {:?}", errors[0], short(&full)));
            }
            if (kind == ">" && depth != n) || ((kind == "*" || kind == "#") && depth != n + 1) {
                return fail("line", format!("a depth of {depth} for {n}\n  source: {:?}", short(&full)));
            }
            if kind == "lines" && !what.contains(&format!("\"data\":{n}")) {
                return fail("line", format!("{what} for {n} lines"));
            }
        } else if n > 0 || kind == "lines" {
            let kinds: Vec<String> = errors.iter().map(|e| format!("{:?}", e.kind())).collect();
            // Lists and quotes fall back to text, which drops their errors.
            if kind == "lines" && !kinds.iter().any(|k| k == error) {
                return fail("line", format!("{kinds:?} without {error}\n  source: {:?}", short(&full)));
            }
            if !what.contains('x') && kind != "lines" {
                return fail("line", format!("the text is gone: {what}\n  source: {:?}", short(&full)));
            }
        }
        stats.hit(if ok { "lines within limits" } else { "lines beyond limits" });
        Verdict::Ok(true)
    }

    /// Units again and again.
    fn repeat(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(units), Some(n)) = (strings(&v["units"]), v["n"].as_u64()) else { return Verdict::Skip };
        if units.is_empty() || units.iter().any(|u| !UNITS.contains(&u.as_str())) || n > 4000 {
            return Verdict::Skip;
        }
        let env = Env::default();
        let once = units.join("\n\n");
        // Lists of any kind go on after blank lines.
        let src = vec![once.clone(); n as usize].join("\n\n");
        let (t1, e1) = pipe::tree_of(&pipe::preprocess(&once), &env);
        let j1 = pipe::json_of(&t1);
        let src = pipe::preprocess(&src);
        let start = Instant::now();
        let (tree, errors) = pipe::tree_of(&src, &env);
        let took = start.elapsed();
        let j = pipe::json_of(&tree);
        if let Some(f) = sizes(&src, &j, &tree, &env, stats) {
            return f;
        }
        // All of the elements, again and again.
        let strip = |j: &Value| {
            let mut a = j["elements"].as_array().cloned().unwrap_or_default();
            a.pop();
            a
        };
        let one = strip(&j1);
        let mut want: Vec<Value> = vec![];
        for _ in 0..n {
            want.extend(one.iter().cloned());
        }
        let want = merged(&Value::Array(want));
        if let Some(d) = diff("elements", &merged(&Value::Array(strip(&j))), &want) {
            return fail("repeated", format!("{d}\n  {n} times {once:?}"));
        }
        if errors.len() != e1.len() * n as usize {
            return fail("repeated", format!("{} errors instead of {} times {}\n  {n} times {once:?}", errors.len(), n, e1.len()));
        }
        for k in ["footnotes", "code-blocks", "html-blocks"] {
            let (a, b) = (j[k].as_array().map_or(0, |a| a.len()), j1[k].as_array().map_or(0, |a| a.len()));
            if a != b * n as usize {
                return fail("repeated", format!("{a} {k} instead of {n} times {b}\n  {n} times {once:?}"));
            }
        }
        stats.add("units repeated", n * units.len() as u64);
        stats.add("ms parsing repeated", took.as_millis() as u64);
        Verdict::Ok(n > 1)
    }

    /// How the time grows with the length: `a` of a thing take so long, and `b` of them.
    fn length(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(unit), Some(a), Some(b)) = (v["grow"].as_str(), v["from"].as_u64(), v["to"].as_u64()) else { return Verdict::Skip };
        if unit.is_empty() || unit.len() > 200 || a < 50 || b < 20 * a || b as usize * unit.len() > 100_000 {
            return Verdict::Skip;
        }
        let env = Env::default();
        let time = |n: u64, tries: usize| {
            let src = unit.repeat(n as usize);
            let mut best = f64::MAX;
            for _ in 0..tries {
                let t = Instant::now();
                let _ = pipe::tree_of(&src, &env);
                best = best.min(t.elapsed().as_secs_f64());
            }
            best
        };
        let bound = 6.0 * b as f64 / a as f64;
        let (x, mut y) = (time(a, 5), time(b, 1));
        if y > bound * x {
            y = y.min(time(b, 2));
        }
        stats.hit("growth with length measured");
        if std::env::var("FTML_MON_GROWTH").is_ok() {
            eprintln!("{:8.2} {x:.5} {y:.5} {unit:?}", y / x * a as f64 / b as f64);
        }
        if y > 0.05 && y > bound * x {
            return fail("time", format!("{a} times {unit:?} take {x:.5} s, {b} of them {y:.3} s"));
        }
        Verdict::Ok(true)
    }

    /// How the time grows with the depth of constructs without ends.
    fn growth(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(pair), Some(a), Some(b)) = (strings(&v["open"]), v["from"].as_u64(), v["to"].as_u64()) else { return Verdict::Skip };
        if pair.is_empty() || a == 0 || b <= a || b > 20 {
            return Verdict::Skip;
        }
        let env = Env::default();
        let time = |n: u64| {
            let src: String = (0..n).map(|i| pair[i as usize % pair.len()].as_str()).collect();
            let mut best = f64::MAX;
            for _ in 0..3 {
                let t = Instant::now();
                let _ = pipe::tree_of(&src, &env);
                best = best.min(t.elapsed().as_secs_f64());
                if best > 0.5 {
                    break;
                }
            }
            best
        };
        let (x, y) = (time(a), time(b));
        stats.hit("growth measured");
        // Twice the depth may take eight times as long and then some, but not more than that.
        if y > 0.02 && y / x > 16.0 * (b as f64 / a as f64).powi(3) {
            return fail("time", format!("{a} of {pair:?} without ends take {x:.5} s, {b} of them {y:.3} s"));
        }
        Verdict::Ok(true)
    }
}

impl Prop for P25 {
    fn id(&self) -> &'static str {
        "P25"
    }
    fn rule(&self) -> &'static str {
        "stacks of 21 constructs alone to 1..130 levels and random mixtures around the limit of 100, after up to hundreds of 77 complete and broken things; list, quote and lines depths around their limits; 58 units repeated up to thousands of times; oracle: levels within the limit are all in the tree with no new error, beyond it the source is one text with one recursion error; repetition repeats the tree; HTML, text and tree sizes within a multiple of the source's; each of 200 things, and mixtures of them, repeated 20 times as often takes at most 120 times as long; a hang is a violation; non-trivial: any of these"
    }
    fn hang_is_violation(&self) -> bool {
        true
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 3_500,
            Tier::Thorough => 300_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        out.push(json!({"open": ["[[div]]a ", "[[span]] b "], "from": 8, "to": 16}));
        for x in NESTS {
            let n = DEPTH / x.3;
            for k in [1, 2, 5, 20, n - 2, n - 1, n, n + 1, 130] {
                out.push(json!({"stack": vec![x.0; k]}));
                out.push(json!({"stack": vec![x.0; k], "side": true}));
            }
        }
        for b in BEFORE {
            for k in [98, 99, 100] {
                out.push(json!({"stack": vec!["span"; k], "before": [[b, 1]]}));
                out.push(json!({"stack": vec!["div"; k], "before": [[b, 110]]}));
            }
        }
        for kind in ["*", "#", ">", "lines"] {
            for n in 0..130 {
                out.push(json!({"line": kind, "n": n}));
            }
            out.push(json!({"line": kind, "n": 4000}));
            for n in [1, LIST - 1, LIST, LIST + 1, QUOTE, QUOTE + 1, LINES, LINES + 1] {
                out.push(json!({"line": kind, "n": n, "times": 150}));
            }
        }
        for u in UNITS.iter().chain(BEFORE) {
            out.push(json!({"grow": format!("{u}\n\n"), "from": 50, "to": 1000}));
        }
        for u in DENSE {
            // Openers which look for their ends up to the end of the line or the text.
            let open = *u == "@< " || *u == "[!-- ";
            out.push(json!({"grow": u, "from": 200, "to": if open { 10_000 } else { 4000 }}));
        }
        for u in UNITS {
            for n in [2, 101, 500] {
                out.push(json!({"units": [u], "n": n}));
            }
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        if r.chance(1, 4) {
            let n = r.range(1, 4);
            let units: Vec<String> = (0..n).map(|_| r.s(UNITS)).collect();
            let n = [3, 30, 120, 150 * t.scale() * n][r.below(4)];
            return json!({"units": units, "n": n});
        }
        if r.chance(1, 40) {
            let mut unit = String::new();
            for _ in 0..r.range(1, 5) {
                match r.below(3) {
                    0 => unit.push_str(&r.s(UNITS)),
                    1 => unit.push_str(&r.s(BEFORE)),
                    _ => {
                        let d = r.s(DENSE);
                        unit.push_str(if OPENERS.contains(&d.as_str()) { "é" } else { &d });
                    }
                }
                unit.push_str(&r.s(&["\n\n", "\n\n", "\n", " ", ""]));
            }
            unit.push_str("\n\n");
            return json!({"grow": unit, "from": 50, "to": 1000});
        }
        let line = r.chance(1, 3);
        let goal = match r.below(5) {
            0 => r.range(1, 60),
            1 => 99,
            2 => 98,
            3 => 100,
            _ => r.range(90, 110),
        };
        let mut names = vec![];
        let mut sum = 0;
        let few: Vec<&Nest> = (0..r.range(1, 6)).map(|_| &NESTS[r.below(NESTS.len())]).collect();
        while sum < goal {
            let x = r.pick(&few);
            let x = if (line && !x.5) || sum + x.3 > goal { &NESTS[2] } else { x };
            names.push(x.0);
            sum += x.3;
        }
        let mut before = vec![];
        for _ in 0..r.below(5) {
            let n = [1, 1, 2, 10, 60, 120][r.below(6)];
            let what = r.s(BEFORE);
            before.push(json!([what, n]));
        }
        let side = r.coin();
        json!({"stack": names, "before": before, "side": side})
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if v["stack"].is_array() {
            self.stack(v, stats)
        } else if v["line"].is_string() {
            self.line(v, stats)
        } else if v["units"].is_array() {
            self.repeat(v, stats)
        } else if v["grow"].is_string() {
            self.length(v, stats)
        } else {
            self.growth(v, stats)
        }
    }
}
