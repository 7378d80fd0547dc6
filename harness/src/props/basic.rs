//! Properties decided on hostile input: P01 P02 P03 P04 P05 P18 P24.

use crate::gen::big;
use crate::gen::soup::{self, Cfg};
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::prelude::*;
use serde_json::{json, Value};
use std::borrow::Cow;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P01, &P02, &P03, &P04, &P05, &P18, &P24]
}

/// Hostile text of every sort. Bounded in what makes retries expensive.
pub fn hostile(r: &mut Rng, tier: Tier) -> String {
    if r.chance(1, 150) {
        let s = big::source(r);
        if !soup::risky(&s) {
            return s;
        }
    }
    for _ in 0..20 {
        let s = match r.below(10) {
            0..=4 => {
                let cfg = Cfg {
                    size: 8 * tier.scale(),
                    budget: 5,
                    ..Cfg::default()
                };
                soup::soup(r, &cfg)
            }
            5..=7 => soup::mutant(r),
            _ => soup::chars(r, 40 * tier.scale()),
        };
        if !soup::risky(&s) {
            return s;
        }
    }
    soup::chars(r, 10)
}

pub fn envs(r: &mut Rng) -> Env {
    if r.chance(1, 3) {
        Env::random(r)
    } else {
        Env::default()
    }
}

pub fn get_env(v: &Value) -> Option<Env> {
    match v.get("env") {
        None => Some(Env::default()),
        Some(e) => serde_json::from_value(e.clone()).ok(),
    }
}

// P01

/// Inputs that once broke the pipeline; kept as regression cases.
pub const REGRESSIONS: &[&str] = &[
    "))",
    "a )) b ((bibcite x",
    "((foo bar))",
    "((bibcite x))\n\n[[bibliography]]\n: x : a((bibcite x))\n[[/bibliography]]",
    "[[bibliography]]\n: x : a((bibcite x))[[footnote]]b[[/footnote]]\n[[/bibliography]]\n\n((bibcite x))",
    "[http://example.com/ ]",
    "[#x ]",
    "[[li]]a[[/li]]",
    "[[ul]][[div]][[li]]a[[/li]][[/div]][[/ul]]",
    "[[table]][[row]][[b]][[cell]]a[[/cell]][[/b]][[/row]][[/table]]",
    "[[tabview]][[tab x]]a[[/tab]][[div]][[tab y]]b[[/tab]][[/div]][[/tabview]]",
    "[[a__]]", "[[div__]]x[[/div]]", "[[*user_ x]]", "[[div_]]x[[/div_]]", "[[_]]", "[[__]]",
    "[[rt]]a[[/rt]]",
    "[[tab x]]y[[/tab]]",
    "[[ruby]][[span]][[rt]]x[[/rt]][[/span]][[/ruby]]",
    "[[footnote]]a[[footnote]]b[[/footnote]][[/footnote]]",
    "[[footnote]]a[[footnoteblock]][[/footnote]]",
    "[[footnote]][[footnoteblock]][[/footnote]]",
    "[[footnote]][[bibliography]]\n: a : [[footnoteblock]]\n[[/bibliography]][[/footnote]]",
    "[[footnote]]((bibcite a))[[/footnote]]\n\n[[bibliography]]\n: a : x[[footnoteblock]]\n\n[[/bibliography]]",
    "[[p]][[invisible]]\n> e\n[[/invisible]][[/p]]",
    "[[code name=\"x\"]]a[[/code]][[code name=\"x\"]]b[[/code]]",
    "[[span data-\u{85}=\"x\"]]a[[/span]]",
    "[[span a\u{a0}b=\"x\"]]a[[/span]]",
    "[[span ab\"c\"=\"x\"]]a[[/span]]",
    "* a\n* b\n*c",
    "+ a\n++ b\n+++++++ c",
    "++a\n+ \n",
    "[[date 99999999999999999]]",
    "[[date -1]]",
    "[[date 2020-13-45]]",
    "[[date 0 format=\"%\"]]",
    "[[date 0 tz=\"+99\"]]",
    "[[date 0 tz=\"x\"]]",
    "[[date 1600000000 format=\"%Q %E %-\"]]",
    "[[lines 4294967296]]",
    "[[char #xD800]]",
    "[[size \"]]x[[/size]]",
    "[[module CSS]]\n@import url(x); } </style><script>\n[[/module]]",
    "[[iftags]]a[[/iftags]]",
    "[[iftags + - ]]a[[/iftags]]",
    "[[invisible]]((bibcite a)) [[date 0]] [[eref x]] {$v}[[/invisible]]",
    "[[bibliography]]\n[[/bibliography]]",
    "[[user ]]",
    "[[user]]",
    "[[*user *]]",
    "[[[|]]]",
    "[[[]]]",
    "[[[:]]]",
    "[[[::]]]",
    "[[[:x:]]]",
    "[[[#]]]",
    "[[[!]]]",
    "[[[!:|]]]",
    "[!: x]",
    "[[image :]]",
    "[[image /]]",
    "[[image ///]]",
    "[[include]]",
    "[[include \n]]",
    "[[include-elements :]]",
    "{$}",
    "{$a}{$b",
    "\"",
    "[[div class=\"\\\"]]x[[/div]]",
    "[[div class=\"\\n\\q\"]]x[[/div]]",
    "@@", "@@@@", "@@@@@", "@@@@@@", "@<", ">@", "@<>@", "@<@<>@>@",
    "[!--", "[!-- --", "--]",
    "[[$", "[[$$]]", "[[$ $]]", "$]]",
    "##", "##|##", "##a|##", "##|a##", "###fff|a##", "##ffff|x##",
    ": a : ", ": : b", ":", ": a", ": a :", ": a : b\n: c : d",
    "||", "||||", "|| ||", "||a||\n||", "||~||", "||||||||x||",
    ">", "> ", ">>", ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> a",
    "                                  * a",
    " * a\n* b\n   * c\n # d",
    "= ", "=", "= a", "~~~~", "~~~~x", "-----x",
    "[[embed]]", "[[embed youtube]]", "[[embed youtube video=\"\"]]",
    "[[iframe]]", "[[iframe x]]",
    "[[collapsible hideLocation=\"x\"]]a[[/collapsible]]",
    "[[toc]]\n\n+ \n\n++ a",
    "a[[footnote]]\n[[/footnote]]",
    "[[html]][[/html]]", "[[code]][[/code]]", "[[math]][[/math]]",
    "[[/", "[[/]]", "[[/div", "[[", "]]", "[[*", "[[# ", "[[#]]", "[[# ]]", "[[div", "[[div ", "[[div a", "[[div a=", "[[div a=\"",
    "[# a]", "[#", "[* a]", "[*", "[a]", "[/a]", "[/a b]",
    "\u{feff}", "\0", "\n", "\n\n", " ", "\r",
];

struct P01;

/// An includer which answers with hostile pages, or with an invalid answer.
struct HostileIncluder {
    pages: Vec<String>,
    mode: u64,
}

impl<'t> Includer<'t> for HostileIncluder {
    type Error = String;
    fn include_pages(&mut self, inc: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, String> {
        if self.mode == 3 {
            return Err("no".into());
        }
        let mut v: Vec<FetchedPage<'t>> = inc
            .iter()
            .enumerate()
            .map(|(i, x)| FetchedPage {
                page_ref: x.page_ref().clone(),
                content: self.pages.get(i).map(|s| Cow::Owned(s.clone())),
            })
            .collect();
        match self.mode {
            1 => {
                v.pop();
            }
            2 => v.reverse(),
            _ => {}
        }
        Ok(v)
    }
    fn no_such_include(&mut self, p: &PageRef<'t>) -> Result<Cow<'t, str>, String> {
        if self.mode == 4 {
            return Err("missing".into());
        }
        Ok(Cow::Owned(format!("missing {p}")))
    }
}

fn full_pipeline(src: &str, env: &Env, stats: &mut Stats) -> usize {
    let tok = ftml::tokenize(src);
    let info = env.info();
    let settings = env.settings();
    let (tree, errors) = ftml::parse(&tok, &info, &settings).into();
    stats.add("tokens", tok.tokens().len() as u64);
    stats.add("errors", errors.len() as u64);
    stats.add("elements", tree.elements.len() as u64);
    for e in &errors {
        stats.hit(&format!("error {}", e.kind().name()));
    }
    let text = pipe::text_of(&tree, env);
    let html = pipe::html_of(&tree, env);
    let _ = ftml::render::debug::DebugRender.render(&tree, &info, &settings);
    let owned = tree.to_owned();
    let json = serde_json::to_string(&tree).expect("serializing a tree");
    let _ = serde_json::to_string(&errors).expect("serializing errors");
    let _ = serde_json::to_string(&html).expect("serializing output");
    let map = ftml::Utf16IndexMap::new(src);
    for t in tok.tokens() {
        let _ = t.to_utf16_indices(&map);
    }
    for e in &errors {
        let _ = e.to_utf16_indices(&map);
    }
    // The renderers have to cope with the copy and with a tree of the other settings too.
    let mut other = env.clone();
    other.true_ids = !env.true_ids;
    other.minify = !env.minify;
    other.lang = "fr".into();
    let _ = pipe::html_of(&owned, &other);
    text.len() + html.body.len() + json.len()
}

impl Prop for P01 {
    fn id(&self) -> &'static str {
        "P01"
    }
    fn rule(&self) -> &'static str {
        "hostile text (construct soup, mutated fixtures, arbitrary characters, deep nesting) under random settings, page info and includers, with and without a logger, through include, preprocess, tokenize, parse, all renderers, serialization, copying and UTF-16 conversion, built with overflow checks and debug assertions; non-trivial: the text has markup tokens"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn stack(&self) -> usize {
        8 << 20
    }
    fn hang_is_violation(&self) -> bool {
        true
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.extend(crate::gen::corpus().iter().map(|s| json!({ "src": s })));
        v.extend(crate::gen::corpus().iter().filter(|s| s.len() < 2000).map(|s| json!({"src": s, "log": true})));
        // Every block with every combination of flags and several heads.
        for (names, template, _) in super::wellformed::NAMES {
            let name = names[0].trim_start_matches('*');
            let Some(a) = template.find("[[%").or(template.find("[[*%")) else { continue };
            let Some(b) = template[a..].find("]]") else { continue };
            for flags in ["", "*", "_", "*_", "+", "/", "#"] {
                for head in ["", " ", "_", "_ ", " x", " x=\"y\"", " x y=\"z\"", " \"", " ="] {
                    for tail in ["", "]", "]]", "]]x", "]]\n", &template[a + b..]] {
                        v.push(json!({"src": format!("{}[[{flags}{name}{head}{}", &template[..a], tail.replace('%', name))}));
                    }
                }
            }
        }
        // Properly closed nesting, within and beyond the recursion limit.
        for (a, b) in NESTS {
            for n in [5, 20, 40, 80, 99, 101, 150, 400] {
                let n = n.min(if a.len() > 20 { 150 } else { 400 });
                v.push(json!({"src": format!("{}x{}", a.repeat(n), b.repeat(n))}));
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let src = hostile(r, tier);
        let env = envs(r);
        let mut v = json!({"src": src, "pre": r.coin()});
        if src.len() < 600 && r.chance(1, 6) {
            v["log"] = json!(true);
        }
        if env != Env::default() {
            v["env"] = serde_json::to_value(&env).unwrap();
        }
        if r.chance(1, 5) {
            let pages: Vec<String> = (0..r.below(3)).map(|_| hostile(r, Tier::Quick)).collect();
            v["inc"] = json!({"pages": pages, "mode": r.below(6), "head": r.s(&["[[include k]]", "[[include :s:p a=b | c=d]]", "[[include k |x=[[y]] |", "[[INCLUDE \n k\n]]", "[[include k a={$a}]]"])});
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        let before = pipe::LOGGED[0].load(std::sync::atomic::Ordering::Relaxed);
        let out = pipe::logged(v["log"] == true, || self.all(v, src, &env, stats));
        stats.add("log messages", pipe::LOGGED[0].load(std::sync::atomic::Ordering::Relaxed) - before);
        out
    }
}

impl P01 {
    fn all(&self, v: &Value, src: &str, env: &Env, stats: &mut Stats) -> Verdict {
        let mut text = src.to_string();
        if let Some(inc) = v.get("inc") {
            let pages = inc["pages"]
                .as_array()
                .map(|a| a.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect())
                .unwrap_or_default();
            let input = format!("{}\n{text}\n{}", inc["head"].as_str().unwrap_or(""), inc["head"].as_str().unwrap_or(""));
            let i = HostileIncluder {
                pages,
                mode: inc["mode"].as_u64().unwrap_or(0),
            };
            let res = ftml::include(&input, &env.settings(), i, || "invalid".to_string());
            stats.hit(if res.is_ok() { "include ok" } else { "include err" });
            if let Ok((t, _)) = res {
                text = t;
            }
        }
        if v["pre"].as_bool().unwrap_or(false) {
            ftml::preprocess(&mut text);
        } else {
            // Preprocessing alone has to survive it too.
            let mut t = text.clone();
            ftml::preprocess(&mut t);
        }
        let n = full_pipeline(&text, env, stats);
        stats.add("output bytes", n as u64);
        Verdict::Ok(text.contains(|c: char| "[*/_#@|>+=:".contains(c)))
    }
}

pub const NESTS: &[(&str, &str)] = &[
    ("[[div]]\n", "\n[[/div]]"),
    ("[[span]]", "[[/span]]"),
    ("[[b]]", "[[/b]]"),
    ("[[blockquote]]\n", "\n[[/blockquote]]"),
    ("[[collapsible]]\n", "\n[[/collapsible]]"),
    ("[[iftags +tale]]", "[[/iftags]]"),
    ("[[ul]][[li]]", "[[/li]][[/ul]]"),
    ("[[table]][[row]][[cell]]", "[[/cell]][[/row]][[/table]]"),
    ("[[tabview]][[tab x]]", "[[/tab]][[/tabview]]"),
    ("[[size 90%]]", "[[/size]]"),
    ("[[=]]\n", "\n[[/=]]"),
    ("> ", ""),
    (">", ""),
    ("[", "]"),
    ("((", "))"),
    ("@<", ">@"),
    ("[!-- ", " --]"),
    ("{$", "}"),
];

// P02

struct P02;

fn token_shape(tok: &str, s: &str) -> bool {
    let rep = |c: char, n: usize| s.chars().all(|x| x == c) && s.chars().count() >= n;
    let blank = |c: char| c == ' ' || c == '\t';
    let nl = |s: &str| matches!(s, "\n" | "\r\n" | "\r");
    match tok {
        "InputStart" | "InputEnd" => s.is_empty(),
        "LeftBracket" => s == "[",
        "LeftBracketAnchor" => s == "[#",
        "LeftBracketStar" => s == "[*",
        "RightBracket" => s == "]",
        "LeftBlock" => s == "[[",
        "LeftBlockEnd" => s == "[[/",
        "LeftBlockAnchor" => s == "[[#",
        "LeftBlockStar" => s == "[[*",
        "LeftMath" => s == "[[$",
        "LeftParentheses" => s == "((",
        "RightBlock" => s == "]]",
        "RightMath" => s == "$]]",
        "RightParentheses" => s == "))",
        "DoubleDash" => s == "--",
        "TripleDash" => rep('-', 3),
        "DoubleTilde" => s == "~~",
        "LeftDoubleAngle" => s == "<<",
        "ClearFloatBoth" => rep('~', 3),
        "ClearFloatLeft" => s.strip_suffix('<').is_some_and(|p| p.len() >= 3 && p.chars().all(|c| c == '~')),
        "ClearFloatRight" => s.strip_suffix('>').is_some_and(|p| p.len() >= 3 && p.chars().all(|c| c == '~')),
        "Pipe" => s == "|",
        "Equals" => s == "=",
        "Colon" => s == ":",
        "Underscore" => s == "_",
        "Quote" => rep('>', 1),
        "Heading" => {
            let p = s.strip_suffix('*').unwrap_or(s);
            (1..=6).contains(&p.len()) && p.chars().all(|c| c == '+')
        }
        "LineBreak" => nl(s),
        "ParagraphBreak" => {
            let t = s.replace("\r\n", "\n").replace('\r', "\n");
            t.len() >= 2 && t.chars().all(|c| c == '\n')
        }
        "Whitespace" => !s.is_empty() && s.chars().all(blank),
        "Bold" => s == "**",
        "Italics" => s == "//",
        "Underline" => s == "__",
        "Superscript" => s == "^^",
        "Subscript" => s == ",,",
        "LeftMonospace" => s == "{{",
        "RightMonospace" => s == "}}",
        "Color" => s == "##",
        "Raw" => s == "@@",
        "LeftRaw" => s == "@<",
        "RightRaw" => s == ">@",
        "BulletItem" => s == "*",
        "NumberedItem" => s == "#",
        "LeftLink" => s == "[[[",
        "LeftLinkStar" => s == "[[[*",
        "RightLink" => s == "]]]",
        "TableColumn" => s == "||",
        "TableColumnLeft" => s == "||<",
        "TableColumnRight" => s == "||>",
        "TableColumnCenter" => s == "||=",
        "TableColumnTitle" => s == "||~",
        "Identifier" => !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric()),
        "Email" => {
            // something @ something . something, without blanks
            let Some(at) = s.find('@').filter(|_| !s.contains(|c| blank(c) || c == '\n' || c == '\r')) else {
                return false;
            };
            let rest = &s[at + 1..];
            at > 0 && rest.find('.').is_some()
        }
        "Url" => {
            ["http://", "https://", "ftp://"]
                .iter()
                .any(|p| s.strip_prefix(p).is_some_and(|r| !r.is_empty()))
                && !s.contains(|c| matches!(c, '\n' | '\r' | ' ' | '|' | '[' | ']'))
        }
        "Variable" => s
            .strip_prefix("{$")
            .and_then(|s| s.strip_suffix('}'))
            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric())),
        "String" => {
            // One quoted string: the closing quote is the first one that isn't escaped.
            let mut it = s.char_indices();
            if it.next().map(|(_, c)| c) != Some('"') {
                return false;
            }
            let mut esc = false;
            for (i, c) in it {
                if c == '\n' {
                    return false;
                }
                if esc {
                    esc = false;
                } else if c == '\\' {
                    esc = true;
                } else if c == '"' {
                    return i + 1 == s.len();
                }
            }
            false
        }
        "LeftComment" => s == "[!--",
        "RightComment" => s == "--]",
        "Other" => s.chars().count() == 1,
        _ => false,
    }
}

pub fn check_tokens(src: &str, stats: &mut Stats) -> Verdict {
    let tok = ftml::tokenize(src);
    let ts = tok.tokens();
    let show = || format!("{:?}", ts.iter().take(40).collect::<Vec<_>>());
    if ts.len() < 2 {
        return fail("catch-all", show());
    }
    let name = |i: usize| format!("{:?}", ts[i].token);
    if name(0) != "InputStart" || ts[0].span != (0..0) {
        return fail("start", show());
    }
    let last = ts.len() - 1;
    if name(last) != "InputEnd" || ts[last].span != (src.len()..src.len()) {
        return fail("end", show());
    }
    let mut pos = 0;
    for i in 0..ts.len() {
        let t = &ts[i];
        let n = name(i);
        if i != 0 && i != last {
            if n == "InputStart" || n == "InputEnd" {
                return fail("stray-boundary", show());
            }
            if t.span.start != pos || t.span.end <= t.span.start || t.span.end > src.len() {
                return fail("gap", format!("token {i} {t:?}, expected start {pos}: {}", show()));
            }
            if !src.is_char_boundary(t.span.start) || !src.is_char_boundary(t.span.end) {
                return fail("boundary", format!("{t:?}"));
            }
            pos = t.span.end;
        }
        if &src[t.span.clone()] != t.slice {
            return fail("slice", format!("{t:?}"));
        }
        // A single "other" character may be longer than one `char`? No: exactly one.
        if !token_shape(&n, t.slice) {
            return fail("shape", format!("token {i} {t:?}"));
        }
        stats.hit(&format!("token {n}"));
    }
    if pos != src.len() {
        return fail("uncovered", format!("tokens end at {pos} of {}", src.len()));
    }
    Verdict::Ok(ts.len() > 3)
}

impl Prop for P02 {
    fn id(&self) -> &'static str {
        "P02"
    }
    fn rule(&self) -> &'static str {
        "hostile text and arbitrary character strings, each token checked for position, coverage and the shape of its kind; non-trivial: more than one token"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 250_000,
            Tier::Thorough => 12_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.extend(crate::gen::corpus().iter().map(|s| json!({ "src": s })));
        // Every ordered pair and many triples of token spellings.
        for a in soup::TOKENS {
            for b in soup::TOKENS {
                v.push(json!({"src": format!("{a}{b}")}));
                v.push(json!({"src": format!("x{a}{b}y\"z")}));
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let src = if r.coin() {
            let mut s = soup::chars(r, 60);
            if r.chance(1, 4) {
                s.insert(0, '"');
            }
            s
        } else {
            hostile(r, tier)
        };
        json!({ "src": src })
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        match v["src"].as_str() {
            Some(s) => check_tokens(s, stats),
            None => Verdict::Skip,
        }
    }
}

// P03

struct P03;

/// The documented substitutions, written out by hand over characters.
pub fn ref_preprocess(src: &str) -> String {
    // DOS and legacy Mac newlines
    let mut t: Vec<char> = vec![];
    let mut it = src.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            t.push('\n');
        } else {
            t.push(c);
        }
    }
    // Leading non-breaking (and figure) spaces of each line
    let mut at_start = true;
    for c in t.iter_mut() {
        if at_start && (*c == '\u{a0}' || *c == '\u{2007}') {
            *c = ' ';
        } else {
            at_start = *c == '\n';
        }
    }
    // Lines of only blanks; runs of them become one empty line
    let mut out: Vec<char> = vec![];
    let mut i = 0;
    while i < t.len() {
        let line_start = i == 0 || t[i - 1] == '\n';
        if line_start && t[i].is_whitespace() {
            let mut q = i;
            while q < t.len() && t[q].is_whitespace() {
                q += 1;
            }
            let end = if q == t.len() {
                Some(q)
            } else {
                (i + 1..q).rev().find(|&k| t[k] == '\n')
            };
            if let Some(e) = end {
                i = e;
                if i < t.len() {
                    out.push(t[i]);
                    i += 1;
                }
                continue;
            }
        }
        out.push(t[i]);
        i += 1;
    }
    // Joined lines, tabs, null characters
    let t = out;
    let mut s = String::new();
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            '\\' if t.get(i + 1) == Some(&'\n') => {
                i += 2;
                continue;
            }
            '\t' => s.push_str("    "),
            '\0' => s.push(' '),
            c => s.push(c),
        }
        i += 1;
    }
    let s = s.trim_matches('\n').to_string();
    let s = surround(&s, "``", "''", '\u{201c}', '\u{201d}');
    let s = surround(&s, ",,", "''", '\u{201e}', '\u{201d}');
    let s = surround(&s, "`", "'", '\u{2018}', '\u{2019}');
    // Ellipses: exactly three dots, or three spaced ones
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    // The character before may not be part of the previous replacement.
    let mut free = true;
    while i < c.len() {
        let before = i == 0 || (free && c[i - 1] != '.');
        let m = [&['.', '.', '.'][..], &['.', ' ', '.', ' ', '.'][..]]
            .into_iter()
            .find(|p| c[i..].starts_with(p));
        match m {
            Some(p) if before && c.get(i + p.len()) != Some(&'.') => {
                out.push('\u{2026}');
                i += p.len();
                free = false;
            }
            _ => {
                out.push(c[i]);
                i += 1;
                free = true;
            }
        }
    }
    out
}

fn surround(s: &str, open: &str, close: &str, a: char, b: char) -> String {
    let mut out = String::new();
    let mut rest = s;
    loop {
        let Some(p) = rest.find(open) else { break };
        let inner = &rest[p + open.len()..];
        let line = &inner[..inner.find('\n').unwrap_or(inner.len())];
        match line.find(close) {
            Some(q) => {
                out.push_str(&rest[..p]);
                out.push(a);
                out.push_str(&inner[..q]);
                out.push(b);
                rest = &inner[q + close.len()..];
            }
            None => {
                // This opener has no end on its line; the next may start one byte later.
                let step = open.chars().next().unwrap().len_utf8();
                out.push_str(&rest[..p + step]);
                rest = &rest[p + step..];
            }
        }
    }
    out.push_str(rest);
    out
}

impl Prop for P03 {
    fn id(&self) -> &'static str {
        "P03"
    }
    fn rule(&self) -> &'static str {
        "texts dense in newlines, blanks, tabs, nulls, backslashes, quotes and dots, compared with an independent hand-written reference, and texts without any of these compared with themselves; non-trivial: the text is changed"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        // Every string of up to 5 characters over the characters that matter most.
        let al = ["\n", " ", ".", "`", "'", ",", "\\", "\r", "a", "\t", "\u{a0}"];
        let mut v = vec![];
        let mut cur = vec![String::new()];
        for _ in 0..3 {
            let mut next = vec![];
            for c in &cur {
                for a in al {
                    next.push(format!("{c}{a}"));
                }
            }
            v.extend(next.iter().map(|s| json!({ "src": s })));
            cur = next;
        }
        for s in ["... . . . ... .... . . .. ..", ". . . . . .", "``a'' ``b\n''", "``a''' `b''", ",,a,,b''c''", "`a``b''c'", "\u{2007}\u{a0} x\n\u{a0}", "\n\n \n\\\n\n x \\\\\n", "a\\\r\nb", "a\\\n\n\n b", "x\u{85}\n\u{2028}\ny"] {
            v.push(json!({ "src": s }));
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        if r.chance(1, 6) {
            return json!({"src": hostile(r, tier)});
        }
        let plain = r.chance(1, 6);
        let n = r.range(1, 24 * tier.scale());
        let mut s = String::new();
        for _ in 0..n {
            if plain {
                s.push_str(r.pick(&["a", "b c", ".", "..", "x", "é", " . ", "[[", "**", "'", "''", ",", "a\nb", "a\n\nb", "中", "\u{a0}x", "\\", "....", "--", "...."]));
                if s.contains("...") || s.contains(". . .") || s.contains(",,") || s.contains("\\\n") {
                    s.push('z');
                }
            } else {
                s.push_str(r.pick(&[
                    "\n", "\n", "\r\n", "\r", "\n\n\n", " ", "  ", "\t", "\0", "\\", "\\\n", "\\\r\n", "``", "''", "`", "'", ",,",
                    ",", ".", "..", "...", ". . .", ". .", " .", "....", "a", "b c", "é", "\u{a0}", "\u{2007}", "\n\u{a0}", "\n\u{2007}\u{a0} ",
                    "\u{2028}", "\u{85}", "\u{3000}", "\u{1f600}", "“", "…", "[!--", "--]", "„", "\n \n", "\n\t\n", "\u{b}", "\u{feff}",
                ]));
                if r.chance(1, 600) {
                    let last = r.pick(&["\n", "\r\n", "\r", " ", "\t", "\0", "\\\n", "`", "'", ",", ".", ". ", "a", "é", "\n\u{a0}", " \n", "``a''"]);
                    s.push_str(&last.repeat(big::count(r)));
                }
            }
        }
        json!({ "src": s })
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(src) = v["src"].as_str() else {
            return Verdict::Skip;
        };
        let got = pipe::preprocess(src);
        let want = ref_preprocess(src);
        if got != want {
            return fail("differs", format!("got  {got:?}\nwant {want:?}"));
        }
        // Text without any of the features comes back as it was.
        let feature = src.contains(['\r', '\t', '\0', '`'])
            || src.contains("\\\n")
            || src.contains(",,")
            || src.contains("..")
            || src.contains(". .")
            || src.starts_with('\n')
            || src.ends_with('\n')
            || src.split('\n').enumerate().any(|(i, l)| {
                l.starts_with(['\u{a0}', '\u{2007}']) || (!l.is_empty() && l.trim().is_empty()) || (i > 0 && l.is_empty() && src.contains("\n\n\n"))
            });
        if !feature {
            stats.hit("featureless");
            if got != src {
                return fail("changed", format!("{src:?} became {got:?}"));
            }
        }
        if got != src {
            stats.hit("changed");
        }
        for c in ['\u{201c}', '\u{201e}', '\u{2018}', '\u{2026}'] {
            if got.contains(c) && !src.contains(c) {
                stats.hit(&format!("made {c}"));
            }
        }
        Verdict::Ok(got != src)
    }
}

// P04

struct P04;

/// Everything a run gives, without what is documented to be random (generated ids) or to
/// depend on the clock (the age of a date).
pub fn digest(src: &str, env: &Env) -> String {
    let mut p = src.to_string();
    ftml::preprocess(&mut p);
    let tok = ftml::tokenize(src);
    let info = env.info();
    let settings = env.settings();
    let (tree, errors) = ftml::parse(&tok, &info, &settings).into();
    let html = pipe::html_of(&tree, env);
    let text = pipe::text_of(&tree, env);
    let mut h = pipe::normalize_ids(&html.body);
    while let Some(p) = h.find(" data-delta=\"") {
        let e = h[p + 13..].find('"').map(|e| p + 13 + e + 1).unwrap_or(h.len());
        h.replace_range(p..e, "");
    }
    format!(
        "{p:?}\n{:?}\n{}\n{errors:?}\n{text:?}\n{h}\n{:?}\n{:?}",
        tok.tokens(),
        pipe::json_of(&tree),
        html.meta,
        html.backlinks
    )
}

/// Subprocess side: documents on standard input, digests on standard output.
pub fn digest_cmd() -> i32 {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let env = get_env(&v).unwrap();
    let out: Vec<String> = v["docs"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, d)| digest(d.as_str().unwrap(), &env_at(&v, i, &env)))
        .collect();
    println!("{}", serde_json::to_string(&out).unwrap());
    0
}

/// The environment of one document of a batch: its own, or the batch's.
fn env_at(v: &Value, i: usize, env: &Env) -> Env {
    serde_json::from_value(v["envs"][i].clone()).unwrap_or_else(|_| env.clone())
}

/// A document nearly the same.
fn alike(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return "x".into();
    }
    for _ in 0..r.range(1, 2) {
        let i = match r.below(3) {
            0 => c.len() - 1,
            1 => c.len() / 2,
            _ => r.below(c.len()),
        };
        // Word characters, so that it is the same markup with other words.
        let near = (0..c.len()).map(|k| (i + k) % c.len()).find(|k| c[*k].is_ascii_alphanumeric()).unwrap_or(i);
        c[near] = match c[near] {
            '0'..='8' => (c[near] as u8 + 1) as char,
            'a'..='y' | 'A'..='Y' => (c[near] as u8 + 1) as char,
            _ => 'a',
        };
    }
    c.into_iter().collect()
}

fn in_process(v: &Value) -> Option<Vec<String>> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().ok()?)
        .arg("digest")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(v.to_string().as_bytes()).ok()?;
    let out = c.wait_with_output().ok()?;
    serde_json::from_slice(&out.stdout).ok()
}

impl Prop for P04 {
    fn id(&self) -> &'static str {
        "P04"
    }
    fn rule(&self) -> &'static str {
        "batches of documents run twice in a row, again in another order, concurrently on four threads with injected yields, with a logger, and (some) in a fresh process, together and alone; documents are repeated with other page data and settings, and with single letters changed; all runs of a document must give the same tokens, tree, errors, text and HTML; non-trivial: a batch with at least one document with markup"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_500,
            Tier::Thorough => 150_000,
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> Value {
        let n = r.range(3, 6);
        let docs: Vec<String> = (0..n)
            .map(|_| {
                if r.chance(1, 3) {
                    // What is kept in maps and tables while parsing.
                    let mut s = String::new();
                    for _ in 0..r.range(1, 5) {
                        s.push_str(r.pick(&[
                            "[[include-elements k a=\"1\" b=\"2\" c=\"3\" d=\"4\" e=\"5\"]]\n\n",
                            "[[div zeta=\"1\" class=\"k\" id=\"i\" data-b=\"2\" data-a=\"1\" title=\"t\" style=\"x\" lang=\"l\"]]\nx\n[[/div]]\n\n",
                            "[[bibliography]]\n: a : x\n: b : y\n: c : z\n[[/bibliography]]\n\n",
                            "((bibcite a)) ((bibcite c)) ((bibcite zz))\n\n",
                            "[[code name=\"n\"]]\nx\n[[/code]]\n\n",
                            "[[iftags +tale -x]]a[[/iftags]] [[ifcategory x]]b[[/ifcategory]]\n\n",
                            "x[[footnote]]a[[/footnote]] y[[footnote]]b[[/footnote]]\n\n",
                            "+ h\n\n++ i\n\n[[toc]]\n\n",
                            "[[module PageTree root=\"x\" depth=\"2\" showRoot=\"true\"]]\n\n",
                            "[[math k]]\nx\n[[/math]]\n\n[[eref k]]\n\n",
                            "[[tabview]]\n[[tab a]]\nx\n[[/tab]]\n[[tab b]]\ny\n[[/tab]]\n[[/tabview]]\n\n",
                            "[[collapsible]]\nx\n[[/collapsible]]\n\n",
                            "[[iframe https://a.b/ width=\"1\" height=\"2\" style=\"x\" class=\"c\"]]\n\n",
                            "[[image k.png width=\"1\" height=\"2\" alt=\"x\" class=\"c\" title=\"z\"]]\n\n",
                        ]));
                    }
                    s
                } else if r.chance(1, 3) {
                    crate::gen::model::random_source(r)
                } else {
                    hostile(r, tier)
                }
            })
            .collect();
        let mut docs = docs;
        let mut v = json!({"proc": i % 4 == 0, "log": i % 3 == 0, "alone": i / 4 % 3});
        let env = if r.coin() { Env::random(r) } else { Env::default() };
        v["env"] = serde_json::to_value(&env).unwrap();
        // The same documents on other pages, or with other settings, and others like them.
        let mut envs: Vec<Value> = docs.iter().map(|_| Value::Null).collect();
        for _ in 0..r.below(4) {
            let d = docs[r.below(docs.len())].clone();
            if r.coin() {
                let other = Env::random(r);
                let mut e = env.clone();
                match r.below(6) {
                    0 => e = other,
                    1 => (e.mode, e.layout) = (other.mode, other.layout),
                    2 => (e.page, e.category, e.site) = (other.page, other.category, other.site),
                    3 => (e.title, e.alt, e.tags) = (other.title, other.alt, other.tags),
                    4 => (e.isolate, e.local, e.minify, e.page_syntax, e.true_ids) = (!e.isolate, !e.local, !e.minify, !e.page_syntax, !e.true_ids),
                    _ => (e.lang, e.score) = (other.lang, other.score),
                }
                docs.push(d);
                envs.push(serde_json::to_value(e).unwrap());
            } else {
                docs.push(alike(r, &d));
                envs.push(Value::Null);
            }
        }
        v["docs"] = json!(docs);
        v["envs"] = json!(envs);
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(env) = get_env(v) else {
            return Verdict::Skip;
        };
        let docs: Vec<String> = v["docs"]
            .as_array()
            .map(|a| a.iter().filter_map(|s| s.as_str().map(|s| s.to_string())).collect())
            .unwrap_or_default();
        if docs.is_empty() || docs.iter().any(|d| pipe::uses_clock(d)) {
            return Verdict::Skip;
        }
        let envs: Vec<Env> = (0..docs.len()).map(|i| env_at(v, i, &env)).collect();
        let first: Vec<String> = docs.iter().zip(&envs).map(|(d, env)| digest(d, env)).collect();
        for (i, d) in docs.iter().enumerate().rev() {
            let again = digest(d, &envs[i]);
            if again != first[i] {
                return fail("repeat", diff(&first[i], &again));
            }
            stats.hit("repetitions");
        }
        if v["log"] == true && docs[0].len() < 600 {
            let logged = pipe::logged(true, || digest(&docs[0], &envs[0]));
            if logged != first[0] {
                return fail("logging", diff(&first[0], &logged));
            }
            stats.hit("runs with a logger");
        }
        // Concurrently
        let results: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4usize)
                .map(|t| {
                    let (docs, envs) = (&docs, &envs);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            let mut out = vec![];
                            for k in 0..docs.len() {
                                let i = (k + t) % docs.len();
                                if t % 2 == 0 {
                                    std::thread::yield_now();
                                }
                                out.push((i, digest(&docs[i], &envs[i])));
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for out in results {
            if out.len() != docs.len() {
                return fail("thread-panic", "a thread did not finish");
            }
            for (i, d) in out {
                if d != first[i] {
                    return fail("threads", diff(&first[i], &d));
                }
                stats.hit("concurrent runs");
            }
        }
        if v["proc"].as_bool().unwrap_or(false) {
            match in_process(v) {
                Some(out) if out.len() == docs.len() => {
                    for (i, d) in out.iter().enumerate() {
                        if *d != first[i] {
                            return fail("process", diff(&first[i], d));
                        }
                    }
                    stats.hit("other processes");
                }
                _ => return fail("process-died", "the fresh process gave no result"),
            }
            // One of the last ones alone, with nothing before it.
            let i = docs.len() - 1 - v["alone"].as_u64().unwrap_or(0) as usize % docs.len();
            match in_process(&json!({"docs": [docs[i]], "env": envs[i]})) {
                Some(out) if out.len() == 1 => {
                    if out[0] != first[i] {
                        return fail("process", diff(&first[i], &out[0]));
                    }
                    stats.hit("documents alone in a process");
                }
                _ => return fail("process-died", "the fresh process gave no result"),
            }
        }
        Verdict::Ok(docs.iter().any(|d| d.contains("[[")))
    }
}

pub fn diff(a: &str, b: &str) -> String {
    let p = a
        .char_indices()
        .zip(b.char_indices())
        .find(|((_, x), (_, y))| x != y)
        .map(|((i, _), _)| i)
        .unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| -> String {
        let mut st = p.min(s.len()).saturating_sub(120);
        while !s.is_char_boundary(st) {
            st -= 1;
        }
        s[st..].chars().take(400).collect()
    };
    format!("first difference at {p}:\n  one   ..{}\n  other ..{}", cut(a), cut(b))
}

// P05

struct P05;

const UNSAFE: &[&str] = &[
    "module", "table", "tab-view", "list", "definition-list", "collapsible", "table-of-contents",
    "footnote-block", "bibliography-block", "code", "math", "embed", "html", "iframe", "style",
    "clear-float", "horizontal-rule",
];

fn container_type(data: &Value) -> String {
    match &data["type"] {
        Value::String(s) => s.clone(),
        Value::Object(m) => m.keys().next().cloned().unwrap_or_default(),
        _ => String::new(),
    }
}

/// All child element lists of an element in the serialized tree.
pub fn child_lists(el: &Value) -> Vec<&Vec<Value>> {
    let d = &el["data"];
    let mut out = vec![];
    match el["element"].as_str().unwrap_or("") {
        "table" => {
            for row in d["rows"].as_array().into_iter().flatten() {
                for c in row["cells"].as_array().into_iter().flatten() {
                    out.extend(c["elements"].as_array());
                }
            }
        }
        "tab-view" => {
            for t in d.as_array().into_iter().flatten() {
                out.extend(t["elements"].as_array());
            }
        }
        "list" => {
            for i in d["items"].as_array().into_iter().flatten() {
                if i["item-type"] == "elements" {
                    out.extend(i["elements"].as_array());
                }
            }
        }
        "definition-list" => {
            for i in d.as_array().into_iter().flatten() {
                out.extend(i["key"].as_array());
                out.extend(i["value"].as_array());
            }
        }
        _ => out.extend(d["elements"].as_array()),
    }
    out
}

/// Child elements of lists (sublists), which aren't in an element list.
pub fn sublists(el: &Value) -> Vec<&Value> {
    let mut out = vec![];
    if el["element"] == "list" {
        for i in el["data"]["items"].as_array().into_iter().flatten() {
            if i["item-type"] == "sub-list" {
                out.push(i);
            }
        }
    }
    out
}

fn structure(el: &Value, in_paragraph: bool, auto_parent: bool, native: bool, stats: &mut Stats) -> Result<(), String> {
    let name = el["element"].as_str().unwrap_or("?");
    let d = &el["data"];
    stats.hit(&format!("element {name}"));
    let ctype = if name == "container" { container_type(d) } else { String::new() };
    if name == "partial" {
        return Err(format!("partial element {el}"));
    }
    let paragraph = ctype == "paragraph";
    if paragraph && in_paragraph {
        return Err(format!("paragraph within a paragraph: {el}"));
    }
    if auto_parent {
        let block = UNSAFE.contains(&name)
            || matches!(ctype.as_str(), "div" | "blockquote" | "align" | "header" | "paragraph");
        if block {
            return Err(format!("block-level element within a paragraph: {el}"));
        }
    }
    if name == "list" {
        let items = d["items"].as_array().ok_or("list without items")?;
        if native && items.is_empty() {
            return Err("empty list".into());
        }
        for i in items {
            match i["item-type"].as_str() {
                Some("elements") => {}
                Some("sub-list") if i["element"] == "list" => {}
                _ => return Err(format!("odd list item {i}")),
            }
        }
    }
    if name == "table" {
        let rows = d["rows"].as_array().ok_or("table without rows")?;
        if native && rows.is_empty() {
            return Err("table without rows".into());
        }
        for row in rows {
            let cells = row["cells"].as_array().ok_or("row without cells")?;
            if native && cells.is_empty() {
                return Err("empty table row".into());
            }
            for c in cells {
                if c["column-span"].as_u64().unwrap_or(0) < 1 {
                    return Err(format!("column span {}", c["column-span"]));
                }
            }
        }
    }
    if name == "definition-list" && d.as_array().map_or(true, |a| a.is_empty()) {
        return Err("empty definition list".into());
    }
    for l in child_lists(el) {
        for c in l {
            structure(c, in_paragraph || paragraph, paragraph, native, stats)?;
        }
    }
    for s in sublists(el) {
        structure(s, in_paragraph || paragraph, false, native, stats)?;
    }
    Ok(())
}

pub fn check_structure(src: &str, json: &Value, stats: &mut Stats) -> Verdict {
    if json["wikitext-len"].as_u64() != Some(src.len() as u64) {
        return fail("wikitext-len", format!("{} for {} bytes", json["wikitext-len"], src.len()));
    }
    let lower = src.to_ascii_lowercase();
    let native = !["ul", "ol", "list", "table", "row"].iter().any(|n| lower.contains(n));
    let mut lists: Vec<(&str, &Vec<Value>)> = vec![];
    for k in ["elements", "table-of-contents"] {
        lists.extend(json[k].as_array().map(|a| (k, a)));
    }
    for f in json["footnotes"].as_array().into_iter().flatten() {
        lists.extend(f.as_array().map(|a| ("footnote", a)));
    }
    for b in bib_lists(json) {
        lists.push(("bibliography", b));
    }
    for (k, l) in lists {
        for e in l {
            if let Err(m) = structure(e, false, false, native && k != "table-of-contents", stats) {
                return fail("structure", format!("in {k}: {m}"));
            }
        }
    }
    Verdict::Ok(json["elements"].as_array().map_or(0, |a| a.len()) > 1)
}

/// Elements say of themselves rightly whether they may be part of a paragraph.
fn safe_flags(list: &[ftml::tree::Element]) -> Result<(), String> {
    for e in list {
        let j = serde_json::to_value(e).unwrap_or(Value::Null);
        let name = j["element"].as_str().unwrap_or("?").to_string();
        let ctype = if name == "container" { container_type(&j["data"]) } else { String::new() };
        if name != "include" && name != "partial" {
            let block = UNSAFE.contains(&name.as_str())
                || matches!(ctype.as_str(), "div" | "blockquote" | "align" | "header" | "paragraph");
            if e.paragraph_safe() == block {
                return Err(format!("{name} {ctype} says paragraph_safe {}", !block));
            }
        }
        if let ftml::tree::Element::Container(c) = e {
            safe_flags(c.elements())?;
        }
    }
    Ok(())
}

/// The element lists of all stored bibliography entries.
pub fn bib_lists(json: &Value) -> Vec<&Vec<Value>> {
    let mut out = vec![];
    fn walk<'a>(v: &'a Value, out: &mut Vec<&'a Vec<Value>>) {
        match v {
            Value::Array(a) => {
                if a.first().is_some_and(|e| e.get("element").is_some()) {
                    out.push(a);
                } else {
                    for x in a {
                        walk(x, out);
                    }
                }
            }
            Value::Object(m) => {
                for x in m.values() {
                    walk(x, out);
                }
            }
            _ => {}
        }
    }
    walk(&json["bibliographies"], &mut out);
    out
}

impl Prop for P05 {
    fn id(&self) -> &'static str {
        "P05"
    }
    fn rule(&self) -> &'static str {
        "hostile text under random settings; the returned tree, footnotes and bibliographies walked for partial elements, nested paragraphs, block-level elements in paragraphs, empty native lists and rows, column spans and wikitext-len; non-trivial: more than one top-level element"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 90_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.extend(crate::gen::corpus().iter().map(|s| json!({ "src": s })));
        // Every block-level construct within every inline one, and next to text.
        let inl = ["[[span]]%[[/span]]", "[[b]]%[[/b]]", "**%**", "##red|%##", "[[a]]%[[/a]]", "[[size 2em]]%[[/size]]", "[[hidden]]%[[/hidden]]", "[[iftags +tale]]%[[/iftags]]", "[[ifcategory _default]]%[[/ifcategory]]", "[[footnote]]%[[/footnote]]", "[[ins]]%[[/ins]]", "[[ruby]]%[[rt]]x[[/rt]][[/ruby]]", "* %", "> %", "|| % ||", ": a : %", "[[div]]%[[/div]]", "[[p]]%[[/p]]", "[[li]]%[[/li]]", "[[ul]][[li]]%[[/li]][[/ul]]", "[[table]][[row]][[cell]]%[[/cell]][[/row]][[/table]]", "= %", "[[collapsible]]%[[/collapsible]]", "[[tabview]][[tab x]]%[[/tab]][[/tabview]]"];
        let blk = ["[[div]]x[[/div]]", "[[blockquote]]x[[/blockquote]]", "[[=]]x[[/=]]", "[[code]]x[[/code]]", "[[ul]][[li]]x[[/li]][[/ul]]", "[[table]][[row]][[cell]]x[[/cell]][[/row]][[/table]]", "[[tabview]][[tab x]]y[[/tab]][[/tabview]]", "[[collapsible]]x[[/collapsible]]", "[[toc]]", "[[footnoteblock]]", "[[module rate]]", "[[module css]]\nx{}\n[[/module]]", "[[html]]x[[/html]]", "[[iframe https://a.b/]]", "[[embed youtube video=\"x\"]]", "[[math]]x[[/math]]", "[[p]]x[[/p]]", "[[bibliography]]\n: a : b\n[[/bibliography]]", "\n* x\n", "\n> x\n", "\n|| x ||\n", "\n----\n", "\n-----\n", "\n+ x\n", "\n~~~~\n", "\n: a : b\n", "\n= x\n", "[[include-elements x]]", "[[ul]][[/ul]]", "[[table]][[/table]]", "[[table]][[row]][[/row]][[/table]]", "[[tabview]][[/tabview]]", "[[lines 3]]", "[[image x]]"];
        for i in inl {
            for b in blk {
                for (l, r) in [("", ""), ("a ", " b"), ("a\n", "\nb"), ("\n\n", "\n\n")] {
                    v.push(json!({"src": format!("c {} d", i.replace('%', &format!("{l}{b}{r}")))}));
                    v.push(json!({"src": i.replace('%', &format!("{l}{b}{r}"))}));
                }
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let mut v = json!({"src": hostile(r, tier)});
        if r.chance(1, 4) {
            v["env"] = serde_json::to_value(Env::random(r)).unwrap();
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        let (tree, _) = pipe::tree_of(src, &env);
        // This is quadratic in the depth.
        if src.len() < 2000 {
            if let Err(e) = safe_flags(&tree.elements) {
                return fail("safe", e);
            }
        }
        check_structure(src, &pipe::json_of(&tree), stats)
    }
}

// P18

struct P18;

fn kebab(s: &str) -> bool {
    !s.is_empty()
        && s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-')
        && !s.starts_with('-')
}

fn keys_kebab(v: &Value, path: &str) -> Result<(), String> {
    match v {
        Value::Array(a) => a.iter().try_for_each(|x| keys_kebab(x, path)),
        Value::Object(m) => {
            if let Some(e) = m.get("element").and_then(|e| e.as_str()) {
                if !kebab(e) {
                    return Err(format!("element name {e:?}"));
                }
                let n = m.len() - m.contains_key("item-type") as usize;
                if n > 2 || (n == 2 && !m.contains_key("data")) {
                    return Err(format!("keys of element {:?}", m.keys().collect::<Vec<_>>()));
                }
            }
            for (k, x) in m {
                // The keys of these are user data.
                if k == "attributes" || k == "arguments" || k == "variables" {
                    continue;
                }
                // The one key with another spelling, kept for compatibility.
                if !kebab(k) && k != "key_string" {
                    return Err(format!("key {k:?} under {path}"));
                }
                keys_kebab(x, k)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

pub fn check_roundtrip(v: &Value, src: &str, env: &Env, stats: &mut Stats) -> Verdict {
    let info = env.info();
    let settings = env.settings();
    let tok = ftml::tokenize(src);
    let (mut tree, errors) = ftml::parse(&tok, &info, &settings).into();
    if v["vary"].is_u64() {
        tree = match super::tree::varied(tree.to_owned(), v) {
            Ok(t) => t,
            Err(e) => return fail("vary", e),
        };
        stats.hit("varied trees");
    }
    let html = pipe::html_of(&tree, env);
    let norm = |h: &str| {
        let mut h = pipe::normalize_ids(h);
        while let Some(p) = h.find(" data-delta=\"") {
            let e = h[p + 13..].find('"').map(|e| p + 13 + e + 1).unwrap_or(h.len());
            h.replace_range(p..e, "");
        }
        h
    };
    let want_html = norm(&html.body);
    let want_text = pipe::text_of(&tree, env);

    let owned: SyntaxTree<'static> = tree.to_owned();
    let cloned = tree.clone();
    for (n, t) in [("to_owned", &owned), ("clone", &cloned)] {
        if *t != tree {
            return fail(n, format!("{:?}\nbecame\n{:?}", tree, t));
        }
        let h = norm(&pipe::html_of(t, env).body);
        if h != want_html {
            return fail(n, diff(&want_html, &h));
        }
        let x = pipe::text_of(t, env);
        if x != want_text {
            return fail(n, diff(&want_text, &x));
        }
    }
    let json = match serde_json::to_value(&tree) {
        Ok(j) => j,
        Err(e) => return fail("serialize", e.to_string()),
    };
    if let Err(m) = keys_kebab(&json, "tree") {
        return fail("format", m);
    }
    let string = serde_json::to_string(&tree).unwrap_or_default();
    // Read back through the text of the JSON (unless deeper than the reader's own limit).
    let back: Result<SyntaxTree, _> = match serde_json::from_str(&string) {
        Ok(t) => Ok(t),
        Err(e) if e.to_string().contains("recursion limit") => {
            stats.hit("deeper than the JSON reader's limit");
            serde_json::from_value(json.clone())
        }
        Err(e) => Err(e),
    };
    match back {
        Err(e) => return fail("deserialize", format!("{e}: {}", string.chars().take(2000).collect::<String>())),
        Ok(t) => {
            if t != tree {
                return fail("json-tree", diff(&format!("{tree:?}"), &format!("{t:?}")));
            }
            let h = norm(&pipe::html_of(&t, env).body);
            if h != want_html {
                return fail("json-html", diff(&want_html, &h));
            }
            let x = pipe::text_of(&t, env);
            if x != want_text {
                return fail("json-text", diff(&want_text, &x));
            }
        }
    }
    // Errors, page info, settings, output
    let e = serde_json::to_string(&errors).unwrap_or_default();
    match serde_json::from_str::<Vec<ParseError>>(&e) {
        Ok(x) if x == errors => {}
        x => return fail("json-errors", format!("{errors:?} / {x:?}")),
    }
    let p = serde_json::to_string(&info).unwrap_or_default();
    match serde_json::from_str::<PageInfo>(&p) {
        Ok(x) if x == info => {}
        x => return fail("json-page-info", format!("{info:?} / {x:?}")),
    }
    if let Err(m) = serde_json::to_value(&info).map_err(|e| e.to_string()).and_then(|v| keys_kebab(&v, "page info")) {
        return fail("format", m);
    }
    let s = serde_json::to_string(&settings).unwrap_or_default();
    match serde_json::from_str::<WikitextSettings>(&s) {
        Ok(x) if x == settings => {}
        x => return fail("json-settings", format!("{settings:?} / {x:?}")),
    }
    let h = serde_json::to_string(&html).unwrap_or_default();
    match serde_json::from_str::<ftml::render::html::HtmlOutput>(&h) {
        Ok(x) if x.body == html.body && format!("{:?}", x.meta) == format!("{:?}", html.meta) && x.backlinks == html.backlinks => {}
        x => return fail("json-output", format!("{html:?} / {x:?}")),
    }
    stats.add("elements", tree.elements.len() as u64);
    stats.add("errors", errors.len() as u64);
    for e in crate::props::tree::walk_names(&json) {
        stats.hit(&format!("element {e}"));
    }
    Verdict::Ok(tree.elements.len() > 1)
}

impl Prop for P18 {
    fn id(&self) -> &'static str {
        "P18"
    }
    fn rule(&self) -> &'static str {
        "hostile and well-formed text under random settings; the tree, its owned copy, its clone and its JSON round trip compared for equality and for equal rendering, likewise errors, page info, settings and output, and JSON keys checked for the documented form; non-trivial: more than one top-level element"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.extend(crate::gen::corpus().iter().map(|s| json!({ "src": s })));
        for d in ["1600000000", "2020-01-02", "2020-01-02T03:04:05", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+02:00", "2020-01-02T00:00:00", "1600000000 tz=\"+01:00\"", "2020-01-02 tz=\"-5\"", "0"] {
            for f in ["", " format=\"%Y-%m-%d\"", " hover=\"no\""] {
                v.push(json!({"src": format!("[[date {d}{f}]]")}));
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let src = if r.chance(1, 3) {
            crate::gen::model::random_source(r)
        } else {
            hostile(r, tier)
        };
        let mut v = json!({ "src": src });
        if r.chance(1, 4) {
            v["vary"] = json!(r.next() >> 32);
        }
        if r.chance(1, 4) {
            v["env"] = serde_json::to_value(Env::random(r)).unwrap();
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        check_roundtrip(v, src, &env, stats)
    }
}

// P24

struct P24;

impl Prop for P24 {
    fn id(&self) -> &'static str {
        "P24"
    }
    fn rule(&self) -> &'static str {
        "texts rich in multi-byte and astral characters; every character boundary converted and compared with counting UTF-16 units, every token and error span converted and the UTF-16 slice compared; non-trivial: text with a non-ASCII character"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.push(json!({"src": ""}));
        for c in ["\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}"] {
            for s in [format!("{c}"), format!("a{c}"), format!("{c}a"), format!("{c}{c}[[{c}"), format!("[[{c}]]"), format!("**{c}")] {
                v.push(json!({ "src": s }));
            }
        }
        // Beyond what fits into 16 bits.
        for (c, n) in [("a ", 40_000), ("é", 70_000), ("\u{1f600}\n", 30_000), ("中", 33_000)] {
            v.push(json!({ "src": c.repeat(n) }));
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let mut s = if r.coin() { soup::chars(r, 40) } else { hostile(r, tier) };
        let n = r.below(6);
        for _ in 0..n {
            let mut i = r.below(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.insert_str(i, r.pick(&["é", "中", "\u{1f600}", "\u{10ffff}", "\u{ffff}", "\u{800}", "𝔘𝔘", "\u{301}"]));
        }
        json!({ "src": s })
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(src) = v["src"].as_str() else {
            return Verdict::Skip;
        };
        let map = ftml::Utf16IndexMap::new(src);
        let units: Vec<u16> = src.encode_utf16().collect();
        let mut want = 0;
        for i in 0..=src.len() {
            if src.is_char_boundary(i) {
                let got = map.get_index(i);
                if got != want {
                    return fail("index", format!("byte {i} of {src:?}: {got}, expected {want}"));
                }
                stats.hit("positions");
                want += src[i..].chars().next().map_or(0, |c| c.encode_utf16(&mut [0; 2]).len());
            }
        }
        let env = Env::default();
        let tok = ftml::tokenize(src);
        let slice = |s: std::ops::Range<usize>| units.get(s).map(String::from_utf16_lossy);
        for t in tok.tokens() {
            let u = t.to_utf16_indices(&map);
            if u.token != t.token || u.slice != t.slice || slice(u.span.clone()).as_deref() != Some(t.slice) {
                return fail("token", format!("{t:?} became {u:?} in {src:?}"));
            }
            stats.hit("tokens");
        }
        let (_, errors) = ftml::parse(&tok, &env.info(), &env.settings()).into();
        for e in &errors {
            let u = e.to_utf16_indices(&map);
            let same = u.token() == e.token() && u.rule() == e.rule() && u.kind() == e.kind();
            if !same || slice(u.span()).as_deref() != src.get(e.span()) {
                return fail("error", format!("{e:?} became {u:?} in {src:?}"));
            }
            stats.hit("errors");
        }
        Verdict::Ok(!src.is_ascii())
    }
}
