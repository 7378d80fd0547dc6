//! P16: include expansion, against a reference expander and a recording includer.

use crate::rng::Rng;
use crate::runner::*;
use ftml::data::PageRef;
use ftml::includes::{FetchedPage, IncludeRef, Includer};
use ftml::layout::Layout;
use ftml::settings::{WikitextMode, WikitextSettings};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P16]
}

struct P16;

type Vars = BTreeMap<String, String>;

#[derive(Clone, Debug, PartialEq)]
struct Want {
    site: Option<String>,
    page: String,
    vars: Vars,
}

impl Want {
    fn name(&self) -> String {
        match &self.site {
            Some(s) => format!(":{s}:{}", self.page),
            None => self.page.clone(),
        }
    }
}

// A reader of include blocks (see docs and the grammar's description), without backtracking
// beyond that of optional parts.

struct Cur<'a> {
    s: &'a str,
    p: usize,
}

impl<'a> Cur<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn lit(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.p += t.len();
            return true;
        }
        false
    }
    fn while_(&mut self, f: impl Fn(char) -> bool) -> &'a str {
        let r = self.rest();
        let n = r.find(|c| !f(c)).unwrap_or(r.len());
        self.p += n;
        &r[..n]
    }
    fn space(&mut self) -> bool {
        !self.while_(|c| matches!(c, ' ' | '\n' | '\t')).is_empty()
    }
    fn at_end(&self) -> bool {
        match self.rest().strip_prefix("]]") {
            Some(t) => t.is_empty() || t.starts_with(['\n', '\r']),
            None => false,
        }
    }
    fn argument(&mut self) -> Option<(&'a str, &'a str)> {
        let start = self.p;
        let key = self.while_(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_');
        self.space();
        let eq = self.lit("=");
        self.space();
        let from = self.p;
        while eq && !key.is_empty() && !self.at_end() {
            match self.rest().chars().next() {
                None | Some('|') => break,
                Some(c) => self.p += c.len_utf8(),
            }
        }
        if self.p == from {
            self.p = start;
            return None;
        }
        Some((key, &self.s[from..self.p]))
    }
}

fn page_char(c: char) -> bool {
    !matches!(c, ' ' | '\n' | '\t' | '[' | '|' | ']')
}

/// Reads an include block, giving it and its length.
fn read(s: &str) -> Option<(Want, usize)> {
    let mut c = Cur { s, p: 0 };
    if !c.lit("[[") {
        return None;
    }
    c.space();
    if !c.rest().get(..7).is_some_and(|w| w.eq_ignore_ascii_case("include")) {
        return None;
    }
    c.p += 7;
    if !c.space() {
        return None;
    }
    let name = c.while_(page_char);
    let (site, page) = match name.strip_prefix(':') {
        None => (None, name),
        Some(t) => {
            let (site, page) = t.split_once(':')?;
            if site.is_empty() || page.is_empty() {
                return None;
            }
            (Some(site.trim().to_string()), page.trim())
        }
    };
    if page.trim().is_empty() {
        return None;
    }
    c.space();
    if c.lit("|") {
        c.space();
    }
    let mut args = vec![];
    while let Some(a) = c.argument() {
        args.push(a);
        let p = c.p;
        c.space();
        if c.lit("|") {
            c.space();
        } else {
            c.p = p;
            break;
        }
    }
    c.space();
    if !c.at_end() {
        return None;
    }
    let mut vars = Vars::new();
    for (k, v) in args {
        if !vars.contains_key(k) && v.trim() != format!("{{${k}}}") {
            vars.insert(k.into(), v.into());
        }
    }
    Some((Want { site, page: page.trim().into(), vars }, c.p + 2))
}

/// All include blocks of a text.
fn blocks(text: &str) -> Vec<(usize, usize, Want)> {
    let mut out: Vec<(usize, usize, Want)> = vec![];
    let mut p = 0;
    loop {
        // At the start of a line.
        if out.last().is_none_or(|b| b.1 <= p) && text[p..].starts_with("[[") {
            if let Some((w, n)) = read(&text[p..]) {
                out.push((p, p + n, w));
            }
        }
        match text[p..].find('\n') {
            Some(n) => p += n + 1,
            None => return out,
        }
    }
}

/// Replaces the variables that have values, each once.
fn substitute(content: &str, vars: &Vars) -> String {
    let mut out = String::new();
    let mut rest = content;
    while let Some(i) = rest.find("{$") {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let name: &str = {
            let t = &rest[2..];
            &t[..t.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-' || c == '_')).unwrap_or(t.len())]
        };
        let whole = 2 + name.len() + 1;
        if !name.is_empty() && rest[2 + name.len()..].starts_with('}') {
            match vars.get(name) {
                Some(v) => out.push_str(v),
                None => out.push_str(&rest[..whole]),
            }
            rest = &rest[whole..];
        } else {
            out.push_str("{$");
            rest = &rest[2..];
        }
    }
    out.push_str(rest);
    out
}

#[derive(Debug, PartialEq, Clone)]
enum E {
    Invalid,
    Fetch,
    Missing,
}

#[derive(Default)]
struct Log {
    calls: Vec<Vec<Want>>,
    missing: Vec<String>,
}

struct Rec<'l> {
    log: &'l RefCell<Log>,
    pages: BTreeMap<String, Option<String>>,
    fault: String,
    at: usize,
}

fn name_of(r: &PageRef) -> String {
    match r.site() {
        Some(s) => format!(":{s}:{}", r.page()),
        None => r.page().to_string(),
    }
}

impl<'t> Includer<'t> for Rec<'_> {
    type Error = E;

    fn include_pages(&mut self, includes: &[IncludeRef<'t>]) -> Result<Vec<FetchedPage<'t>>, E> {
        self.log.borrow_mut().calls.push(
            includes
                .iter()
                .map(|i| Want {
                    site: i.page_ref().site().map(String::from),
                    page: i.page_ref().page().into(),
                    vars: i.variables().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                })
                .collect(),
        );
        if self.fault == "fetch" {
            return Err(E::Fetch);
        }
        let mut out: Vec<FetchedPage> = includes
            .iter()
            .map(|i| FetchedPage {
                page_ref: i.page_ref().clone(),
                content: content(&self.pages, &name_of(i.page_ref())).map(Cow::Owned),
            })
            .collect();
        let n = out.len();
        let at = if n == 0 { 0 } else { self.at % n };
        match self.fault.as_str() {
            "drop" if n > 0 => {
                out.remove(at);
            }
            "drop last" => {
                out.pop();
            }
            "extra" => out.push(FetchedPage { page_ref: PageRef::page_only("extra"), content: Some(Cow::Borrowed("EXTRA")) }),
            "double" if n > 0 => {
                let x = out[at].clone();
                out.insert(at, x);
            }
            "rotate" if n > 0 => out.rotate_left(1),
            "swap" if n > 0 => out.swap(at, n - 1),
            "reverse" => out.reverse(),
            "case" if n > 0 => out[at].page_ref.page = Cow::Owned(out[at].page_ref.page.to_uppercase()),
            "site" if n > 0 => {
                out[at].page_ref.site = match out[at].page_ref.site {
                    Some(_) => None,
                    None => Some(Cow::Borrowed("other")),
                }
            }
            "name" if n > 0 => out[at].page_ref = PageRef::page_only("other"),
            _ => {}
        }
        Ok(out)
    }

    fn no_such_include(&mut self, page: &PageRef<'t>) -> Result<Cow<'t, str>, E> {
        let n = name_of(page);
        self.log.borrow_mut().missing.push(n.clone());
        if self.fault == "missing" {
            return Err(E::Missing);
        }
        Ok(Cow::Owned(missing(&n)))
    }
}

fn missing(n: &str) -> String {
    format!("<no {n} {{$a}}>")
}

/// What a page has: as listed, or something by its name.
fn content(pages: &BTreeMap<String, Option<String>>, n: &str) -> Option<String> {
    match pages.get(n) {
        Some(c) => c.clone(),
        None => Some(format!("({n}: {{$a}} {{$b}}{{$a}} {{$none}})")),
    }
}

const PAGES: &[&str] = &["page", "component:info", "PAGE", "é-ü", "a", ":site:page", ":scp-wiki:component:x", ":s:a:b:c", "x{$a}", "a=b", "1", "_", "include", "a/b#c", "page]x"];
const VALUES: &[&str] = &["1", "a b", "{$a}", "{$b}", "{$x-1}", " padded ", "multi\nline", "é😀", "[[span]]x[[/span]]", "]] ", "=", "a=b", "\n", "{$", "{$a", "$a}", "\\", "$0", "[[include a]]x", "\n[[include a]] x\n", "\t", "]"];
const CONTENTS: &[&str] = &["", "plain", "{$a}", "{$a}{$b}", "x {$a} y {$b} z {$a}", "{$none}", "{$b}{$}{$a }{a}{$A}", "{{$a}}", "{${$a}}", "é{$a}😀{$b}ü", "{$x-1} {$_}", "\n{$a}\n", "[[include page]]\n", "$1 {$a} \\0", "{$é}{$a}", "{$aa}{$a"];
const TEXTS: &[&str] = &["text", " ", "\n", "é😀\n", "{$a}", "a [[include page]]\n", " [[include page]]", "[[includes page]]", "[[include]]", "[[include ]]", "[[include page", "[[module X]]", "[[/include]]", "[[include a b]]", "[[include page]] x", "[[include-elements page]]", "\r\n", "\r", "[[include :x]]", "[[include ::x]]", "[[include :x:]]", "[[include a | = 1]]", "[[include a b= | c=1]]", "]]", "[[", "[!-- [[include page]] --]", "\u{a0}", "[[include\u{a0}page]]", "\u{2028}[[include page]]"];

fn spell(p: &Value) -> Option<(String, Want)> {
    let mut r = Rng::new(p["sp"].as_u64().unwrap_or(0));
    let vary = !p["sp"].is_null();
    let mut pick = |a: &[&str]| -> String {
        if vary {
            r.s(a)
        } else {
            a[0].to_string()
        }
    };
    let page = p["page"].as_str()?;
    let mut s = String::from("[[");
    s += &pick(&["", "", " ", "\n", " \t"]);
    s += &pick(&["include", "INCLUDE", "Include", "inCLUDE"]);
    s += &pick(&[" ", "  ", "\n", "\t "]);
    s += page;
    let mut vars = Vars::new();
    let args: Vec<Value> = p["args"].as_array().cloned().unwrap_or_default();
    if args.is_empty() {
        s += &pick(&["", " ", "\n", " | ", "|"]);
    } else {
        s += &pick(&[" ", " |", " | ", "|", "\n", "\n|"]);
    }
    let n = args.len();
    for (i, a) in args.iter().enumerate() {
        let (k, v) = (a[0].as_str()?, a[1].as_str()?);
        if k.is_empty() || !k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') {
            return None;
        }
        // As a value it has to start with something, and to hold no end or separator.
        if v.trim_start_matches([' ', '\n', '\t']).is_empty() || v.contains('|') || v.contains("]]\n") || v.contains("]]\r") || v.ends_with("]]") || v.ends_with(']') {
            return None;
        }
        s += k;
        s += &pick(&["=", " = ", "= ", " =", "=\n", "\t=\t"]);
        s += v;
        // Blanks after a value are part of it.
        if i + 1 < n {
            s += &pick(&["|", "| ", "|\n", "|\t\n "]);
        } else {
            s += &pick(&["", "", "|", "| ", "|\n"]);
        }
        let v = v.trim_start_matches([' ', '\n', '\t']);
        if !vars.contains_key(k) && v.trim() != format!("{{${k}}}") {
            vars.insert(k.into(), v.into());
        }
    }
    s += "]]";
    let (site, page) = match page.strip_prefix(':') {
        None => (None, page.to_string()),
        Some(t) => {
            let (a, b) = t.split_once(':')?;
            (Some(a.to_string()), b.to_string())
        }
    };
    Some((s, Want { site, page, vars }))
}

impl Prop for P16 {
    fn id(&self) -> &'static str {
        "P16"
    }
    fn rule(&self) -> &'static str {
        "texts with include blocks spelled in all documented ways among hostile texts, and random sequences of pieces of include syntax, with page contents, missing pages and misbehaving includers (too few, too many, reordered, renamed, failing); oracle: a reference reader and expander, and an includer that records its calls; non-trivial: an include block was found"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 250_000,
            Tier::Thorough => 12_000_000,
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let mut parts = vec![];
        let mut pages = serde_json::Map::new();
        let many = r.chance(1, 300);
        let n = if many { crate::gen::big::few(r) } else { 1 + r.below(6 * t.scale()) };
        let soup = r.chance(1, 4);
        if soup {
            let mut s = String::new();
            let toks = ["[[include ", "[[ INCLUDE\t", "\n[[include a ", "page", ":site:page", ":", "|", "=", "a", "b=1", " ", "\n", "]]", "]]\n", "\r\n", "é", "{$a}", "[[", "]", " x = y ", "[[include p]]\n", "a={$a}|", "-", "\t", "[["];
            for _ in 0..r.range(2, 24) {
                s.push_str(r.pick(&toks));
            }
            parts.push(json!(s));
        } else {
            for _ in 0..n {
                if r.chance(2, 5) {
                    for _ in 0..r.range(1, 3) {
                        parts.push(json!(r.s(TEXTS)));
                    }
                    if r.chance(2, 3) {
                        parts.push(json!("\n"));
                    }
                } else {
                    let page = if r.chance(1, 6) { format!("p{}", r.below(4)) } else { r.s(PAGES) };
                    let mut args = vec![];
                    let wide = r.chance(1, 200);
                    for i in 0..if wide { crate::gen::big::few(r) } else { [0, 0, 1, 1, 2, 3, 4][r.below(7)] } {
                        let k = if wide && i % 4 > 0 { format!("k{i}") } else { r.s(&["a", "b", "a", "x-1", "_", "A", "1", "aa"]) };
                        let v = match r.below(5) {
                            0 => format!("{{${k}}}"),
                            1 => format!("{{${k}}}{}", r.s(&[" ", "\n", "x"])),
                            _ => r.s(VALUES),
                        };
                        args.push(json!([k, v]));
                    }
                    let mut p = json!({"page": page, "args": args});
                    if r.chance(4, 5) {
                        p["sp"] = json!(r.below(100_000));
                    }
                    parts.push(p);
                    parts.push(json!(r.s(&["\n", "\n", "\n", "\r\n", "\n\n", ""])));
                    match r.below(6) {
                        0 => {
                            pages.insert(page, Value::Null);
                        }
                        1 => {}
                        _ => {
                            let mut c = String::new();
                            for i in 0..if wide || r.chance(1, 200) { crate::gen::big::few(r) } else { r.range(1, 3) } {
                                c.push_str(r.pick(CONTENTS));
                                if wide {
                                    c.push_str(&format!("{{$k{i}}}"));
                                }
                            }
                            pages.insert(page, json!(c));
                        }
                    }
                }
            }
        }
        let fault = if r.chance(1, 4) { r.s(&["drop", "drop last", "extra", "double", "rotate", "swap", "reverse", "case", "site", "name", "fetch", "missing"]) } else { String::new() };
        json!({"parts": parts, "pages": pages, "fault": fault, "at": r.below(8), "compat": r.chance(1, 5), "off": r.chance(1, 12)})
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for p in PAGES {
            for v in VALUES {
                for c in CONTENTS {
                    out.push(json!({"parts": ["é\n", {"page": p, "args": [["a", v], ["b", "2"]]}, "\nz"], "pages": {*p: c}}));
                }
            }
        }
        for t in TEXTS {
            for u in TEXTS {
                out.push(json!({"parts": [t, "\n", u, "\n", {"page": "page", "args": []}, "\n", t]}));
            }
        }
        for f in ["drop", "drop last", "extra", "double", "rotate", "swap", "reverse", "case", "site", "name", "fetch", "missing"] {
            for n in 0..4 {
                for at in 0..n + 1 {
                    let mut parts = vec![json!("x\n")];
                    for i in 0..n {
                        parts.push(json!({"page": format!("p{i}"), "args": []}));
                        parts.push(json!("\n"));
                    }
                    out.push(json!({"parts": parts, "fault": f, "at": at, "pages": {"p1": null}}));
                }
            }
        }
        // The same page again and again, and the documented fallback.
        out.push(json!({"parts": [{"page": "p", "args": [["a", "1"]]}, "\n", {"page": "p", "args": [["a", "2"]]}, "\n", {"page": "p", "args": []}]}));
        out.push(json!({"parts": [{"page": "p", "args": [["a", "{$a} "], ["a", "300px"]]}]}));
        out
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(parts) = v["parts"].as_array() else { return Verdict::Skip };
        let mut src = String::new();
        let mut meant: Vec<Want> = vec![];
        let mut plain = true;
        for p in parts {
            if let Some(t) = p.as_str() {
                if t.to_lowercase().contains("include") || t.contains("[[") || t.contains("]]") {
                    plain = false;
                }
                src.push_str(t);
            } else {
                let Some((s, w)) = spell(p) else { return Verdict::Skip };
                // On its own lines, it must be an include block.
                let at_start = src.is_empty() || src.ends_with('\n');
                plain &= at_start && !s[2..].contains("[[");
                src.push_str(&s);
                meant.push(w);
            }
        }
        for (i, p) in parts.iter().enumerate() {
            if p.is_object() && parts.get(i + 1).is_some_and(|n| !n.as_str().is_some_and(|t| t.starts_with(['\n', '\r']))) {
                plain = false;
            }
            // Where "]" comes next or in the name, the end isn't clear.
            if p["page"].as_str().is_some_and(|s| s.contains(']')) {
                plain = false;
            }
        }
        let off = v["off"] == true;
        let mut settings = WikitextSettings::from_mode(WikitextMode::Page, Layout::Wikijump);
        settings.enable_page_syntax = !off;
        settings.use_include_compatibility = v["compat"] == true;
        let pages: BTreeMap<String, Option<String>> = v["pages"].as_object().map(|o| o.iter().map(|(k, c)| (k.clone(), c.as_str().map(String::from))).collect()).unwrap_or_default();
        let fault = v["fault"].as_str().unwrap_or("").to_string();
        let log = RefCell::new(Log::default());
        let rec = Rec { log: &log, pages: pages.clone(), fault: fault.clone(), at: v["at"].as_u64().unwrap_or(0) as usize };
        let invalid = RefCell::new(0);
        let got = ftml::include(&src, &settings, rec, || {
            *invalid.borrow_mut() += 1;
            E::Invalid
        })
        .map(|(s, p)| (s, p.iter().map(|p| (p.site().map(String::from), p.page().to_string())).collect::<Vec<_>>()));
        let log = log.into_inner();
        if off {
            if !log.calls.is_empty() || !log.missing.is_empty() {
                return fail("disabled", format!("the includer was called\n  source: {src:?}"));
            }
            return match got {
                Ok((s, p)) if s == src && p.is_empty() => Verdict::Ok(false),
                x => fail("disabled", format!("{x:?}\n  source: {src:?}")),
            };
        }
        let list = blocks(&src);
        let want: Vec<Want> = list.iter().map(|b| b.2.clone()).collect();
        if plain && meant != want {
            return fail("reference", format!("the reference reads {want:?} instead of {meant:?}\n  source: {src:?}"));
        }
        if plain {
            stats.hit("all as meant");
        }
        // What was asked for.
        if log.calls.len() != 1 {
            return fail("calls", format!("{} requests\n  source: {src:?}", log.calls.len()));
        }
        if log.calls[0] != want {
            return fail("request", format!("{:?} instead of {want:?}\n  source: {src:?}", log.calls[0]));
        }
        stats.add("includes", want.len() as u64);
        stats.add("variables", want.iter().map(|w| w.vars.len() as u64).sum());
        // What the includer did.
        let names: Vec<String> = want.iter().map(Want::name).collect();
        let n = names.len();
        let at = if n == 0 { 0 } else { v["at"].as_u64().unwrap_or(0) as usize % n };
        let mut given = names.clone();
        match fault.as_str() {
            "drop" if n > 0 => {
                given.remove(at);
            }
            "drop last" => {
                given.pop();
            }
            "extra" => given.push("extra".into()),
            "double" if n > 0 => given.insert(at, given[at].clone()),
            "rotate" if n > 0 => given.rotate_left(1),
            "swap" if n > 0 => given.swap(at, n - 1),
            "reverse" => given.reverse(),
            "case" if n > 0 => {
                given[at] = match &want[at].site {
                    Some(s) => format!(":{s}:{}", want[at].page.to_uppercase()),
                    None => want[at].page.to_uppercase(),
                }
            }
            "site" if n > 0 => given[at] = format!(" {}", given[at]),
            "name" if n > 0 => given[at] = "other".into(),
            _ => {}
        }
        let lacking: Vec<&String> = names.iter().filter(|n| content(&pages, n).is_none()).collect();
        if fault == "fetch" {
            return match got {
                Err(E::Fetch) => Verdict::Ok(true),
                x => fail("error", format!("{x:?} though the includer failed\n  source: {src:?}")),
            };
        }
        if given != names {
            stats.hit("misbehaving includers");
            return match got {
                Err(E::Invalid) if *invalid.borrow() == 1 => Verdict::Ok(true),
                // It may have been asked about a missing page before.
                Err(E::Missing) if fault == "missing" => Verdict::Ok(true),
                x => fail("accepted", format!("{x:?} from an includer giving {given:?} instead of {names:?}\n  source: {src:?}")),
            };
        }
        if fault == "missing" && !lacking.is_empty() {
            return match got {
                Err(E::Missing) => Verdict::Ok(true),
                x => fail("error", format!("{x:?} though no_such_include failed\n  source: {src:?}")),
            };
        }
        let (text, listed) = match got {
            Ok(x) => x,
            Err(e) => return fail("error", format!("{e:?} from a good includer\n  source: {src:?}")),
        };
        let mut expect = String::new();
        let mut p = 0;
        for (a, b, w) in &list {
            expect.push_str(&src[p..*a]);
            match content(&pages, &w.name()) {
                Some(c) => expect.push_str(&substitute(&c, &w.vars)),
                None => expect.push_str(&missing(&w.name())),
            }
            p = *b;
        }
        expect.push_str(&src[p..]);
        if text != expect {
            return fail("text", format!("{text:?} instead of {expect:?}\n  source: {src:?}"));
        }
        if listed != want.iter().map(|w| (w.site.clone(), w.page.clone())).collect::<Vec<_>>() {
            return fail("pages", format!("{listed:?} instead of {names:?}\n  source: {src:?}"));
        }
        let mut a: Vec<&String> = log.missing.iter().collect();
        let mut b = lacking;
        a.sort();
        b.sort();
        if a != b {
            return fail("missing", format!("asked about {a:?} instead of {b:?}\n  source: {src:?}"));
        }
        stats.add("missing pages", b.len() as u64);
        Verdict::Ok(!want.is_empty())
    }
}
