//! P19: reported errors.

use super::basic::hostile;
use crate::gen::{model, model::ModelGen, model::Options, soup};
use crate::pipe::{self, Env};
use crate::rng::Rng;
use crate::runner::*;
use ftml::parsing::ParseError;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P19]
}

struct P19;

/// Markup which fails, why it does (on its own, at the top), and what may not follow it.
pub(crate) const UNITS: &[(&str, &[&str], &[&str])] = &[
    ("[[nope]]", &["NoSuchBlock"], &[]),
    ("[[nope x=\"y\"]]", &["NoSuchBlock"], &[]),
    ("[[css]]x", &["NoSuchBlock"], &[]),
    ("[[]]", &["NoSuchBlock"], &[]),
    ("x ]] y", &[], &[]),
    ("x [[/div]] y", &[], &[]),
    ("[[/b]]", &[], &[]),
    ("[[div]] x", &["EndOfInput"], &["[[/", "[["]),
    ("[[b]]x", &["EndOfInput"], &["[[/"]),
    ("[[span class=\"k\"]]x", &["EndOfInput"], &["[[/"]),
    ("[[size 2em]]x", &["EndOfInput"], &["[[/"]),
    ("[[collapsible]]x", &["EndOfInput"], &["[[/"]),
    ("[[blockquote]]x", &["EndOfInput"], &["[[/"]),
    ("[[a]]x", &["EndOfInput"], &["[[/"]),
    ("[[p]]x", &["EndOfInput"], &["[[/"]),
    ("[[=]]x", &["EndOfInput"], &["[[/"]),
    ("[[iftags +a]]x", &["EndOfInput"], &["[[/"]),
    ("[[ruby]]x", &["EndOfInput"], &["[[/"]),
    ("[[footnote]]x", &["EndOfInput"], &["[[/", "[[footnote"]),
    ("[[code]]x", &["EndOfInput"], &["[[/"]),
    ("[[html]]x", &["EndOfInput"], &["[[/"]),
    ("[[math]]x", &["EndOfInput"], &["[[/"]),
    ("[!-- x", &["EndOfInput"], &["--]"]),
    ("[[*b]]x[[/b]]", &["BlockDisallowsStar"], &[]),
    ("[[*div]]x[[/div]]", &["BlockDisallowsStar"], &[]),
    ("[[b_]]x[[/b]]", &["BlockDisallowsScore"], &[]),
    ("[[module Nope]]", &["NoSuchModule"], &[]),
    ("[[module]]", &["BlockMissingName"], &[]),
    ("[[image]]", &["BlockMissingName"], &[]),
    ("[[date]]", &["BlockMissingName"], &[]),
    ("[[iframe]]", &["BlockMissingName"], &[]),
    ("[[radio]]", &["BlockMissingName"], &[]),
    ("[[embed]]x[[/embed]]", &["BlockMissingName"], &[]),
    ("[[include-elements]]", &["BlockMissingName"], &[]),
    ("[[embed nope]]x[[/embed]]", &["NoSuchEmbed"], &[]),
    ("[[lines]]", &["BlockMissingArguments"], &[]),
    ("[[user]]", &["BlockMissingArguments"], &[]),
    ("[[char]]", &["BlockMissingArguments"], &[]),
    ("[[target]]", &["BlockMissingArguments"], &[]),
    ("[[eref]]", &["BlockMissingArguments"], &[]),
    ("[[size]]x[[/size]]", &["BlockMissingArguments"], &[]),
    ("[[lines x]]", &["BlockMalformedArguments"], &[]),
    ("[[lines 0]]", &["BlockMalformedArguments"], &[]),
    ("[[lines 999]]", &["BlockMalformedArguments"], &[]),
    ("[[char nope]]", &["BlockMalformedArguments"], &[]),
    ("[[date nope]]", &["BlockMalformedArguments"], &[]),
    ("[[rb a|b|c]]", &["BlockMalformedArguments"], &[]),
    ("[[rb a]]", &["BlockMalformedArguments"], &[]),
    ("[[lines -1]]", &["BlockMalformedArguments"], &[]),
    ("[[lines 1.5]]", &["BlockMalformedArguments"], &[]),
    ("[[lines 101]]", &["BlockMalformedArguments"], &[]),
    ("[[char #xZZ]]", &["BlockMalformedArguments"], &[]),
    ("[[char #1114112]]", &["BlockMalformedArguments"], &[]),
    ("[[char #xD800]]", &["BlockMalformedArguments"], &[]),
    ("[[char #]]", &["BlockMalformedArguments"], &[]),
    ("[[collapsible folded=\"maybe\"]]x[[/collapsible]]", &["BlockMalformedArguments"], &[]),
    ("[[collapsible hideLocation=\"nope\"]]x[[/collapsible]]", &["BlockMalformedArguments"], &[]),
    ("[[date 0 hover=\"maybe\"]]", &["BlockMalformedArguments"], &[]),
    ("[[date 0 tz=\"nope\"]]", &["BlockMalformedArguments"], &[]),
    ("[[module PageTree showRoot=\"maybe\"]]", &["BlockMalformedArguments"], &[]),
    ("[[module PageTree depth=\"x\"]]", &["BlockMalformedArguments"], &[]),
    ("[[module PageTree depth=\"0\"]]", &["BlockMalformedArguments"], &[]),
    ("[[module Categories includeHidden=\"x\"]]", &["BlockMalformedArguments"], &[]),
    ("[[image a/b/c/d.png]]", &["BlockMalformedArguments"], &[]),
    ("[[div class=x]]y[[/div]]", &["BlockMalformedArguments"], &[]),
    ("[[div \"x\"]]y[[/div]]", &["BlockMalformedArguments"], &[]),
    ("[[div x=\"y\" \"z\"]]y[[/div]]", &["BlockMalformedArguments"], &[]),
    ("[[div é=\"x\"]]y[[/div]]", &["BlockMalformedArguments"], &[]),
    ("[[rb]]", &["BlockMissingArguments"], &[]),
    ("[[tab]]x[[/tab]]", &["BlockMissingArguments"], &[]),
    ("[[embed youtube]]x[[/embed]]", &["BlockMissingArguments"], &[]),
    ("[[embed youtube video-id=\"x\"]]", &["BlockMissingArguments"], &[]),
    ("[[embed timg]]", &["NoSuchEmbed"], &[]),
    ("[[html x]]y[[/html]]", &["BlockMissingCloseBrackets"], &[]),
    ("[[hr]]", &["NoSuchBlock"], &[]),
    ("[[cell]]x[[/cell]]", &["TableCellOutsideTable"], &[]),
    ("[[row]]x[[/row]]", &["TableRowContainsNonCell"], &[]),
    ("[[table]]x[[/table]]", &["TableContainsNonRow"], &[]),
    ("[[table]]\n[[row]]x[[/row]]\n[[/table]]", &["TableContainsNonRow", "TableRowContainsNonCell"], &[]),
    ("[[li]]x[[/li]]", &["ListItemOutsideList"], &[]),
    ("[[ul]]x[[/ul]]", &["ListContainsNonItem"], &[]),
    ("[[ol]][[/ol]]", &["ListEmpty"], &[]),
    ("[[tab x]]x[[/tab]]", &["TabOutsideTabView"], &[]),
    ("[[tabview]]x[[/tabview]]", &["TabViewContainsNonTab"], &[]),
    ("[[tabview]][[/tabview]]", &["TabViewEmpty"], &[]),
    ("[[rt]]x[[/rt]]", &["RubyTextOutsideRuby"], &[]),
    ("[[bibliography]]x[[/bibliography]]", &["BibliographyContainsNonDefinitionList"], &[]),
    ("[[$ x", &["RuleFailed"], &[]),
    ("x $]] y", &[], &[]),
    ("[[# a b]]", &["RuleFailed"], &[]),
    ("[[# k", &["RuleFailed"], &[]),
    ("[[[x", &["RuleFailed"], &[]),
    ("[[[|x]]]", &["RuleFailed"], &[]),
    ("[[[*x", &["RuleFailed"], &[]),
    ("[[[!nope:x]]]", &["RuleFailed"], &[]),
    ("x ]]] y", &[], &[]),
    ("[*nope x]", &["InvalidUrl"], &[]),
    ("[#x]", &["RuleFailed"], &[]),
    ("[# x", &["RuleFailed"], &[]),
    ("**x", &["RuleFailed"], &[]),
    ("//x", &["RuleFailed"], &[]),
    ("__x y", &["RuleFailed"], &[]),
    ("^^x", &["RuleFailed"], &[]),
    (",,x", &["RuleFailed"], &[]),
    ("{{x", &["RuleFailed"], &[]),
    ("x }} y", &[], &[]),
    ("##x", &["RuleFailed"], &[]),
    ("##red|x", &["RuleFailed"], &[]),
    ("@@x", &["RuleFailed"], &[]),
    ("@<x", &["RuleFailed"], &[]),
    ("x >@ y", &[], &[]),
    ("~~x", &["RuleFailed"], &[]),
    ("x --] y", &[], &[]),
    ("|| x", &["RuleFailed"], &[]),
    ("||~ x", &["RuleFailed"], &[]),
    // These are text without any complaint.
    ("[nope x]", &[], &[]),
    ("x ] y [ z", &[], &[]),
    ("x | y = z : _", &[], &[]),
    ("((nope x))", &[], &[]),
    ("{$x", &[], &[]),
    (">x", &[], &[]),
    ("x > y < z", &[], &[]),
    (": x", &[], &[]),
    ("+x", &[], &[]),
    ("*x", &[], &[]),
    ("#x", &[], &[]),
    ("\"x", &[], &[]),
    ("x@@@@y", &[], &[]),
];

/// Places units may stand in; false: only on a line of text.
pub(crate) const CTX: &[(&str, &str, bool)] = &[
    ("", "", true),
    ("x ", " y", false),
    ("[[div]]\n", "\n[[/div]]", true),
    ("[[span]]x ", " y[[/span]]", false),
    ("* x ", " y", false),
    ("> x ", " y", false),
    ("[[blockquote]]\n", "\n[[/blockquote]]", true),
    ("[[ul]]\n[[li]]\nx ", " y\n[[/li]]\n[[/ul]]", false),
    ("[[table]]\n[[row]]\n[[cell]]\nx ", " y\n[[/cell]]\n[[/row]]\n[[/table]]", false),
    ("||a||x ", " y||", false),
    (": k : x ", " y", false),
    (": x ", " y : v", false),
    ("+ x ", " y", false),
    ("x[[footnote]]x ", " y[[/footnote]]z", false),
    ("[[collapsible]]\n", "\n[[/collapsible]]", true),
    ("[[iftags +tale]]\nx ", " y\n[[/iftags]]", false),
    ("[[tabview]]\n[[tab t]]\n", "\n[[/tab]]\n[[/tabview]]", true),
    ("[[size 2em]]x ", " y[[/size]]", false),
    ("= x ", " y", false),
    ("[[=]]\n", "\n[[/=]]", true),
];

/// Tokens which are never text unless something failed.
const SPECIAL: &[&str] = &[
    "[[[*", "[!--", "[[[", "]]]", "[[/", "[[#", "[[*", "[[$", "$]]", "--]", "||~", "||<", "||>", "||=", "[[", "]]", "[*", "[#", "||", "**", "//", "__", "^^", ",,",
    "{{", "}}", "##", "@@", "@<", ">@", "~~",
];

/// Where there are such tokens in markup that failed.
fn specials(s: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        match SPECIAL.iter().find(|t| s[i..].starts_with(**t)) {
            Some(t) => {
                out.push((i, i + t.len()));
                i += t.len();
            }
            None => i += s[i..].chars().next().map_or(1, |c| c.len_utf8()),
        }
    }
    out
}

fn kind(e: &ParseError) -> String {
    format!("{:?}", e.kind())
}

fn texts<'v>(v: &'v Value, out: &mut HashMap<&'v str, usize>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| texts(x, out)),
        Value::Object(o) => {
            if v["element"] == "text" {
                if let Some(s) = v["data"].as_str() {
                    *out.entry(s).or_default() += 1;
                }
            } else {
                o.values().for_each(|x| texts(x, out));
            }
        }
        _ => {}
    }
}

/// What holds for the errors of any document.
fn general(src: &str, j: &Value, errors: &[ParseError], stats: &mut Stats) -> Option<Verdict> {
    let tok = ftml::tokenize(src);
    let spans: HashSet<(usize, usize, String)> = tok.tokens().iter().map(|t| (t.span.start, t.span.end, format!("{:?}", t.token))).collect();
    let mut last = None;
    let mut literal: HashMap<&str, usize> = HashMap::new();
    for (i, e) in errors.iter().enumerate() {
        let s = e.span();
        if s.start > s.end || s.end > src.len() || !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
            return Some(fail("span", format!("{e:?} is outside of the source or within characters\n  source: {src:?}")));
        }
        if !spans.contains(&(s.start, s.end, format!("{:?}", e.token()))) {
            return Some(fail("span", format!("{e:?} is no token of the source\n  source: {src:?}")));
        }
        if e.rule().is_empty() || e.kind().name().is_empty() {
            return Some(fail("error", format!("{e:?} has no name")));
        }
        let k = kind(e);
        if (k == "NoRulesMatch") != (e.rule() == "fallback") {
            return Some(fail("error", format!("{e:?} mixes up rule and kind\n  source: {src:?}")));
        }
        if k == "NoRulesMatch" {
            if last.is_some_and(|l| l >= s.start) {
                return Some(fail("order", format!("error {i}, {e:?}, is not after the one at {last:?}\n  source: {src:?}")));
            }
            last = Some(s.start);
            *literal.entry(&src[s.clone()]).or_default() += 1;
        }
    }
    match errors.last() {
        Some(e) if kind(e) != "NoRulesMatch" && !(errors.len() == 1 && kind(e) == "RecursionDepthExceeded") => {
            return Some(fail("cause", format!("{e:?} comes last, and nothing was left as text for it\n  source: {src:?}")));
        }
        _ => {}
    }
    if errors.len() == 1 && kind(&errors[0]) == "RecursionDepthExceeded" {
        stats.hit("recursion limit");
        return None;
    }
    let mut t = HashMap::new();
    texts(j, &mut t);
    for s in SPECIAL {
        let (a, b) = (t.get(s).copied().unwrap_or(0), literal.get(s).copied().unwrap_or(0));
        if a > b {
            return Some(fail("silent", format!("{a} of {s:?} are text, with {b} errors at such\n  errors: {errors:?}\n  source: {src:?}")));
        }
        stats.add("literal tokens with errors", a as u64);
    }
    stats.add("errors", errors.len() as u64);
    None
}

impl P19 {
    fn parts(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let Some(list) = v["parts"].as_array() else { return Verdict::Skip };
        let mut src = String::new();
        let mut want: Vec<(usize, usize)> = vec![];
        let mut kinds: Vec<&str> = vec![];
        let mut exact = true;
        let mut after: Vec<&str> = vec![];
        let mut open = 0;
        for p in list {
            let piece;
            let mut own = vec![];
            if let Some(u) = p["u"].as_u64() {
                let Some(unit) = UNITS.get(u as usize) else { return Verdict::Skip };
                let Some(ctx) = p["c"].as_u64().and_then(|c| CTX.get(c as usize)) else { return Verdict::Skip };
                if !ctx.2 && (unit.0.contains('\n')) {
                    return Verdict::Skip;
                }
                // Nothing that completes it.
                if unit.2.iter().any(|c| ctx.1.contains(c)) || ctx.0.starts_with("||") && unit.0.contains('|') || ctx.0.starts_with(": ") && unit.0.contains(':') {
                    return Verdict::Skip;
                }
                // Nor ends of it in it.
                if unit.0.match_indices("[[/").any(|(i, _)| ctx.1.contains(unit.0[i..].split(']').next().unwrap_or(""))) {
                    return Verdict::Skip;
                }
                // Tables begin at the start of a line.
                if unit.0.starts_with("||") && !ctx.2 {
                    exact = false;
                }
                // These are something else at the start of a line, or not.
                let base = ctx.0.len();
                own.extend(specials(unit.0).iter().map(|s| (s.0 + base, s.1 + base)));
                if unit.0 == "x@@@@y" {
                    own.clear();
                }
                piece = format!("{}{}{}", ctx.0, unit.0, ctx.1);
                kinds.extend(unit.1);
                if !unit.2.is_empty() {
                    open += 1;
                }
                // Beginnings of tables are also text within a line.
            } else {
                match model::write(&p["m"], &Options { vary: false, seed: 0, crlf: false }) {
                    // Names of code blocks are unique in a page.
                    Ok(o) if o.src.contains(" name=") && src.contains(" name=") => return Verdict::Skip,
                    Ok(o) => piece = o.src,
                    Err(_) => return Verdict::Skip,
                }
            }
            if after.iter().any(|a| piece.contains(a)) || open > 3 {
                return Verdict::Skip;
            }
            if let Some(unit) = p["u"].as_u64().and_then(|u| UNITS.get(u as usize)) {
                after.extend(unit.2);
            }
            if !src.is_empty() {
                src.push_str("\n\n");
            }
            want.extend(own.iter().map(|s| (s.0 + src.len(), s.1 + src.len())));
            src.push_str(piece.trim_matches('\n'));
        }
        if pipe::preprocess(&src) != src {
            return Verdict::Skip;
        }
        let env = Env::default();
        let (tree, errors) = pipe::tree_of(&src, &env);
        let j = pipe::json_of(&tree);
        if let Some(f) = general(&src, &j, &errors, stats) {
            return f;
        }
        let got: Vec<(usize, usize)> = errors.iter().filter(|e| kind(e) == "NoRulesMatch").map(|e| (e.span().start, e.span().end)).collect();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            let show = |x: Option<&(usize, usize)>| x.map(|s| format!("{s:?} {:?}", &src[s.0..s.1]));
            return fail("location", format!("{:?} instead of {:?} ({} of {})\n  source: {src:?}", show(got.get(at)), show(want.get(at)), got.len(), want.len()));
        }
        if exact {
            let got: Vec<String> = errors.iter().map(kind).filter(|k| k != "NoRulesMatch").collect();
            let same = |(g, k): (&String, &&str)| g == k || (*k == "RuleFailed" && g == "EndOfInput") || (*k == "EndOfInput" && g == "RuleFailed");
            if got.len() != kinds.len() || !got.iter().zip(&kinds).all(same) {
                return fail("kind", format!("{got:?} instead of {kinds:?}\n  source: {src:?}"));
            }
            stats.hit("kinds checked");
        }
        stats.add("failing markup", want.len() as u64);
        Verdict::Ok(true)
    }
}

impl Prop for P19 {
    fn id(&self) -> &'static str {
        "P19"
    }
    fn rule(&self) -> &'static str {
        "96 kinds of failing markup in 20 places among well-formed documents, plain text, and hostile documents; oracle: spans and tokens of all errors exist, errors of unmatched markup are exactly at the tokens left literal, in order, with the reason expected, none elsewhere; in hostile documents no literal token is without an error; non-trivial: errors, or well-formed markup without"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut out = vec![];
        for u in 0..UNITS.len() {
            for c in 0..CTX.len() {
                out.push(json!({"parts": [{"u": u, "c": c}]}));
                out.push(json!({"parts": [{"u": u, "c": c}, {"u": (u + 7 * c + 1) % UNITS.len(), "c": 0}]}));
            }
        }
        for d in crate::gen::corpus() {
            out.push(json!({"doc": d, "env": Env::default()}));
        }
        out
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        match r.below(8) {
            0..=2 => json!({"doc": hostile(r, t), "env": Env::random(r)}),
            3 => {
                let s = if r.coin() { soup::mutant(r) } else { model::random_source(r) };
                json!({"doc": s, "env": Env::random(r)})
            }
            _ => {
                let n = r.range(1, 5);
                let mut parts = vec![];
                for _ in 0..n {
                    if r.chance(1, 3) {
                        parts.push(json!({"m": ModelGen::new(r.range(2, 10)).doc(r)}));
                    } else {
                        let u = r.below(UNITS.len());
                        let c = if r.coin() { 0 } else { r.below(CTX.len()) };
                        parts.push(json!({"u": u, "c": c}));
                    }
                }
                json!({"parts": parts})
            }
        }
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        if let Some(s) = v["doc"].as_str() {
            let Ok(env) = serde_json::from_value::<Env>(v["env"].clone()) else { return Verdict::Skip };
            let src = pipe::preprocess(s);
            if soup::risky(&src) {
                return Verdict::Skip;
            }
            let (tree, errors) = pipe::tree_of(&src, &env);
            let j = pipe::json_of(&tree);
            if let Some(f) = general(&src, &j, &errors, stats) {
                return f;
            }
            return Verdict::Ok(!errors.is_empty());
        }
        self.parts(v, stats)
    }
}
