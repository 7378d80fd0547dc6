//! P28: the plain text of a tree.

use super::basic::{get_env, hostile, REGRESSIONS};
use super::render::with_env;
use super::tree;
use crate::gen::{corpus, model, soup};
use crate::pipe::{self, Env};
use crate::reftext;
use crate::rng::Rng;
use crate::runner::*;
use ftml::render::text::TextRender;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&P28]
}

struct P28;

/// Whatever affects the layout of text.
const PARTS: &[&str] = &[
    "[[span style=\"visibility: hidden\"]]x[[/span]]", "[[hidden]]x **y**[[/hidden]]", "[[invisible]]x @@é@@ y[[/invisible]]",
    "[[invisible]]a[[hidden]]b[[/hidden]]c\n\nd[[/invisible]]", "[[invisible]]\n[[code]]\nq\n[[/code]]\n* x\n[[/invisible]]",
    "[[ruby]]漢[[rt]]kan[[/rt]][[/ruby]]", "[[rb a|b]]", "[[code]]\na\n\nb\n[[/code]]", "|| a || b ||\n|| c ||",
    "[[table]]\n[[row]]\n[[cell]]a[[/cell]]\n[[cell]]\n* b\n[[/cell]]\n[[/row]]\n[[/table]]", "* a\n * b\n* c", "# a\n# b",
    "[[ul]]\n[[li]]a[[/li]]\n[[li]][[/li]]\n[[li]]\n* b\n[[/li]]\n[[/ul]]", ": a : b\n: c : d", "> a\n>> b\n> c",
    "[[div]]\na\n[[/div]]", "[[div]]\n[[/div]]", "+ a", "++* b", "[[tabview]]\n[[tab a]]\nb\n[[/tab]]\n[[tab c]]\n[[/tab]]\n[[/tabview]]",
    "[[collapsible show=\"s\" hide=\"h\"]]\na\n[[/collapsible]]", "[[user a]] [[*user b]]", "[[date 1600000000]]",
    "[[date 2008-07-19]] x", "[[date 1850-01-01]]", "[[invisible]][[date 2008-07-19T01:02:03]][[/invisible]]", "[[math x]]\na\n[[/math]]",
    "[[$ x $]] [[eref x]]", "[[html]]\nx\n[[/html]]", "[[iframe https://x.y]]", "[[image x.png]]", "a[[footnote]]b[[/footnote]]c",
    "[[footnoteblock]]", "[[toc]]", "((bibcite x))", "[[bibliography]]\n: x : y\n[[/bibliography]]", "[[lines 3]]", "a _\nb",
    "[[radio x]] y", "[[checkbox x]] y", "-----", "~~~~", "[[module rate]]", "[[module css]]\n.x {}\n[[/module]]", "[[[page]]] [[[a | b]]]",
    "[[[page|]]] [[[:site:page|]]]", "[#x y] [[# z]]", "https://a.b [https://a.b c]", "[*https://a.b] [[a href=\"/x\"]]y[[/a]]",
    "[[size 2em]]x[[/size]] ##red|x##", "[[=]]\nx\n[[/=]]", "[[embed youtube video=\"x\"]]", "{{x}} ^^y^^ ,,z,, --s-- __u__ //e//",
    "[[iftags +tale]]x[[/iftags]]", "[[p]]x[[/p]]", "a\nb\n\nc\n\n\n\nd", "@@\n@@", "@<&lt;>@ &lt;", "[!-- x --]", "[[char nbsp]]",
    "[[ins]]a[[/ins]][[del]]b[[/del]][[mark]]c[[/mark]]", "{$x}", "[[blockquote]]\nx\n[[/blockquote]]", "x@y.z", "[[lines 1]][[lines 2]]",
];

impl P28 {
    fn source(r: &mut Rng, tier: Tier) -> String {
        match r.below(4) {
            0 => hostile(r, tier),
            1 => model::random_source(r),
            _ => {
                let mut s = String::new();
                for _ in 0..if r.chance(1, 300) { crate::gen::big::few(r) } else { r.range(1, 6) } {
                    let p = r.pick(PARTS);
                    let w = r.pick(&[("", ""), ("", ""), ("[[div]]\n", "\n[[/div]]"), ("[[invisible]]\n", "\n[[/invisible]]"), ("[[span]]", "[[/span]]"),
                        ("* ", ""), ("> ", ""), ("[[collapsible]]\n", "\n[[/collapsible]]"), ("[[hidden]]\n", "\n[[/hidden]]"), ("|| ", " ||"), (": k : ", ""),
                        ("[[table]]\n[[row]]\n[[cell]]\n", "\n[[/cell]]\n[[/row]]\n[[/table]]"), ("[[ruby]]", "[[/ruby]]")]);
                    s.push_str(w.0);
                    s.push_str(p);
                    s.push_str(w.1);
                    s.push_str(r.pick(&["\n\n", "\n\n", "\n", " ", ""]));
                }
                s
            }
        }
    }
}

impl Prop for P28 {
    fn id(&self) -> &'static str {
        "P28"
    }
    fn rule(&self) -> &'static str {
        "hostile, well-formed and layout-heavy documents, and variations of their trees read from JSON; the text rendering (of the tree and of single elements) compared with the text an independent renderer makes of the serialized tree; non-trivial: at least two kinds of elements or line breaks"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn fixed(&self) -> Vec<Value> {
        let mut v: Vec<Value> = REGRESSIONS.iter().map(|s| json!({ "src": s })).collect();
        v.extend(corpus().iter().map(|s| json!({ "src": s })));
        for p in PARTS {
            v.push(json!({ "src": p }));
            for (k, q) in PARTS.iter().enumerate() {
                v.push(json!({"src": format!("{p}\n\n{q}"), "vary": k}));
            }
            v.push(json!({"src": format!("x {p}{p} y")}));
            v.push(json!({"src": format!("[[invisible]]\nx\n{p}\ny\n[[/invisible]]\nz")}));
        }
        v
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let src = Self::source(r, tier);
        let src = if soup::risky(&src) { r.pick(PARTS).to_string() } else { src };
        let src = if r.chance(1, 3) { pipe::preprocess(&src) } else { src };
        let env = if r.chance(1, 4) { Env::random(r) } else { Env::default() };
        let mut v = with_env(src, env);
        if r.chance(1, 3) {
            v["vary"] = json!(r.next() >> 32);
        }
        v
    }
    fn check(&self, v: &Value, stats: &mut Stats) -> Verdict {
        let (Some(src), Some(env)) = (v["src"].as_str(), get_env(v)) else {
            return Verdict::Skip;
        };
        let (tree, _) = pipe::tree_of(src, &env);
        let tree = match tree::varied(tree, v) {
            Ok(t) => t,
            Err(e) => return fail("vary", e),
        };
        let json = pipe::json_of(&tree);
        let text = pipe::text_of(&tree, &env);
        let kinds = match reftext::compare(&json["elements"], &env, &text) {
            Err(e) if e.contains("output too large") => return Verdict::Skip,
            Err(e) => return fail("text", format!("{e}\n  source: {src:?}")),
            Ok(r) => r.kinds,
        };
        for (k, n) in &kinds {
            stats.add(&format!("rendered {k}"), *n);
        }
        // Parts of the tree, as renderers of tables of contents want them.
        let (info, settings) = (env.info(), env.settings());
        for (i, e) in tree.elements.iter().enumerate().take(4) {
            let text = TextRender.render_partial(std::slice::from_ref(e), &info, &settings, 0);
            if let Err(e) = reftext::compare(&json!([json["elements"][i].clone()]), &env, &text) {
                return fail("partial", format!("{e}\n  element: {}", json["elements"][i]));
            }
            stats.hit("partial renderings");
        }
        if v["vary"].is_u64() {
            stats.hit("varied trees");
        }
        Verdict::Ok(kinds.len() > 1 || text.contains('\n'))
    }
}
