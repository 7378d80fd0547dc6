mod gen;
mod html;
mod pipe;
mod props;
mod refdate;
mod refhtml;
mod reftext;
mod rng;
mod runner;

use runner::Tier;
use serde_json::Value;
use std::io::Read;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn load(path: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let prop = |i: usize| match props::get(a(i)) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", a(i));
            std::process::exit(2);
        }
    };
    let code = match a(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let t = if a(3).is_empty() {
                std::env::var("VERIF_TIER").unwrap_or_default()
            } else {
                a(3).to_string()
            };
            runner::check(prop(2), tier(&t), seed)
        }
        "worker" => {
            let n = |i: usize| a(i).parse::<u64>().unwrap();
            runner::worker(prop(2), n(3), tier(a(4)), n(5), n(6), n(7), n(8), n(9))
        }
        "one" => runner::one(prop(2), load(a(3)), a(4).parse().unwrap_or(60)),
        "shrink" => runner::shrink_cmd(prop(2), load(a(3)), a(4), a(5).parse().unwrap_or(10)),
        "replay" => {
            let doc = load(a(2));
            let p = props::get(doc["property"].as_str().unwrap_or("")).expect("property");
            runner::one(p, doc["input"].clone(), 120)
        }
        // Shows generated cases: gen <property> <count>
        "gen" => {
            let p = prop(2);
            for i in 0..a(3).parse::<u64>().unwrap_or(5) {
                let v = runner::case_input(p, &[], 1, Tier::Quick, i);
                println!("{v}");
            }
            0
        }
        "digest" => props::basic::digest_cmd(),
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        "probe" => probe(&args),
        _ => {
            eprintln!("usage: ftml-mon check|replay|gen|list|probe ...");
            2
        }
    };
    std::process::exit(code);
}

/// Wikitext on standard input; shows what the pipeline makes of it.
fn probe(args: &[String]) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut env = pipe::Env::default();
    for a in args {
        if a.starts_with('{') {
            env = serde_json::from_str(a).unwrap();
        }
    }
    if args.iter().any(|a| a == "-p") {
        s = pipe::preprocess(&s);
    }
    let r = pipe::run(&s, &env);
    if args.iter().any(|a| a == "-t") {
        for (t, span, slice) in &r.tokens {
            println!("{t} {span:?} {slice:?}");
        }
    }
    println!("{}", serde_json::to_string_pretty(&r.json).unwrap());
    for e in &r.errors {
        println!("ERR {e:?}");
    }
    println!("TEXT {:?}", r.text);
    println!("HTML {}", r.html.body);
    0
}
