//! Documents with much of one thing: many items, long texts, wide and long constructs.

use crate::rng::Rng;

/// How many of something: around the sizes at which things are usually limited.
pub fn count(r: &mut Rng) -> usize {
    r.pick(&[9, 11, 13, 17, 21, 26, 33, 41, 51, 65, 80, 101, 129, 140, 257])
}

/// The same, for what takes long.
pub fn few(r: &mut Rng) -> usize {
    r.pick(&[9, 11, 13, 17, 21, 26, 33, 41, 51, 65])
}

/// A long text without anything special in it.
pub fn long(r: &mut Rng) -> String {
    let n = r.pick(&[65, 129, 201, 256, 257, 300, 513, 1001, 1030, 2100, 4100]);
    let c = r.pick(&["x", "x", "é", "中", "😀", "ab", "x y"]);
    let mut s = c.repeat(n);
    if s.len() > 4200 {
        let at = (0..=4200).rev().find(|i| s.is_char_boundary(*i)).unwrap();
        s.truncate(at);
    }
    let s = s.trim_end();
    format!("{s}z")
}

/// Before, each (`%` is its number), after.
const MANY: &[(&str, &str, &str)] = &[
    ("", "x%x[[footnote]]y%y[[/footnote]] ", ""),
    ("x", "[[footnote]]%[[/footnote]]", "y\n\n[[footnoteblock]]"),
    ("[[toc]]\n\n", "+ h%h\n\n", ""),
    ("", "++ h%h\n", "\n\n[[toc]]"),
    ("", "* i%\n", ""),
    ("", "# i%\n", ""),
    ("", "> q%\n", ""),
    ("", ": k% : v%\n", ""),
    ("||", " c% ||", ""),
    ("", "|| c% ||~ d% ||\n", ""),
    ("[[tabview]]\n", "[[tab t%]]\nx%\n[[/tab]]\n", "[[/tabview]]"),
    ("", "[[code name=\"n%\"]]\nc%c\n[[/code]]\n", ""),
    ("", "[[code]]\nc%c\n[[/code]]\n", ""),
    ("", "[[html]]\nc%c\n[[/html]]\n", ""),
    ("[[table]]\n", "[[row]]\n[[cell]]\nc%\n[[/cell]]\n[[/row]]\n", "[[/table]]"),
    ("[[ul]]\n", "[[li]]i%[[/li]]\n", "[[/ul]]"),
    ("((bibcite l3)) ((bibcite l90))\n\n[[bibliography]]\n", ": l% : e%e\n", "[[/bibliography]]"),
    ("", "((bibcite l%)) ", "\n\n[[bibliography]]\n: l8 : e1e\n[[/bibliography]]"),
    ("", "w% ", ""),
    ("", "w%\n", ""),
    ("", "w% _\n", "x"),
    ("", "w%\n\n", ""),
    ("", "[[[p%]]] ", ""),
    ("", "[[[p%|t%]]] [http://x.com/% y%] ", ""),
    ("", "[#a% t%] [[# a%]] ", ""),
    ("", "[[user u%]] [[*user v%]] ", ""),
    ("", "[[math m%]]\nx\n[[/math]]\n", "[[eref m7]] [[eref m70]]"),
    ("", "[[$ x_% $]] ", ""),
    ("", "**b%** //i%// ", ""),
    ("", "[[span id=\"d%\"]]s%[[/span]] ", ""),
    ("", "[[div]]\nd%\n[[/div]]\n", ""),
    ("", "[[collapsible]]\nx%\n[[/collapsible]]\n\n", ""),
    ("", "[[iftags +tale]]t%[[/iftags]] [[iftags -tale]]u%[[/iftags]] ", ""),
    ("", "[[nosuch%]] ", ""),
    ("", "----\n\n", ""),
    ("", "@@r%@@ @<s%>@ ", ""),
    ("", "{$v%} ", ""),
    ("[[span", " data-a%=\"v%\"", "]]x[[/span]]"),
    ("[[image k.png", " data-a%=\"v%\"", "]]"),
    ("", "[[image k%.png]] ", ""),
    ("", "[!-- % --]w% ", ""),
    ("", "[[date %]] ", ""),
    ("", "[[char #6%]] ", ""),
    ("", "[[checkbox]] c% ", ""),
    ("", "{{m%}} -- ", ""),
    ("", "= c%\n", ""),
    ("", "&% <b%> ", ""),
    ("", "é% 中% 😀% ", ""),
    ("", "[[module Join button=\"b%\"]] ", ""),
    ("", "[[style]]\na% {}\n[[/style]]\n", ""),
    ("", "[[size %px]]s%[[/size]] ##red|c%## ", ""),
    ("", "``q%'' ... \r\n\r\n", ""),
    ("", "~~~~\n\n", "x"),
    ("a", "\n", "b"),
    ("a", " ", "b"),
    ("a", "\t", "b\n\nc"),
    ("a", "\u{a0}", "b\n\nc"),
    ("a", "-", "b"),
    ("a", "=", "b"),
    ("x", "\\\n", "y"),
];

/// `%` is the long text.
const LONG: &[&str] = &[
    "%", "a % b", "[[div class=\"%\"]]\nx\n[[/div]]", "[[[%]]]", "[[[p|%]]]", "[http://x.com/% y]", "[/p %]", "http://x.com/%", "@@%@@", "@<%>@",
    "[[code]]\n%\n[[/code]]", "[[code name=\"%\"]]\nx\n[[/code]]", "[[html]]\n%\n[[/html]]", "[[math %]]\nx\n[[/math]]", "[[$ % $]]", "x[[footnote]]%[[/footnote]]",
    "|| % || x ||", "* %\n* x", "> %", ": % : %", "+ %\n\n[[toc]]", "[[tabview]]\n[[tab %]]\nx\n[[/tab]]\n[[/tabview]]", "[[collapsible show=\"%\" hide=\"%\"]]\nx\n[[/collapsible]]",
    "**%**", "{{%}}", "##red|%##", "[[user %]]", "[[# %]]", "[#% x]", "{$%}", "[!-- % --]x", "\"%\"", "[[image %]]", "[[span %=\"x\"]]y[[/span]]", "[[%]]", "[[span]]%[[/span]]",
    "((bibcite %))\n\n[[bibliography]]\n: % : x\n[[/bibliography]]", "[[rb %|%]]", "[[size %]]x[[/size]]", "[[iftags %]]x[[/iftags]]", "[[footnoteblock title=\"%\"]]", "[[date 0 format=\"%\"]]",
    "[[module %]]", "[[style]]\n/* % */\n[[/style]]", "[[iframe https://x.com/%]]", "[[embed youtube video=\"%\"]]",
];

pub fn source(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let l = long(r);
        return r.pick(LONG).replace('%', &l);
    }
    let (a, m, z) = r.pick(MANY);
    let n = if m.len() > 25 { few(r) } else { count(r) };
    let mut s = a.to_string();
    for i in 1..=n {
        s.push_str(&m.replace('%', &i.to_string()));
    }
    s.push_str(z);
    s
}
