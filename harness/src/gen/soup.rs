//! Hostile wikitext: well-formed constructs, broken ones and raw tokens mixed freely.

use crate::rng::Rng;

pub struct Cfg {
    /// Use only words `w<number>w` for body text, each once.
    pub unique_words: bool,
    /// Openers that may stay without their end (nested retries make these expensive).
    pub budget: usize,
    pub size: usize,
    /// Odd characters: control characters, combining marks, astral planes.
    pub weird: bool,
    /// Sections which hide their body or show it elsewhere or more than once.
    pub hiding: bool,
    pub footnotes: bool,
    pub headings: bool,
    pub raw: bool,
    pub tables: bool,
    pub math: bool,
    pub css: bool,
    /// Put arbitrary strings in arguments and link targets.
    pub wild_args: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            unique_words: false,
            budget: 7,
            size: 12,
            weird: true,
            hiding: true,
            footnotes: true,
            headings: true,
            raw: true,
            tables: true,
            math: true,
            css: true,
            wild_args: true,
        }
    }
}

pub struct Soup<'c> {
    pub cfg: &'c Cfg,
    pub words: usize,
    budget: usize,
}

pub const INLINE_BLOCKS: &[&str] = &[
    "b", "bold", "strong", "i", "italics", "em", "emphasis", "u", "underline", "s", "strikethrough",
    "sub", "subscript", "sup", "super", "superscript", "tt", "mono", "monospace", "mark", "highlight",
    "ins", "insertion", "del", "deletion", "span", "span_", "a", "anchor", "a_", "*a", "invisible",
];

pub const WRAP_BLOCKS: &[&str] = &[
    "div", "div_", "blockquote", "quote", "collapsible", "=", "<", ">", "==", "p", "paragraph",
];

const ENDS: &[&str] = &[
    "b", "bold", "i", "em", "u", "s", "sub", "sup", "tt", "mark", "ins", "del", "span", "a", "div",
    "blockquote", "quote", "collapsible", "=", "<", ">", "==", "size", "table", "row", "cell", "hcell",
    "ul", "ol", "li", "tabview", "tab", "ruby", "rt", "footnote", "code", "html", "module", "iftags",
    "ifcategory", "hidden", "invisible", "bibliography", "p", "math", "include", "xyz",
];

pub const TOKENS: &[&str] = &[
    "**", "//", "__", "--", "^^", ",,", "{{", "}}", "##", "@@", "@<", ">@", "[[", "]]", "[[/", "[[[",
    "]]]", "[[*", "[*", "[", "]", "[#", "[[#", "[!--", "--]", "[[$", "$]]", "((", "))", "||", "||~",
    "||=", "||<", "||>", "|", "~~~~", "~~~~<", "~~~~>", "~~~~=", "-----", "----", "---", "--", "—",
    "<<", ">>", "«", "»", "...", "…", "``", "''", "`", "'", ",,", "=", "==", "_", " _\n", "*", "#",
    ":", " : ", ": ", "+", "+++", "++++++", "+*", "> ", ">", ">> ", "\"", "\\", "/", "&", "<", "{$",
    "{$x}", "}", "{", "$", "%", "%%", "!", "?", ";", "@", "a@b.co", "http://", "https://a.b/c", "://",
    "javascript:", "data:", "[[[[", "]]]]", "[[include", "[[module", "__", "~~", "\u{a0}", "rt",
    "]]\n", "\n[[", "\n* ", "\n# ", "\n> ", "\n: ", "\n|| ", "\n+ ", "\n= ", "\n ",
];

const WEIRD: &[&str] = &[
    "\0", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{2028}", "\u{2029}",
    "\u{feff}", "\u{301}", "é", "ß", "İ", "ı", "ſ", "中文", "日本", "\u{1f600}", "\u{1f468}\u{200d}\u{1f469}",
    "\u{10ffff}", "\u{fffd}", "\u{e000}", "ǅ", "\t", "\r", "\r\n", "\u{b}", "\u{c}", "\u{3000}", "‘", "’",
    "“", "”", "„", "‚", "…", "\u{2060}", "\u{fe0f}", "𝔘",
];

const ARGS: &[&str] = &[
    "class=\"k\"", "id=\"k2\"", "style=\"color: red\"", "data-k=\"v\"", "aria-label=\"v\"", "title=\"t\"",
    "hidden", "href=\"/k\"", "href=\"javascript:k()\"", "src=\"data:k\"", "onclick=\"k\"", "target=\"_blank\"",
    "CLASS=\"k\"", "class=\"a\\\"b\"", "class = \"k\"", "name=\"k\"", "type=\"k\"", "show=\"+ k\"", "hide=\"- k\"",
    "folded=\"no\"", "hideLocation=\"both\"", "hideLocation=\"x\"", "title=", "class=k", "=\"k\"", "\"k\"",
    "class=\"\"", "class=\"k\" class=\"l\"", "colspan=\"3\"", "width=\"10\"", "alt=\"k\"", "link=\"k\"", "a b",
    "checked", "checked=\"true\"", "tabindex=\"1\"", "lang=\"en\"", "start=\"3\"", "-=\"k\"", "data-=\"k\"",
];

const NAMES: &[&str] = &["k", "some-page", "a:b", "/k", "#k", "http://a.b/c", "_x", "K L", "x/y/z", ":s:p", "*k", "k#l", "k/edit", ""];

impl<'c> Soup<'c> {
    pub fn new(cfg: &'c Cfg) -> Self {
        Soup {
            cfg,
            words: 0,
            budget: cfg.budget,
        }
    }

    pub fn word(&mut self, r: &mut Rng) -> String {
        self.words += 1;
        if self.cfg.unique_words {
            return format!("w{}w", self.words);
        }
        match r.below(12) {
            0..=6 => r.s(&["apple", "Bat", "cat-x", "12", "a", "Don't", "f(x)", "foo.bar", "e_e", "tt"]),
            7 if self.cfg.weird => r.s(WEIRD),
            8 => r.s(&["&", "<b>", "\"q\"", "'s", "a&amp;b", "$5", "100%", "</style>", "<script>"]),
            _ => format!("w{}w", self.words),
        }
    }

    pub fn args(&mut self, r: &mut Rng) -> String {
        let mut s = String::new();
        while r.chance(1, 3) {
            s.push(' ');
            s.push_str(r.pick(ARGS));
            if self.cfg.wild_args && r.chance(1, 12) {
                s.push_str(r.pick(TOKENS));
            }
        }
        s
    }

    fn name(&mut self, r: &mut Rng) -> String {
        if self.cfg.wild_args && r.chance(1, 12) {
            return r.s(TOKENS);
        }
        r.s(NAMES)
    }

    /// Text within one paragraph (mostly).
    pub fn inline(&mut self, r: &mut Rng, depth: usize) -> String {
        let n = r.range(1, 3);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && !r.chance(1, 4) {
                s.push(' ');
            }
            s.push_str(&self.atom(r, depth));
        }
        s
    }

    fn atom(&mut self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 {
            return self.word(r);
        }
        match r.below(30) {
            0..=8 => self.word(r),
            9..=11 => {
                let (a, b) = r.pick(&[
                    ("**", "**"), ("//", "//"), ("__", "__"), ("--", "--"), ("^^", "^^"), (",,", ",,"),
                    ("{{", "}}"), ("##red|", "##"), ("##abc|", "##"), ("##12ab34|", "##"), ("##blue|", "##"),
                ]);
                format!("{a}{}{b}", self.inline(r, depth - 1))
            }
            12..=14 => {
                let n = r.s(INLINE_BLOCKS);
                let e = if r.chance(1, 10) { r.s(ENDS) } else { n.replace(['_', '*'], "") };
                let n = if r.chance(1, 8) { n.to_uppercase() } else { n };
                format!("[[{n}{}]]{}[[/{e}]]", self.args(r), self.inline(r, depth - 1))
            }
            15 => format!("[[size {}]]{}[[/size]]", r.pick(&["80%", "1.5em", "smaller", ""]), self.inline(r, depth - 1)),
            16 => {
                let l = self.inline(r, 0);
                let p = self.name(r);
                match r.below(7) {
                    0 => format!("[[[{p}]]]"),
                    1 => format!("[[[{p}|{l}]]]"),
                    2 => format!("[[[{p}|]]]"),
                    3 => format!("[[[*{p}|{l}]]]"),
                    4 => format!("[#{} {l}]", r.pick(&["k", "", "toc1"])),
                    5 => format!("[http://a.b/{} {l}]", r.pick(&["k", "", "?q=1&r=2"])),
                    _ => format!("[{}{p} {l}]", r.pick(&["", "*"])),
                }
            }
            17 => match r.below(6) {
                0 => "http://example.com/x".into(),
                1 => "[[# k]]".into(),
                2 => "a@example.com".into(),
                3 => format!("[[[!wp:{}|{}]]]", self.name(r), self.word(r)),
                4 => format!("[!wp:k {}]", self.word(r)),
                _ => format!("[[target {}]]", self.name(r)),
            },
            18 if self.cfg.raw => match r.below(5) {
                0 => format!("@@{}@@", self.word(r)),
                1 => format!("@<{}>@", self.word(r)),
                2 => "@@@@".into(),
                3 => "@@@@@@".into(),
                _ => format!("@@{} {}@@", r.pick(TOKENS), self.word(r)),
            },
            19 if self.cfg.hiding => match r.below(5) {
                0 => format!("[!-- {} --]", self.word(r)),
                1 => format!("[[iftags {}]]{}[[/iftags]]", r.pick(&["+tale", "-tale", "tale", "+x", "x y", "+a -b", "+"]), self.inline(r, depth - 1)),
                2 => format!("[[ifcategory {}]]{}[[/ifcategory]]", r.pick(&["_default", "-x", "x", "component", "+x"]), self.inline(r, depth - 1)),
                3 => format!("[[hidden]]{}[[/hidden]]", self.inline(r, depth - 1)),
                _ => format!("[[user {}]]", self.name(r)),
            },
            20 if self.cfg.footnotes => match r.below(4) {
                0 | 1 => format!("[[footnote]]{}[[/footnote]]", self.inline(r, depth - 1)),
                2 => format!("((bibcite {}))", r.pick(&["k1", "k2", "zz"])),
                _ => format!("[[bibcite {}]]", r.pick(&["k1", "k2", "zz"])),
            },
            21 => match r.below(9) {
                0 => "[[image k.png]]".into(),
                1 => format!("[[{}image {}{}]]", r.pick(&["=", "<", ">", "f<", "f>", ""]), r.pick(&["http://a.b/c.png", "k.png", "p/k.png", "s/p/k.png", "a/b/c/d", "/k"]), self.args(r)),
                2 => format!("[[date {}]]", r.pick(&["1600000000", "2020-01-02", "x", "2020-01-02T03:04:05Z format=\"%Y\"", "1 hover=\"no\""])),
                3 => format!("[[checkbox{}]] ", self.args(r)),
                4 => format!("[[radio k{}]] ", self.args(r)),
                5 => format!("[[rb {}|{}]]", self.word(r), self.word(r)),
                6 => format!("[[ruby]]{}[[rt]]{}[[/rt]][[/ruby]]", self.word(r), self.word(r)),
                7 => format!("[[char {}]]", r.pick(&["#97", "amp", "#x41", "zz", "#0", "#99999999"])),
                _ => format!("[[{}{}]]", r.pick(&["later", "*user k", "user k", "embed youtube video=\"k\"", "lines 2", "lines 0", "lines 101", "eref k", "equation k", "xyz", "include k", "include-elements k", "f<toc"]), self.args(r)),
            },
            22 if self.cfg.math => match r.below(4) {
                0 => "[[$ x_1 + y $]]".into(),
                1 => "[[$ \\frac{a}{b} $]]".into(),
                2 => "[[$$]]".into(),
                _ => "[[math k]]\nx^2\n[[/math]]".into(),
            },
            23 if self.budget > 0 => {
                self.budget -= 1;
                let t = r.s(TOKENS);
                if self.cfg.hiding || !t.contains("!--") {
                    t
                } else {
                    "]".into()
                }
            }
            24 if self.budget > 0 => {
                self.budget -= 1;
                match r.below(5) {
                    0 => format!("[[{}{}]]", r.pick(INLINE_BLOCKS), self.args(r)),
                    1 => format!("[[{}{}]]", r.pick(WRAP_BLOCKS), self.args(r)),
                    2 => format!("[[/{}]]", r.pick(ENDS)),
                    3 => format!("[[{} {}", r.pick(INLINE_BLOCKS), self.word(r)),
                    _ => format!("[[{}]]", r.pick(ENDS)),
                }
            }
            25 => format!("[[/{}]]", r.pick(ENDS)),
            26 => " _\n".into(),
            27 => {
                // No bare quotes that turn into each other; plain punctuation.
                r.s(&[",", ".", "-", ":", ";", "!", "?", "(", ")", "/", "*", "#", "=", "&"])
            }
            28 => format!("{}\n{}", self.word(r), self.word(r)),
            _ => self.word(r),
        }
    }

    /// Something that starts on its own line.
    pub fn block(&mut self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 {
            return self.inline(r, 1);
        }
        match r.below(26) {
            0..=5 => {
                let mut s = self.inline(r, depth);
                while r.chance(1, 3) {
                    s.push('\n');
                    s.push_str(&self.inline(r, depth));
                }
                s
            }
            6 => {
                if self.cfg.headings {
                    format!("{}{} {}", "+".repeat(r.range(1, 7)), if r.chance(1, 5) { "*" } else { "" }, self.inline(r, depth - 1))
                } else {
                    self.inline(r, depth)
                }
            }
            7 | 8 => {
                // list
                let mut s = String::new();
                let mut d = 0usize;
                for _ in 0..r.range(1, 5) {
                    d = match r.below(4) {
                        0 => d + 1,
                        1 => d.saturating_sub(1),
                        2 if r.chance(1, 10) => d + 19,
                        _ => d,
                    };
                    s.push_str(&" ".repeat(d));
                    s.push_str(r.pick(&["* ", "# ", "* ", "*", "** "]));
                    s.push_str(&self.inline(r, depth - 1));
                    s.push('\n');
                }
                s
            }
            9 => {
                let mut s = String::new();
                for _ in 0..r.range(1, 4) {
                    s.push_str(&">".repeat(r.range(1, 3)));
                    s.push_str(r.pick(&[" ", " ", "", "  "]));
                    s.push_str(&self.inline(r, depth - 1));
                    s.push('\n');
                }
                s
            }
            10 => {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    s.push_str(&format!(": {} : {}\n", self.inline(r, 0), self.inline(r, depth - 1)));
                }
                s
            }
            11 | 12 if self.cfg.tables => {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    for _ in 0..r.range(1, 3) {
                        s.push_str(r.pick(&["||", "||", "||~", "||=", "||<", "||>", "||||"]));
                        s.push_str(&format!(" {} ", self.inline(r, depth - 1)));
                    }
                    s.push_str(if r.chance(1, 15) { "\n" } else { "||\n" });
                }
                s
            }
            13 if self.cfg.tables => {
                let mut s = format!("[[table{}]]\n", self.args(r));
                for _ in 0..r.range(0, 2) {
                    s.push_str("[[row]]\n");
                    for _ in 0..r.range(0, 2) {
                        let c = r.pick(&["cell", "hcell"]);
                        s.push_str(&format!("[[{c}{}]]{}[[/{c}]]\n", self.args(r), self.inline(r, depth - 1)));
                    }
                    if r.chance(1, 8) {
                        s.push_str(&self.word(r));
                    }
                    s.push_str("[[/row]]\n");
                }
                s.push_str("[[/table]]");
                s
            }
            14 => {
                let l = r.pick(&["ul", "ol"]);
                let mut s = format!("[[{l}{}]]\n", self.args(r));
                for _ in 0..r.range(0, 3) {
                    if r.chance(1, 6) {
                        s.push_str("[[ul]][[li]]");
                        s.push_str(&self.inline(r, 0));
                        s.push_str("[[/li]][[/ul]]\n");
                    } else {
                        s.push_str(&format!("[[li{}]]{}[[/li]]\n", self.args(r), self.inline(r, depth - 1)));
                    }
                }
                s.push_str(&format!("[[/{l}]]"));
                s
            }
            15 | 16 => {
                let n = r.s(WRAP_BLOCKS);
                let e = if r.chance(1, 10) { r.s(ENDS) } else { n.replace('_', "") };
                format!("[[{n}{}]]\n{}\n[[/{e}]]", self.args(r), self.doc(r, depth - 1, 2))
            }
            17 => {
                let mut s = "[[tabview]]\n".to_string();
                for _ in 0..r.range(0, 2) {
                    s.push_str(&format!("[[tab k{}]]\n{}\n[[/tab]]\n", r.below(9), self.doc(r, depth - 1, 1)));
                }
                s.push_str("[[/tabview]]");
                s
            }
            18 => match r.below(6) {
                0 => "----".into(),
                1 => "-----".into(),
                2 => r.s(&["~~~~", "~~~~<", "~~~~>", "~~~~="]),
                3 => format!("= {}", self.inline(r, depth - 1)),
                4 => "[[lines 3]]".into(),
                _ => "---".into(),
            },
            19 if self.cfg.raw => {
                let nm = if r.coin() { format!(" name=\"c{}\"", r.below(3)) } else { String::new() };
                match r.below(4) {
                    0 => format!("[[code{nm}]]\n{}\n[[/code]]", self.word(r)),
                    1 => format!("[[code type=\"css\"{nm}]]\n{} **{}\n[[/code]]", self.word(r), self.word(r)),
                    2 => format!("[[html]]\n<b>{}</b>\n[[/html]]", self.word(r)),
                    _ => format!("[[code{nm}]]\n{}\n{}\n[[/code]]", r.pick(TOKENS), self.word(r)),
                }
            }
            20 if self.cfg.hiding => match r.below(8) {
                0 => "[[toc]]".into(),
                1 => "[[f>toc]]".into(),
                2 => format!("[[module {}]]", r.pick(&["Rate", "Join", "Backlinks", "Categories", "PageTree depth=\"2\"", "Zzz", "PageTree depth=\"x\"", "CSS"])),
                3 if self.cfg.css => format!("[[module css]]\n.k {{ color: {}; }}\n[[/module]]", r.pick(&["red", "#fff", "</style>", "url(x)", "blue"])),
                4 => "[[footnoteblock]]".into(),
                5 => format!("[[footnoteblock title=\"k\" hide=\"{}\"]]", r.pick(&["true", "no", "x"])),
                6 => format!("[[bibliography]]\n: k1 : {}\n: k2 : {}\n[[/bibliography]]", self.inline(r, 0), self.inline(r, 0)),
                _ => format!("[[iframe {}{}]]", r.pick(&["https://a.b/", "javascript:k", "k", "http://a.b\" onload=\"k"]), self.args(r)),
            },
            21 if self.cfg.hiding => {
                let b = r.pick(&["iftags", "ifcategory", "hidden", "invisible"]);
                format!("[[{b} {}]]\n{}\n[[/{b}]]", r.pick(&["+tale", "-tale", "", "_default"]), self.doc(r, depth - 1, 2))
            }
            22 if self.budget > 0 => {
                self.budget -= 1;
                format!("[[{}{}]]\n", r.pick(WRAP_BLOCKS), self.args(r))
            }
            23 => format!("[[/{}]]", r.pick(ENDS)),
            24 => {
                let t = r.s(&["[[include k]]", "[[embed github-gist username=\"k\" hash=\"k\"]]", "[[embed vimeo video=\"k\"]]", "[[embed gitlab-snippet snippet-id=\"3\"]]", "[[module rate]]", "[[html]]", "[[xyz]]", "[[/xyz]]"]);
                if !self.cfg.hiding { self.word(r) } else { t }
            }
            _ => self.inline(r, depth),
        }
    }

    pub fn doc(&mut self, r: &mut Rng, depth: usize, size: usize) -> String {
        let mut s = String::new();
        let n = r.range(1, size.max(1));
        for i in 0..n {
            if i > 0 {
                s.push_str(r.pick(&["\n\n", "\n\n", "\n\n", "\n", "\n", "\n\n\n", " ", ""]));
            }
            s.push_str(&self.block(r, depth));
        }
        s
    }
}

/// A hostile document.
pub fn soup(r: &mut Rng, cfg: &Cfg) -> String {
    let mut g = Soup::new(cfg);
    let depth = r.range(1, 4);
    let size = r.range(1, cfg.size.max(1));
    g.doc(r, depth, size)
}

/// A fixture of the repository, or several, cut and spliced.
pub fn mutant(r: &mut Rng) -> String {
    let c = super::corpus();
    let mut s = r.pick(c);
    for _ in 0..r.below(4) {
        let cut = |s: &str, r: &mut Rng| -> usize {
            let mut i = r.below(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        match r.below(7) {
            0 => {
                let t = r.pick(c);
                s.push_str(r.pick(&["\n\n", "\n", "", " "]));
                s.push_str(&t);
            }
            1 => {
                let i = cut(&s, r);
                s.insert_str(i, r.pick(TOKENS));
            }
            2 => {
                let i = cut(&s, r);
                s.insert_str(i, r.pick(WEIRD));
            }
            3 => {
                let (a, b) = (cut(&s, r), cut(&s, r));
                let (a, b) = (a.min(b), a.max(b));
                if b - a < 12 {
                    s.replace_range(a..b, "");
                }
            }
            4 => {
                let t = r.pick(c);
                let i = cut(&s, r);
                s.insert_str(i, &t);
            }
            5 => {
                let (a, b) = (cut(&s, r), cut(&s, r));
                let (a, b) = (a.min(b), a.max(b));
                if b - a < 60 {
                    let t = s[a..b].to_string();
                    s.insert_str(a, &t);
                }
            }
            _ => {
                let i = cut(&s, r);
                s.truncate(i);
            }
        }
        if s.len() > 3000 {
            break;
        }
    }
    s
}

/// Arbitrary characters, weighted to those that matter.
pub fn chars(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(10) {
            0..=2 => s.push(r.pick(&['[', ']', '*', '/', '_', '-', '^', ',', '{', '}', '#', '@', '<', '>', '|', '~', '+', '=', ':', '(', ')', '$', '!', '&', '"', '\'', '\\', '`', '.', '%'])),
            3 => s.push_str(r.pick(WEIRD)),
            4 => s.push_str(r.pick(TOKENS)),
            5 => s.push(r.pick(&['\n', '\n', ' ', ' ', '\t', '\r', '\u{a0}'])),
            6 => s.push(char::from_u32((r.next() % 0x110000) as u32).unwrap_or('x')),
            7 => s.push((r.below(0x80) as u8) as char),
            _ => s.push(r.pick(&['a', 'b', 'Z', '0', '9', 'x', 'q', 'é'])),
        }
    }
    s
}

/// How many constructs remain open at some point: a bound on the cost of retries.
pub fn risky(s: &str) -> bool {
    // Count possible openers that could be retried from within each other.
    let mut opens = 0i32;
    let b = s.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'[' && b[i + 1] == b'[' {
            if b.get(i + 2) == Some(&b'/') {
                opens -= 1;
            } else {
                opens += 1;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    let toks = ["**", "//", "__", "--", "^^", ",,", "{{", "##", "@@"]
        .iter()
        .map(|t| s.matches(t).count() as i32)
        .sum::<i32>();
    opens > 14 || toks > 40
}
