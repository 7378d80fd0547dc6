//! A strict parser for the HTML the renderer emits. It accepts only fully quoted, fully
//! escaped, properly nested markup; anything else is an error with its position.

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    El(El),
    Text(String),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub kids: Vec<Node>,
    /// Raw content of style and math elements, which is not markup (of ours).
    pub raw: Option<String>,
}

pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source",
    "track", "wbr",
];

impl El {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k == name)
            .map(|(_, v)| v.as_deref().unwrap_or(""))
    }
    pub fn has(&self, name: &str) -> bool {
        self.attrs.iter().any(|(k, _)| k == name)
    }
    pub fn class(&self) -> &str {
        self.attr("class").unwrap_or("")
    }
    pub fn has_class(&self, c: &str) -> bool {
        self.class().split(' ').any(|x| x == c)
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|n| match n {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    /// All descendant elements in document order (self first).
    pub fn all(&self) -> Vec<&El> {
        let mut out = vec![self];
        for e in self.els() {
            out.extend(e.all());
        }
        out
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_into(&mut s);
        s
    }
    fn text_into(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => e.text_into(s),
            }
        }
    }
    /// Serializes in a canonical form, for comparisons.
    pub fn show(&self) -> String {
        let mut s = String::new();
        show_into(&Node::El(self.clone()), &mut s);
        s
    }
}

pub fn show_into(n: &Node, s: &mut String) {
    match n {
        Node::Text(t) => s.push_str(&esc(t)),
        Node::El(e) => {
            s.push('<');
            s.push_str(&e.name);
            for (k, v) in &e.attrs {
                s.push(' ');
                s.push_str(k);
                if let Some(v) = v {
                    s.push_str(&format!("=\"{}\"", esc(v)));
                }
            }
            s.push('>');
            if let Some(r) = &e.raw {
                s.push_str(r);
            }
            for k in &e.kids {
                show_into(k, s);
            }
            if !VOID.contains(&e.name.as_str()) {
                s.push_str(&format!("</{}>", e.name));
            }
        }
    }
}

pub fn esc(t: &str) -> String {
    let mut s = String::new();
    for c in t.chars() {
        match c {
            '<' => s.push_str("&lt;"),
            '>' => s.push_str("&gt;"),
            '&' => s.push_str("&amp;"),
            '"' => s.push_str("&quot;"),
            '\'' => s.push_str("&#39;"),
            c => s.push(c),
        }
    }
    s
}

/// The text once unescaped, or what is wrong with it. Quotes have to be escaped as well.
fn unescape(t: &str) -> Result<String, String> {
    let mut s = String::with_capacity(t.len());
    let mut rest = t;
    while let Some(p) = rest.find(|c| matches!(c, '&' | '<' | '>' | '"' | '\'' | '\0')) {
        s.push_str(&rest[..p]);
        rest = &rest[p..];
        if !rest.starts_with('&') {
            return Err(format!("unescaped {:?} in {:?}", rest.chars().next().unwrap(), clip(t)));
        }
        let end = rest
            .find(';')
            .ok_or_else(|| format!("bare & in {:?}", clip(t)))?;
        match &rest[1..end] {
            "lt" => s.push('<'),
            "gt" => s.push('>'),
            "amp" => s.push('&'),
            "quot" => s.push('"'),
            "#39" | "#x27" | "apos" => s.push('\''),
            "nbsp" => s.push('\u{a0}'),
            e => return Err(format!("unknown entity &{};", clip(e))),
        }
        rest = &rest[end + 1..];
    }
    s.push_str(rest);
    Ok(s)
}

fn clip(s: &str) -> String {
    s.chars().take(120).collect()
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

/// Parses a sequence of nodes that has to end exactly at the end of the text.
pub fn parse(s: &str) -> Result<Vec<Node>, String> {
    let mut p = P { s, i: 0 };
    // Iterative, so that deep output cannot overflow the monitor's own stack.
    let mut stack: Vec<El> = vec![El::default()];
    while p.i < s.len() {
        let rest = &p.s[p.i..];
        if let Some(r) = rest.strip_prefix("</") {
            let end = r.find('>').ok_or("end tag without >")?;
            let name = &r[..end];
            let top = stack.pop().unwrap();
            if stack.is_empty() {
                return Err(format!("end tag </{}> without start tag", clip(name)));
            }
            if top.name != name {
                return Err(format!("</{}> closes <{}>", clip(name), top.name));
            }
            p.i += 2 + end + 1;
            stack.last_mut().unwrap().kids.push(Node::El(top));
        } else if rest.starts_with('<') {
            let el = p.start_tag()?;
            if VOID.contains(&el.name.as_str()) {
                stack.last_mut().unwrap().kids.push(Node::El(el));
            } else if el.name == "style" || el.name == "math" {
                let close = format!("</{}>", el.name);
                let rest = &p.s[p.i..];
                let end = if el.name == "style" {
                    // What a browser takes as the end of a style element, in any spelling.
                    let lower = rest.to_ascii_lowercase();
                    let e = lower.find("</style").ok_or("unclosed <style>")?;
                    if !rest[e..].starts_with(&close) {
                        return Err(format!("style closed by {:?}", clip(&rest[e..])));
                    }
                    e
                } else {
                    rest.find(&close).ok_or("unclosed <math>")?
                };
                let mut el = el;
                el.raw = Some(rest[..end].to_string());
                p.i += end + close.len();
                stack.last_mut().unwrap().kids.push(Node::El(el));
            } else {
                stack.push(el);
                if stack.len() > 100_000 {
                    return Err("nesting too deep".into());
                }
            }
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            let t = unescape(&rest[..end]).map_err(|e| format!("{e} (at {})", p.i))?;
            let kids = &mut stack.last_mut().unwrap().kids;
            if let Some(Node::Text(prev)) = kids.last_mut() {
                prev.push_str(&t);
            } else {
                kids.push(Node::Text(t));
            }
            p.i += end;
        }
    }
    let root = stack.pop().unwrap();
    if !stack.is_empty() {
        return Err(format!("<{}> is never closed", root.name));
    }
    Ok(root.kids)
}

/// The body has to be exactly one element, `wj-body`.
pub fn parse_body(s: &str) -> Result<El, String> {
    let mut nodes = parse(s)?;
    if nodes.len() != 1 {
        return Err(format!("{} nodes at the top level", nodes.len()));
    }
    match nodes.pop().unwrap() {
        Node::El(e) => Ok(e),
        Node::Text(t) => Err(format!("text at the top level: {}", clip(&t))),
    }
}

impl<'a> P<'a> {
    fn start_tag(&mut self) -> Result<El, String> {
        let s = self.s;
        let start = self.i;
        self.i += 1;
        let name = self.name()?;
        let mut el = El {
            name,
            ..El::default()
        };
        loop {
            let rest = &s[self.i..];
            if rest.starts_with('>') {
                self.i += 1;
                return Ok(el);
            }
            if !rest.starts_with(' ') {
                return Err(format!("malformed start tag {:?}", clip(&s[start..])));
            }
            self.i += 1;
            // One blank before the end is tolerated.
            if s[self.i..].starts_with('>') {
                continue;
            }
            let key = self.attr_name()?;
            if el.attrs.iter().any(|(k, _)| k.eq_ignore_ascii_case(&key)) {
                return Err(format!("attribute {key:?} twice in {:?}", clip(&s[start..])));
            }
            let rest = &s[self.i..];
            let value = if let Some(r) = rest.strip_prefix('=') {
                let r = r
                    .strip_prefix('"')
                    .ok_or_else(|| format!("unquoted value in {:?}", clip(&s[start..])))?;
                let end = r.find('"').ok_or("unterminated attribute value")?;
                self.i += 2 + end + 1;
                Some(unescape(&r[..end])?)
            } else {
                None
            };
            el.attrs.push((key, value));
        }
    }

    fn name(&mut self) -> Result<String, String> {
        let rest = &self.s[self.i..];
        let n = rest
            .find(|c: char| !(c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-'))
            .unwrap_or(rest.len());
        if n == 0 || !rest.as_bytes()[0].is_ascii_lowercase() {
            return Err(format!("bad tag name at {:?}", clip(rest)));
        }
        self.i += n;
        Ok(rest[..n].to_string())
    }

    fn attr_name(&mut self) -> Result<String, String> {
        let rest = &self.s[self.i..];
        let n = rest
            .find(|c: char| {
                c.is_whitespace() || c.is_control() || matches!(c, '=' | '>' | '<' | '"' | '\'' | '/')
            })
            .unwrap_or(rest.len());
        if n == 0 {
            return Err(format!("bad attribute name at {:?}", clip(rest)));
        }
        self.i += n;
        Ok(rest[..n].to_string())
    }
}
