//! A strict reader for the pages dmdoc writes.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Node {
    El { tag: String, attrs: BTreeMap<String, String>, kids: Vec<Node> },
    Text(String),
}
use Node::*;

const VOID: &[&str] = &["meta", "link", "img", "br", "hr", "base"];

pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let Some(e) = rest[i..].find(';') else { return Err(format!("bare & in {:?}", s)) };
        match &rest[i + 1..i + e] {
            "amp" => out.push('&'),
            "lt" => out.push('<'),
            "gt" => out.push('>'),
            "quot" => out.push('"'),
            "#x27" | "#39" | "apos" => out.push('\''),
            other => return Err(format!("entity &{}; in {:?}", other, s)),
        }
        rest = &rest[i + e + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

pub fn parse(text: &str) -> Result<Vec<Node>, String> {
    // open elements, and what is in each
    let mut stack: Vec<(String, BTreeMap<String, String>, Vec<Node>)> = vec![(String::new(), BTreeMap::new(), vec![])];
    let mut rest = text;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("comment without end")?;
            rest = &r[e + 3..];
        } else if let Some(r) = rest.strip_prefix("<!DOCTYPE html>") {
            rest = r;
        } else if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("tag without end")?;
            let (tag, attrs, kids) = stack.pop().unwrap();
            if tag != r[..e] || stack.is_empty() {
                return Err(format!("</{}> where </{}> is due", &r[..e], tag));
            }
            stack.last_mut().unwrap().2.push(El { tag, attrs, kids });
            rest = &r[e + 1..];
        } else if let Some(mut r) = rest.strip_prefix('<') {
            let e = r.find(|c: char| !c.is_ascii_alphanumeric()).ok_or("tag without end")?;
            let tag = r[..e].to_string();
            if tag.is_empty() {
                return Err(format!("bare < at {:?}", rest.chars().take(40).collect::<String>()));
            }
            r = &r[e..];
            let mut attrs = BTreeMap::new();
            loop {
                r = r.trim_start();
                if let Some(x) = r.strip_prefix("/>").or(r.strip_prefix('>')) {
                    r = x;
                    break;
                }
                let e = r.find("=\"").ok_or_else(|| format!("attribute of <{}> at {:?}", tag, r.chars().take(40).collect::<String>()))?;
                let name = r[..e].to_string();
                r = &r[e + 2..];
                let e = r.find('"').ok_or("attribute without end")?;
                attrs.insert(name, unescape(&r[..e])?);
                r = &r[e + 1..];
            }
            if VOID.contains(&tag.as_str()) {
                stack.last_mut().unwrap().2.push(El { tag, attrs, kids: vec![] });
            } else {
                stack.push((tag, attrs, vec![]));
            }
            rest = r;
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = unescape(&rest[..e])?;
            match stack.last_mut().unwrap().2.last_mut() {
                Some(Text(before)) => before.push_str(&t),
                _ => stack.last_mut().unwrap().2.push(Text(t)),
            }
            rest = &rest[e..];
        }
    }
    if stack.len() > 1 {
        return Err(format!("<{}> is never closed", stack.last().unwrap().0));
    }
    Ok(stack.pop().unwrap().2)
}

impl Node {
    pub fn tag(&self) -> &str {
        match self {
            El { tag, .. } => tag,
            Text(_) => "",
        }
    }
    pub fn attr(&self, name: &str) -> &str {
        match self {
            El { attrs, .. } => attrs.get(name).map_or("", |s| s.as_str()),
            Text(_) => "",
        }
    }
    pub fn has(&self, name: &str) -> bool {
        matches!(self, El { attrs, .. } if attrs.contains_key(name))
    }
    pub fn kids(&self) -> &[Node] {
        match self {
            El { kids, .. } => kids,
            Text(_) => &[],
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in self.kids() {
            k.walk(f);
        }
    }
    pub fn text(&self) -> String {
        match self {
            Text(t) => t.clone(),
            El { kids, .. } => kids.iter().map(|k| k.text()).collect(),
        }
    }
}

pub fn find<'a>(nodes: &'a [Node], tag: &str) -> Option<&'a Node> {
    let mut found = None;
    for n in nodes {
        n.walk(&mut |n| {
            if found.is_none() && n.tag() == tag {
                found = Some(n);
            }
        });
    }
    found
}

/// One way to write what is shown, without the looks and without the spacing around tags.
pub fn canon(nodes: &[Node]) -> String {
    let mut out = String::new();
    put(nodes, false, &mut out);
    out.trim().to_string()
}

pub fn canon_of(html: &str) -> String {
    canon(&parse(html).unwrap_or_else(|e| panic!("{}: {}", e, html)))
}

fn put(nodes: &[Node], pre: bool, out: &mut String) {
    for n in nodes {
        match n {
            Text(t) => {
                let t = t.replace('&', "&amp;").replace('<', "&lt;");
                if pre {
                    out.push_str(&t);
                } else {
                    out.push_str(&t.split_whitespace().collect::<Vec<_>>().join(" "));
                }
            },
            El { tag, attrs, kids } => {
                out.push_str(&format!("<{}", tag));
                for (k, v) in attrs {
                    let keep = match k.as_str() {
                        "href" | "id" | "src" => true,
                        "title" => tag == "img",
                        _ => false,
                    };
                    if keep {
                        let v = if v.starts_with("https://www.byond.com/docs/ref/#") { "(reference)" } else { v };
                        out.push_str(&format!(" {}={:?}", k, v));
                    }
                }
                out.push('>');
                put(kids, pre || tag == "pre", out);
                if !VOID.contains(&tag.as_str()) {
                    out.push_str(&format!("</{}>", tag));
                }
                if matches!(tag.as_str(), "p" | "h1" | "h2" | "h3" | "h4" | "ul" | "li" | "pre" | "table" | "tr" | "td" | "th") {
                    out.push('\n');
                }
            },
        }
    }
}
