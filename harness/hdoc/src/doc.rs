//! Documentation texts: as Markdown, and what is to be shown for them.
use engine::G;

#[derive(Debug, Clone)]
pub enum Inline {
    Word(String),
    Em(String),
    Strong(String),
    Code(String),
    /// `[text][target]` or `[target]`
    Cross(Option<String>, String),
    Url(String, String),
}
use Inline::*;

#[derive(Debug, Clone)]
pub enum Block {
    Para(Vec<Inline>),
    Bullets(Vec<Vec<Inline>>),
    Numbers(Vec<Vec<Inline>>),
    Heading(usize, Vec<Inline>),
    Fence(Vec<String>),
}
use Block::*;

#[derive(Debug, Clone, Default)]
pub struct Doc {
    pub title: Option<Vec<Inline>>,
    pub blocks: Vec<Block>,
}

const WORDS: &[&str] = &[
    "the", "a", "thing", "does", "it's", "Value", "of", "x,", "when", "done.", "é", "\u{2192}", "&", "\"quoted\"", "a<b", "(or", "not)", "100%", "R&D", "foo_bar", "semi;", "colon:", "tail", "end!", "why?", "$5", "@all", "~", "=", "{x}", "a/b",
];

fn word(g: &G) -> String {
    g.pick(WORDS).to_string()
}

/// What crosslinks may refer to.
pub type Targets<'a> = &'a [String];

fn inlines(g: &G, targets: Targets, max: usize) -> Vec<Inline> {
    (0..1 + g.usize(max))
        .map(|i| match g.weighted(&[10, 1, 1, 1, if targets.is_empty() { 0 } else { 3 }, 1]) {
            // what could begin a block of another kind does not come first
            0 => Word(if i == 0 { g.pick(&["This", "that", "Thing", "it", "\u{c9}t\u{e9}", "R&D"]).to_string() } else { word(g) }),
            1 => Em(g.pick(&["really", "so", "R&D"]).to_string()),
            2 => Strong(g.pick(&["bold", "must"]).to_string()),
            3 => Code(g.pick(&["x = 1", "a < b", "[i]", "/obj", "*p*", "\"s\""]).to_string()),
            4 => Cross(g.chance(1, 3).then(|| g.pick(&["see", "this one", "R&D"]).to_string()), g.pick(targets).clone()),
            _ => Url("site".into(), g.pick(&["https://example.org/", "https://example.org/?a=1&b=2"]).to_string()),
        })
        .collect()
}

pub fn doc(g: &G, targets: Targets, titles: bool) -> Doc {
    let title = (titles && g.chance(1, 3)).then(|| inlines(g, &[], 3));
    let mut blocks = vec![];
    if g.chance(7, 8) || title.is_some() {
        blocks.push(Para(inlines(g, targets, 8)));
    }
    let more = g.weighted(&[4, 2, 2, 1]).max(blocks.is_empty() as usize);
    for _ in 0..more {
        let last = blocks.last().map(std::mem::discriminant);
        let b = match g.below(6) {
            0 => Bullets((0..1 + g.usize(3)).map(|_| inlines(g, targets, 4)).collect()),
            1 => Numbers((0..1 + g.usize(3)).map(|_| inlines(g, targets, 4)).collect()),
            2 if !blocks.is_empty() => Heading(2 + g.usize(2), inlines(g, targets, 3)),
            3 => Fence((0..1 + g.usize(3)).map(|_| g.pick(&["x = 1", "if(a < b)", "[link]", "# no", "- no", "\"&\""]).to_string()).collect()),
            _ => Para(inlines(g, targets, 8)),
        };
        // two lists in a row would be one
        if last == Some(std::mem::discriminant(&b)) && !matches!(b, Para(_) | Heading(..)) {
            continue;
        }
        blocks.push(b);
    }
    Doc { title, blocks }
}

fn md(line: &[Inline]) -> Vec<String> {
    line.iter()
        .map(|i| match i {
            Word(w) => w.clone(),
            Em(w) => format!("*{}*", w),
            Strong(w) => format!("**{}**", w),
            Code(c) => format!("`{}`", c),
            Cross(None, t) => format!("[{}]", t),
            Cross(Some(x), t) => format!("[{}][{}]", x, t),
            Url(x, u) => format!("[{}]({})", x, u),
        })
        .collect()
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/// Where a crosslink leads, if anywhere.
pub type Resolve<'a> = &'a dyn Fn(&str) -> Option<String>;

fn html(line: &[Inline], resolve: Resolve) -> String {
    line.iter()
        .map(|i| match i {
            Word(w) => esc(w),
            Em(w) => format!("<em>{}</em>", esc(w)),
            Strong(w) => format!("<strong>{}</strong>", esc(w)),
            Code(c) => format!("<code>{}</code>", esc(c)),
            Cross(text, t) => match (resolve(t), text) {
                (Some(href), text) => format!("<a href=\"{}\">{}</a>", esc(&href), esc(text.as_ref().unwrap_or(t))),
                (None, None) => format!("[{}]", esc(t)),
                (None, Some(text)) => format!("[{}][{}]", esc(text), esc(t)),
            },
            Url(x, u) => format!("<a href=\"{}\">{}</a>", esc(u), x),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn slug(line: &[Inline], resolve: Resolve) -> String {
    let mut text = String::new();
    for i in line {
        match i {
            Word(w) | Em(w) | Strong(w) => text.push_str(w),
            // not part of the name
            Code(_) => {},
            Cross(None, t) if resolve(t).is_some() => text.push_str(t),
            Cross(Some(x), t) if resolve(t).is_some() => text.push_str(x),
            Cross(None, t) => text.push_str(&format!("[{}]", t)),
            Cross(Some(x), t) => text.push_str(&format!("[{}][{}]", x, t)),
            Url(x, _) => text.push_str(x),
        }
        text.push(' ');
    }
    let mut out = String::new();
    for c in text.chars().filter(|c| *c != '\'') {
        if c.is_alphanumeric() {
            out.extend(c.to_lowercase());
        } else if !out.is_empty() && !out.ends_with('-') {
            out.push('-');
        }
    }
    out.trim_end_matches('-').to_string()
}

impl Doc {
    pub fn markdown(&self, g: &G) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        if let Some(t) = &self.title {
            out.push(format!("# {}", md(t).join(" ")));
        }
        for b in &self.blocks {
            if !out.is_empty() {
                out.push(String::new());
            }
            match b {
                Para(line) => {
                    let mut l = String::new();
                    for w in md(line) {
                        if !l.is_empty() && g.chance(1, 5) && w.chars().next().unwrap().is_ascii_lowercase() {
                            out.push(std::mem::take(&mut l));
                        }
                        if !l.is_empty() {
                            l.push(' ');
                        }
                        l.push_str(&w);
                    }
                    out.push(l);
                },
                Bullets(items) => out.extend(items.iter().map(|i| format!("- {}", md(i).join(" ")))),
                Numbers(items) => out.extend(items.iter().enumerate().map(|(n, i)| format!("{}. {}", n + 1, md(i).join(" ")))),
                Heading(n, line) => out.push(format!("{} {}", "#".repeat(*n), md(line).join(" "))),
                Fence(lines) => {
                    out.push("```".into());
                    out.extend(lines.clone());
                    out.push("```".into());
                },
            }
        }
        out
    }

    pub fn html(&self, resolve: Resolve) -> String {
        let mut out = String::new();
        for b in &self.blocks {
            match b {
                Para(l) => out.push_str(&format!("<p>{}</p>", html(l, resolve))),
                Bullets(items) => {
                    out.push_str("<ul>");
                    out.extend(items.iter().map(|i| format!("<li>{}</li>", html(i, resolve))));
                    out.push_str("</ul>");
                },
                Numbers(items) => {
                    out.push_str("<ol>");
                    out.extend(items.iter().map(|i| format!("<li>{}</li>", html(i, resolve))));
                    out.push_str("</ol>");
                },
                Heading(n, l) => out.push_str(&format!("<h{} id=\"{}\">{}</h{}>", n, slug(l, resolve), html(l, resolve), n)),
                Fence(lines) => {
                    out.push_str("<pre><code>");
                    out.extend(lines.iter().map(|l| format!("{}\n", esc(l))));
                    out.push_str("</code></pre>");
                },
            }
        }
        out
    }

    pub fn teaser(&self, resolve: Resolve) -> String {
        match self.blocks.first() {
            Some(Para(l)) => html(l, resolve),
            _ => String::new(),
        }
    }

    /// Whether there is more than a short note.
    pub fn described(&self) -> bool {
        self.blocks.len() > matches!(self.blocks.first(), Some(Para(_))) as usize
    }

    pub fn title_text(&self) -> Option<String> {
        self.title.as_ref().map(|t| {
            t.iter()
                .map(|i| match i {
                    Word(w) | Em(w) | Strong(w) | Code(w) => w.clone(),
                    Cross(x, t) => x.clone().unwrap_or(t.clone()),
                    Url(x, _) => x.clone(),
                })
                .collect::<Vec<_>>()
                .join(" ")
        })
    }

    /// What the crosslinks refer to; `plain` ones have no text of their own.
    pub fn crosslinks(&self, plain: bool) -> Vec<String> {
        let mut out = vec![];
        let mut line = |l: &Vec<Inline>| {
            for i in l {
                match i {
                    Cross(text, t) if !plain || text.is_none() => out.push(t.clone()),
                    _ => {},
                }
            }
        };
        for b in &self.blocks {
            match b {
                Para(l) | Heading(_, l) => line(l),
                Bullets(i) | Numbers(i) => i.iter().for_each(&mut line),
                Fence(_) => {},
            }
        }
        out
    }
}
