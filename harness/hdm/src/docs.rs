//! C15: documentation comments attach to the item they document.
use dm::docs::*;
use engine::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
struct Doc {
    block: bool,
    enclosing: bool,
    /// (extra indentation, content); no content is a blank line
    lines: Vec<(usize, String)>,
    /// what stands between the comment's delimiters
    raw: String,
    line: u32,
}

type Want = BTreeMap<String, Vec<Doc>>;

struct Out<'a> {
    g: &'a G,
    lines: Vec<String>,
    want: Want,
    n: usize,
    procs: BTreeMap<String, usize>,
    vars: BTreeMap<String, ()>,
    file: String,
    macros: usize,
    attached: usize,
}

const STARTS: &[&str] = &["", "", "", "", "/obj/item ", "**bold** ", "- ", "1. ", "`code` ", "[/obj/item] ", "> ", "# Title ", "don't ", "\"x ", "a*b ", "~ ", "// ", "<b> ", "@ "];
const ENDS: &[&str] = &["", "", "", "", " **bold**", " /obj/item", " and/", " x*y", " it's", " }", " {", " //x", "...", " \u{e9}"];

impl<'a> Out<'a> {
    fn content(&mut self, block: bool) -> String {
        self.n += 1;
        let (s, e) = (*self.g.pick(STARTS), *self.g.pick(ENDS));
        let s = if block && s.starts_with("//") { "" } else { s };
        format!("{}text {}{}", s, self.n, e)
    }
    fn push(&mut self, depth: usize, s: &str) {
        self.lines.push(format!("{}{}", "\t".repeat(depth), s));
    }
    fn put(&mut self, key: &str, mut d: Doc, line: usize) {
        d.line = line as u32;
        self.attached += 1;
        self.want.entry(key.to_string()).or_default().push(d);
    }
    fn line_doc(&mut self, enclosing: bool) -> (String, Doc) {
        let extra = if self.g.chance(1, 5) { 2 } else { 0 };
        let lines = if self.g.chance(1, 8) { vec![(0, String::new())] } else { vec![(extra, self.content(false))] };
        let mut raw = if lines[0].1.is_empty() { String::new() } else { format!(" {}{}", " ".repeat(extra), lines[0].1) };
        if self.g.chance(1, 6) {
            raw.push_str("  ");
        }
        (format!("{}{}", if enclosing { "//!" } else { "///" }, raw), Doc { block: false, enclosing, lines, raw, line: 0 })
    }
    fn short_block(&mut self, enclosing: bool) -> (String, Doc) {
        let c = self.content(true);
        let raw = format!(" {} ", c);
        (format!("/*{}{}*/", if enclosing { '!' } else { '*' }, raw), Doc { block: true, enclosing, lines: vec![(0, c)], raw, line: 0 })
    }
    /// Comments on lines of their own.
    fn own_line(&mut self, depth: usize, enclosing: bool, key: &str) {
        let at = self.lines.len() + 1;
        match self.g.below(4) {
            0 | 1 => {
                let (s, d) = self.line_doc(enclosing);
                self.push(depth, &s);
                self.put(key, d, at);
            },
            2 => {
                let (s, d) = self.short_block(enclosing);
                self.push(depth, &s);
                self.put(key, d, at);
            },
            _ => {
                let ind = "\t".repeat(depth);
                let deco = *self.g.pick(&[" * ", "* ", "", "  ", "\t"]);
                let n = 1 + self.g.len(0, 3);
                let mut lines = vec![];
                let mut raw = if self.g.chance(1, 6) { "****\n".to_string() } else { "\n".to_string() };
                for i in 0..n {
                    if i > 0 && i + 1 < n && self.g.chance(1, 4) {
                        lines.push((0, String::new()));
                        raw.push_str(&format!("{}\n", if deco.contains('*') { format!("{}{}", ind, deco.trim_end()) } else { String::new() }));
                        continue;
                    }
                    let extra = if self.g.chance(1, 4) { 4 } else { 0 };
                    let c = self.content(true);
                    raw.push_str(&format!("{}{}{}{}\n", ind, deco, " ".repeat(extra), c));
                    lines.push((extra, c));
                }
                raw.push_str(&format!("{} ", ind));
                let s = format!("{}/*{}{}*/", ind, if enclosing { '!' } else { '*' }, raw);
                self.lines.extend(s.split('\n').map(|x| x.to_string()));
                self.put(key, Doc { block: true, enclosing, lines, raw, line: 0 }, at);
            },
        }
    }
    fn noise(&mut self, depth: usize) {
        if self.g.chance(1, 6) {
            let s = *self.g.pick(&["", "// plain", "/* plain */", "// plain /// still plain", "/*\n * plain\n */", "//", "/**/", "/* /** plain */ */"]);
            for l in s.split('\n') {
                if l.is_empty() { self.lines.push(String::new()) } else { self.push(depth, l) }
            }
        }
    }
    fn before(&mut self, depth: usize, key: &str) {
        self.noise(depth);
        if self.g.bool() {
            for _ in 0..1 + self.g.len(0, 2) {
                self.own_line(depth, false, key);
                self.noise(depth);
            }
        }
    }
    /// Comments following something on its line.
    fn after(&mut self, key: &str) -> String {
        let mut s = String::new();
        if self.g.chance(1, 3) {
            let at = self.lines.len() + 1;
            if self.g.chance(1, 3) {
                let (t, d) = self.short_block(true);
                s.push_str(&format!(" {}", t));
                self.put(key, d, at);
            }
            if self.g.bool() {
                let (t, d) = self.line_doc(true);
                s.push_str(&format!(" {}", t));
                self.put(key, d, at);
            } else if s.is_empty() {
                let (t, d) = self.short_block(true);
                s.push_str(&format!("\t{}", t));
                self.put(key, d, at);
            }
        } else if self.g.chance(1, 8) {
            s.push_str(self.g.pick(&[" // plain", " /* plain */"]));
        }
        s
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}{}", p, self.n)
    }
    fn var(&mut self, depth: usize, ty: &str, prefix: &str) {
        let name = self.fresh("v");
        let key = format!("var {}/{}", ty, name);
        self.before(depth, &key);
        let ty = *self.g.pick(&["", "", "list/", "const/", "obj/item/", "tmp/"]);
        let value = if ty == "const/" { " = 1" } else { *self.g.pick(&["", " = 1", " = \"x // y\"", " = list(1, 2)", "[5]", " as num", " = 3 as num"]) };
        let s = format!("{}{}{}{}", prefix, ty, name, value);
        let a = self.after(&key);
        self.push(depth, &(s + &a));
    }
    fn over(&mut self, depth: usize, ty: &str, prefix: &str) {
        let name = *self.g.pick(&["name", "desc", "icon_state", "tag"]);
        let key = format!("var {}/{}", ty, name);
        if self.vars.insert(key.clone(), ()).is_some() {
            return;
        }
        self.before(depth, &key);
        let a = self.after(&key);
        let v = *self.g.pick(&["\"it\"", "\"it // not\"", "1", "\"a\" as text", "null"]);
        self.push(depth, &format!("{}{} = {}{}", prefix, name, v, a));
    }
    fn proc(&mut self, depth: usize, ty: &str, head: &str, name: &str) {
        let full = format!("{}/{}", ty, name);
        let i = { let e = self.procs.entry(full.clone()).or_default(); *e += 1; *e - 1 };
        let key = format!("proc {}#{}", full, i);
        self.before(depth, &key);
        let params = *self.g.pick(&["", "a", "a, b = 2", "obj/item/a"]);
        let s = format!("{}{}({})", head, name, params);
        let a = self.after(&key);
        match self.g.below(4) {
            0 => self.push(depth, &(s + &a)),
            1 => {
                self.push(depth, &format!("{}{}", s, a));
                self.push(depth, "{");
                while self.g.chance(1, 4) {
                    self.own_line(depth + 1, true, &key);
                }
                self.push(depth + 1, "return 1;");
                self.push(depth, "}");
            },
            _ => {
                self.push(depth, &(s + &a));
                while self.g.chance(1, 3) {
                    self.own_line(depth + 1, true, &key);
                }
                self.push(depth + 1, self.g.pick(&["var/x = 1", "world.log << \"/// no\"", "return src"]));
                // nothing inside of a body is documented
                let inert = self.g.len(0, 3);
                for i in 0..inert {
                    match self.g.below(6) {
                        0 => self.push(depth + 1, "/// inert"),
                        1 => self.push(depth + 1, "/** inert */"),
                        2 => self.push(depth + 1, "world.log << 2 /// inert"),
                        3 => {
                            self.push(depth + 1, "if(world)");
                            self.push(depth + 2, "/// inert");
                            self.push(depth + 2, "return 2");
                        },
                        4 => self.push(depth + 1, "world.log << /** inert */ 3"),
                        _ => self.push(depth + 1, "return 4"),
                    }
                    if i + 1 == inert {
                        self.push(depth + 1, "return 5");
                    }
                }
            },
        }
    }
    fn macro_def(&mut self, depth: usize) {
        self.macros += 1;
        let name = self.fresh("M");
        let key = format!("macro {}", name);
        self.before(depth, &key);
        let body = *self.g.pick(&["", " 1", "(x) (x + 1)", "(x, y) x##y", " \"a // b\"", " (1 + \\\n\t2)"]);
        let a = self.after(&key);
        let s = format!("#define {}{}{}", name, body, a);
        let at = self.lines.len();
        for (i, l) in s.split('\n').enumerate() {
            if i == 0 { self.push(depth, l) } else { self.lines.push(l.to_string()) }
        }
        // comments on a continuation line are further down
        let extra = self.lines.len() - at - 1;
        if extra > 0 {
            for d in self.want.get_mut(&key).into_iter().flatten() {
                if d.line as usize > at {
                    d.line += extra as u32;
                }
            }
        }
    }
    fn disabled(&mut self, depth: usize) {
        self.lines.push(self.g.pick(&["#if 0", "#ifdef NEVER", "#ifndef YES"]).to_string());
        for _ in 0..1 + self.g.below(3) {
            let s = self.g.pick(&["/// skipped", "/** skipped */", "#define YES2 2 //! skipped", "var/skipped = 1 //! skipped", "//! skipped"]).to_string();
            self.push(depth, &s);
        }
        self.lines.push("#endif".into());
    }
    fn ty(&mut self, depth: usize, shown: &str, path: &str) {
        let key = format!("type {}", path);
        self.before(depth, &key);
        let a = self.after(&key);
        self.push(depth, &format!("{}{}", shown, a));
        if self.g.chance(1, 5) {
            return;
        }
        let own_braces = self.g.chance(1, 8);
        if own_braces {
            self.push(depth, "{");
        }
        while self.g.chance(1, 4) {
            self.own_line(depth + 1, true, &key);
        }
        let n = 1 + self.g.len(0, 4);
        for _ in 0..n {
            self.member(depth + 1, path);
        }
        // so that the block is not empty
        let name = self.fresh("z");
        self.push(depth + 1, &format!("var/{} = 1", name));
        if own_braces {
            self.push(depth, "}");
        }
        self.noise(depth);
    }
    fn member(&mut self, depth: usize, path: &str) {
        match self.g.below(10) {
            0 | 1 => self.var(depth, path, "var/"),
            2 if path.starts_with("/obj") => self.over(depth, path, ""),
            3 => {
                let f = self.fresh("f");
                let k = *self.g.pick(&["proc/", "verb/", "proc/"]);
                self.proc(depth, path, k, &f)
            },
            4 => {
                let prefix = format!("{}/", path);
                let own: Vec<String> = self.procs.keys().filter_map(|k| k.strip_prefix(&prefix)).filter(|k| !k.contains('/')).map(|s| s.to_string()).collect();
                if own.is_empty() {
                    return self.proc(depth, path, "", "New");
                }
                let f = self.g.pick(&own).clone();
                self.proc(depth, path, "", &f);
            },
            5 => {
                self.push(depth, "var");
                for _ in 0..1 + self.g.below(2) {
                    self.var(depth + 1, path, "");
                }
            },
            6 => {
                self.push(depth, "proc");
                for _ in 0..1 + self.g.below(2) {
                    let f = self.fresh("f");
                    self.proc(depth + 1, path, "", &f);
                }
            },
            7 if depth < 3 => {
                let t = self.fresh("sub");
                let p = format!("{}/{}", path, t);
                self.ty(depth, &t, &p);
            },
            8 => self.macro_def(depth),
            9 => self.disabled(depth),
            _ => self.var(depth, path, "var/"),
        }
    }
    fn root(&mut self) {
        match self.g.below(13) {
            0 | 1 | 2 => {
                let known: Vec<String> = self.want.keys().filter_map(|k| k.strip_prefix("type ")).map(|s| s.to_string()).collect();
                let path = if !known.is_empty() && self.g.chance(1, 3) {
                    self.g.pick(&known).clone()
                } else {
                    let t = self.fresh("t");
                    format!("{}/{}", self.g.pick(&["/obj", "/obj/item", "/datum", ""]), t)
                };
                self.ty(0, &path, &path);
            },
            3 => {
                let t = *self.g.pick(&["", "/obj", "/obj/item"]);
                self.var(0, t, &format!("{}/var/", t));
            },
            4 | 5 => {
                let t = *self.g.pick(&["", "/obj", "/obj/item"]);
                let f = self.fresh("f");
                let k = if self.g.chance(1, 8) { "verb" } else { "proc" };
                self.proc(0, t, &format!("{}/{}/", t, k), &f);
            },
            6 => {
                // a declaration which comes out of a macro
                let name = self.fresh("v");
                let key = format!("var /obj/item/{}", name);
                self.before(0, &key);
                let a = self.after(&key);
                self.push(0, &format!("DECLARE({}){}", name, a));
            },
            7 | 8 => self.macro_def(0),
            9 => self.disabled(0),
            12 => {
                let t = *self.g.pick(&["/obj", "/obj/item", "/obj/item/other"]);
                self.over(0, t, &format!("{}/", t));
            },
            10 => {
                let f = self.file.clone();
                let key = format!("module {}", f);
                for _ in 0..1 + self.g.below(2) {
                    self.own_line(0, true, &key);
                }
                self.lines.push(String::new());
            },
            _ => {
                // what is written for is in a conditional block
                let name = self.fresh("w");
                let key = format!("var /{}", name);
                self.before(0, &key);
                self.push(0, self.g.pick(&["#ifdef YES", "#if 1", "#ifndef NEVER", "#if defined(YES)", "#if YES", "#if YES == 1", "#if (YES + 1) > 1"]));
                self.push(0, &format!("/var/{}", name));
                self.push(0, "#endif");
            },
        }
    }
}

fn unindented(lines: &[(usize, String)]) -> Vec<String> {
    let min = lines.iter().filter(|l| !l.1.is_empty()).map(|l| l.0).min().unwrap_or(0);
    let first = lines.iter().position(|l| !l.1.is_empty()).unwrap_or(lines.len());
    let last = lines.iter().rposition(|l| !l.1.is_empty()).map_or(first, |i| i + 1);
    lines[first..last].iter().map(|l| if l.1.is_empty() { String::new() } else { format!("{}{}", " ".repeat(l.0 - min), l.1) }).collect()
}

/// What the documentation reads, paragraph by paragraph.
fn paragraphs(docs: &[Doc]) -> Vec<Vec<String>> {
    let mut out = vec![];
    let mut run: Vec<(usize, String)> = vec![];
    for d in docs {
        if d.block {
            out.push(unindented(&std::mem::take(&mut run)));
            out.push(unindented(&d.lines));
        } else {
            run.extend(d.lines.clone());
        }
    }
    out.push(unindented(&run));
    out.retain(|p| !p.is_empty());
    out
}

type Got = BTreeMap<String, (Vec<DocComment>, String)>;

fn add(got: &mut Got, key: String, docs: &DocCollection) {
    let elems: Vec<DocComment> = docs.clone().into_iter().collect();
    if !elems.is_empty() {
        got.insert(key, (elems, docs.text()));
    }
}

fn attach(g: &G) -> R {
    let mut o = Out { g, lines: vec![], want: Want::new(), n: 0, procs: BTreeMap::new(), vars: BTreeMap::new(), file: "main.dme".into(), macros: 0, attached: 0 };
    o.lines.push("#define YES 1".into());
    o.lines.push("#define DECLARE(x) /obj/item/var/##x = 1".into());
    let n = 2 + g.len(0, 8);
    let two = g.chance(1, 3);
    let mut second = vec![];
    for i in 0..n {
        if two && i == n / 2 {
            // from here on in another file
            o.lines.push("#include \"part.dm\"".into());
            second = std::mem::take(&mut o.lines);
            o.file = "part.dm".into();
        }
        o.root();
    }
    if g.chance(1, 8) {
        o.push(0, "/// nothing follows");
    }
    let (main, part) = if two { (second.join("\n"), Some(o.lines.join("\n"))) } else { (o.lines.join("\n"), None) };
    g.note(&main);
    let dir = g.scratch();
    std::fs::write(dir.join("main.dme"), main + "\n").unwrap();
    if let Some(p) = &part {
        g.note(&format!("--- part.dm\n{}", p));
        std::fs::write(dir.join("part.dm"), p.clone() + if g.bool() { "\n" } else { "" }).unwrap();
    }
    g.nontrivial(o.attached >= 3);
    g.label_if(o.macros > 0, "macros");
    let ctx = dm::Context::default();
    let mut pp = dm::preprocessor::Preprocessor::new(&ctx, dir.join("main.dme")).unwrap();
    let (tree, modules) = {
        let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp);
        let mut parser = dm::parser::Parser::new(&ctx, indents);
        if g.bool() {
            parser.enable_procs();
        }
        parser.parse_with_module_docs()
    };
    for e in ctx.errors().iter() {
        ensure!(e.severity() > dm::Severity::Warning, "docs:rejected", "line {}: {}", e.location().line, e.description());
    }
    let mut got = Got::new();
    for t in tree.iter_types() {
        add(&mut got, format!("type {}", t.path), &t.docs);
        for (name, v) in t.vars.iter() {
            add(&mut got, format!("var {}/{}", t.path, name), &v.value.docs);
        }
        for (name, p) in t.procs.iter() {
            for (i, v) in p.value.iter().enumerate() {
                add(&mut got, format!("proc {}/{}#{}", t.path, name, i), &v.docs);
            }
        }
    }
    for (file, docs) in modules {
        let name = ctx.file_path(file).file_name().unwrap().to_string_lossy().into_owned();
        let mut c = DocCollection::default();
        let lines: Vec<u32> = docs.iter().map(|d| d.0).collect();
        c.extend(docs.into_iter().map(|d| d.1));
        let key = format!("module {}", name);
        if let Some(w) = o.want.get(&key) {
            ensure_eq!(lines, w.iter().map(|d| d.line).collect::<Vec<_>>(), "docs:module-lines", "lines of the comments on {}", key);
        }
        add(&mut got, key, &c);
    }
    for (_, (name, def)) in pp.finalize().iter() {
        add(&mut got, format!("macro {}", name), def.docs());
    }
    for (key, docs) in &o.want {
        let Some((elems, text)) = got.get(key) else {
            return fail("docs:lost", format!("{} has no documentation; written for it: {:?}", key, docs.iter().map(|d| &d.raw).collect::<Vec<_>>()));
        };
        let w: Vec<(bool, bool, String)> = docs.iter().map(|d| (d.block, d.enclosing, d.raw.trim_start_matches('*').to_string())).collect();
        let e: Vec<(bool, bool, String)> = elems.iter().map(|d| (d.kind == CommentKind::Block, d.target == DocTarget::EnclosingItem, d.text.trim_start_matches('*').to_string())).collect();
        ensure_eq!(e, w, "docs:comments", "comments (block, enclosing, text) on {}", key);
        let p = paragraphs(docs);
        let flat = |s: &str| -> Vec<String> { s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim_end().to_string()).collect() };
        let want_text: Vec<String> = p.iter().flatten().filter(|l| !l.is_empty()).cloned().collect();
        ensure_eq!(flat(text), want_text, "docs:text", "text of the documentation of {}", key);
        if p.len() == 1 {
            // blank lines inside of a comment are kept
            ensure_eq!(text.trim_matches('\n').lines().map(|l| l.trim_end().to_string()).collect::<Vec<_>>(), p[0], "docs:blank-lines", "text of the documentation of {}", key);
        }
    }
    for key in got.keys() {
        ensure!(o.want.contains_key(key), "docs:stray", "{} has documentation not written for it: {:?}", key, got[key].0);
    }
    Ok(())
}

/// Whatever the comments look like, only blanks and decoration may go.
fn texts(g: &G) -> R {
    let mut c = DocCollection::default();
    let mut want = String::new();
    let n = 1 + g.len(0, 5);
    for _ in 0..n {
        let block = g.bool();
        let lines = if block { 1 + g.len(0, 4) } else { 1 };
        let mut text = String::new();
        for i in 0..lines {
            if i > 0 {
                text.push_str(g.pick(&["\n", "\n", "\r\n"]));
            }
            for _ in 0..g.len(0, 8) {
                text.push_str(g.pick(&[" ", "\t", "*", "/", "a", "b c", "\u{a0}", "\u{3000}", "\u{e9}", " * ", "**", "//", "-", "!", "\u{2028}"]));
            }
        }
        g.note(&format!("{} {:?}", if block { "block" } else { "line" }, text));
        want.push_str(&text);
        let kind = if block { CommentKind::Block } else { CommentKind::Line };
        let mut d = DocComment::new(kind, if g.bool() { DocTarget::FollowingItem } else { DocTarget::EnclosingItem });
        d.text = text;
        c.push(d);
    }
    let core = |s: &str| s.chars().filter(|&c| !c.is_whitespace() && c != '*' && c != '/').collect::<String>();
    g.nontrivial(core(&want).len() >= 3);
    let got = c.text();
    ensure_eq!(core(&got), core(&want), "docs:words", "letters of the text {:?}", got);
    // and stars and slashes between words stay
    for l in got.lines() {
        ensure!(want.contains(l), "docs:altered", "line {:?} was not written", l);
    }
    ensure_eq!(c.is_empty(), !want.contains(|c: char| !c.is_whitespace() && c != '*' && c != '/') && got.trim().is_empty(), "docs:is_empty", "is_empty() of {:?}", got);
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "at least three comments are attached",
        assumptions: &[
            "enclosing-item comments are written where the README shows them: after an item on its line, first inside a type's block or a procedure's body, or at file level",
            "a block comment's text is not on the first of several lines",
        ],
        subs: vec![Sub { name: "attach", quick: 20000, thorough: 500000, run: attach }, Sub { name: "texts", quick: 40000, thorough: 2000000, run: texts }],
    }
}
