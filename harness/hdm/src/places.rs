//! C16: editor queries at a position return what is written there.
use dm::annotation::*;
use dm::Location;
use engine::*;

struct Span {
    start: usize,
    end: usize,
    what: String,
}

struct E<'a> {
    g: &'a G,
    text: String,
    spans: Vec<Span>,
    /// identifiers whose position is asked about from the other side, too
    idents: Vec<(usize, usize)>,
    macros: Vec<(String, usize, usize)>,
    n: usize,
    parens: usize,
    nest: usize,
    scope: Vec<Vec<String>>,
    locals: Vec<(usize, usize, String)>,
    /// where the last statement ended
    tail: usize,
    headers: Vec<(usize, bool, Vec<String>, String)>,
    /// procedures, and whether they were declared yet
    procs: Vec<(Vec<String>, String, bool)>,
    /// procedures with a declaration after an override
    shifted: Vec<(Vec<String>, String)>,
    kinds: std::collections::BTreeSet<&'static str>,
}

const OPS: &[&str] = &[" + ", " - ", "*", " == ", " && ", " || ", " & ", "<<", " in ", " ? "];

impl<'a> E<'a> {
    fn here(&self) -> usize {
        self.text.len()
    }
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
    }
    fn span(&mut self, start: usize, what: String) {
        let end = self.here();
        self.spans.push(Span { start, end, what });
    }
    fn ident(&mut self, s: &str) -> usize {
        let at = self.here();
        self.put(s);
        self.idents.push((at, self.here()));
        at
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}{}", p, self.n)
    }
    fn gap(&mut self) {
        let s = match self.g.below(12) {
            0 => " ",
            1 => "\t",
            2 => " /* c */ ",
            3 if self.parens > 0 => "\n\t  ",
            _ => "",
        };
        self.put(s);
    }
    /// `/a/b/c`, as written in the object tree or after `var`.
    fn parts(&mut self, lead: bool, parts: &[String]) -> usize {
        let start = self.here();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 || lead {
                self.put("/");
            }
            let at = self.ident(p);
            self.span(at, format!("InSequence {}", i));
        }
        start
    }
    fn tree_path(&mut self, lead: bool, absolute: bool, parts: &[String]) -> usize {
        let start = self.parts(lead, parts);
        self.span(start, format!("TreePath {} {}", absolute, parts.join("/")));
        self.kinds.insert("path in the tree");
        start
    }
    fn type_path(&mut self) {
        let n = 1 + self.g.usize(3);
        let parts: Vec<String> = (0..n).map(|_| self.g.pick(&["obj", "item", "mob", "sub"]).to_string()).collect();
        let start = self.here();
        for (i, p) in parts.iter().enumerate() {
            self.put("/");
            let at = self.ident(p);
            self.span(at, format!("InSequence {}", i));
        }
        self.span(start, format!("TypePath /{}", parts.join("/")));
        self.kinds.insert("type path");
    }
    fn name(&mut self) -> String {
        let known: Vec<String> = self.scope.iter().flatten().cloned().collect();
        if !known.is_empty() && self.g.bool() { self.g.pick(&known).clone() } else { self.g.pick(&["src", "usr", "alpha", "beta", "g1", "global"]).to_string() }
    }
    fn args(&mut self, depth: usize, priors: &[String], name: &str) {
        let start = self.here();
        self.put("(");
        self.parens += 1;
        let n = self.g.usize(3);
        for i in 0..n {
            self.gap();
            let from = self.here();
            self.expr(depth + 1);
            self.span(from, format!("ProcArgument {}", i));
            self.gap();
            if i + 1 < n {
                self.put(",");
            }
        }
        self.parens -= 1;
        self.span(start, format!("ProcArguments {} {} {}", priors.join("."), name, n));
        self.put(")");
        self.kinds.insert("arguments");
    }
    fn macro_use(&mut self) {
        let (name, line, col) = self.g.pick(&self.macros.clone()).clone();
        let at = self.here();
        self.put(&name);
        self.span(at, format!("MacroUse {} {}:{}", name, line, col));
        self.kinds.insert("macro use");
        if name == "ADD" {
            self.put("(1, ");
            self.gap();
            self.put("2)");
        }
    }
    fn simple(&mut self, depth: usize) {
        match self.g.below(if depth > 3 { 4 } else { 12 }) {
            0 => {
                let n = self.name();
                let at = self.ident(&n);
                self.span(at, format!("UnscopedVar {}", n));
            },
            1 => self.put(self.g.pick(&["1", "2.5", "\"text\"", "null", "@\"raw\""])),
            2 => {
                let at = self.here();
                let f = *self.g.pick(&["icons/a.dmi", "b.ogg", "c"]);
                self.put(&format!("'{}'", f));
                self.span(at, format!("Resource {}", f));
                self.kinds.insert("resource");
            },
            3 => self.macro_use(),
            4 | 5 => {
                // a chain of names
                let base = self.name();
                let at = self.ident(&base);
                self.span(at, format!("UnscopedVar {}", base));
                let mut priors = vec![base];
                for _ in 0..1 + self.g.usize(3) {
                    self.put(self.g.pick(&[".", ".", "?.", "?:"]));
                    let n = self.g.pick(&["alpha", "beta", "loc", "x"]).to_string();
                    if self.g.chance(1, 4) {
                        let at = self.ident(&n);
                        self.span(at, format!("ScopedCall {} {}", priors.join("."), n));
                        self.kinds.insert("scoped call");
                        self.args(depth, &priors, &n);
                        break;
                    }
                    let at = self.ident(&n);
                    self.span(at, format!("ScopedVar {} {}", priors.join("."), n));
                    self.kinds.insert("scoped var");
                    priors.push(n);
                    self.gap();
                }
            },
            6 | 7 => {
                let n = self.g.pick(&["foo", "bar", "f1", "f2"]).to_string();
                let at = self.ident(&n);
                self.span(at, format!("UnscopedCall {}", n));
                self.kinds.insert("call");
                self.args(depth, &[], &n);
            },
            8 => self.type_path(),
            9 => {
                let at = self.here();
                if self.g.bool() {
                    self.put("..");
                    self.span(at, "ParentCall".into());
                    self.args(depth, &[], "..");
                } else {
                    self.put(".");
                    self.span(at, "ReturnVal".into());
                    self.put(" ");
                }
            },
            10 => {
                self.put("\"it is [");
                self.expr(depth + 1);
                self.put("] and [");
                self.expr(depth + 1);
                self.put("]\"");
                self.kinds.insert("interpolation");
            },
            _ => {
                self.put("(");
                self.parens += 1;
                self.expr(depth + 1);
                self.gap();
                self.parens -= 1;
                self.put(")");
            },
        }
    }
    fn expr(&mut self, depth: usize) {
        if depth < 3 && self.g.chance(1, 3) {
            self.simple(depth + 1);
            let op = *self.g.pick(&OPS[..8]);
            self.put(op);
            self.simple(depth + 1);
        } else if depth < 3 && self.g.chance(1, 10) {
            self.put("new ");
            self.type_path();
        } else {
            if self.g.chance(1, 10) {
                self.put("!");
            }
            self.simple(depth + 1);
        }
    }
    fn tabs(&mut self, depth: usize) {
        self.put(&"\t".repeat(depth));
    }
    fn local(&mut self, scope_end: &mut Vec<(usize, String)>) {
        self.put("var");
        self.put("/");
        let name = self.fresh("l");
        let ty: Vec<String> = self.g.pick(&[&[] as &[&str], &["list"], &["obj", "item"], &["mob"]]).iter().map(|s| s.to_string()).collect();
        let mut parts = ty.clone();
        parts.push(name.clone());
        self.tree_path(false, true, &parts);
        let what = format!("Local {} {}", ty.join("/"), name);
        self.scope.last_mut().unwrap().push(name);
        let at = if self.g.bool() {
            self.gap();
            self.put(" ");
            let at = self.here();
            self.put("= ");
            self.expr(0);
            at
        } else {
            self.here()
        };
        scope_end.push((at, what));
    }
    fn statements(&mut self, depth: usize, level: usize, first: bool) {
        // names declared here are in scope up to the end
        let mut ends = vec![];
        self.scope.push(vec![]);
        let n = 1 + self.g.usize(4);
        let mut end = self.here();
        for i in 0..n {
            if i > 0 || !first {
                self.tabs(depth);
            }
            self.statement(depth, level, &mut ends);
            end = self.tail;
            if !self.text.ends_with('\n') {
                self.put("\n");
            }
            if self.g.chance(1, 10) {
                self.put(self.g.pick(&["\n", "\t\t// comment\n", "/* comment */\n"]));
            }
        }
        self.scope.pop();
        for (at, what) in ends {
            self.locals.push((at, end, what.clone()));
            self.spans.push(Span { start: at, end, what });
        }
    }
    fn braced(&mut self, level: usize) {
        self.put("{");
        self.scope.push(vec![]);
        for _ in 0..1 + self.g.usize(2) {
            let mut ends = vec![];
            self.statement(0, 9.max(level), &mut ends);
            self.put("; ");
        }
        self.scope.pop();
        self.put("}");
    }
    fn body(&mut self, depth: usize, level: usize) {
        if self.g.chance(1, 6) {
            self.put(" ");
            self.braced(level);
        } else {
            self.put("\n");
            self.statements(depth + 1, level + 1, false);
        }
    }
    fn statement(&mut self, depth: usize, level: usize, ends: &mut Vec<(usize, String)>) {
        self.nest += 1;
        match self.g.below(if level > 2 || self.nest > 12 { 6 } else { 10 }) {
            0 if level < 9 => self.local(ends),
            0 | 1 | 2 => {
                let n = self.name();
                let at = self.ident(&n);
                self.span(at, format!("UnscopedVar {}", n));
                self.gap();
                self.put(self.g.pick(&[" = ", " += ", "="]));
                self.expr(0);
            },
            3 | 4 => {
                let n = self.g.pick(&["foo", "bar", "f1"]).to_string();
                let at = self.ident(&n);
                self.span(at, format!("UnscopedCall {}", n));
                self.args(0, &[], &n);
            },
            5 => {
                self.put("return ");
                self.expr(0);
            },
            6 => {
                self.put("if(");
                self.parens += 1;
                self.expr(0);
                self.parens -= 1;
                self.put(")");
                self.body(depth, level);
                if self.g.bool() {
                    if self.text.ends_with('\n') {
                        self.tabs(depth);
                    } else {
                        self.put("\n");
                        self.tabs(depth);
                    }
                    self.put("else");
                    self.body(depth, level);
                }
            },
            7 => {
                self.put("while(");
                self.parens += 1;
                self.expr(0);
                self.parens -= 1;
                self.put(")");
                self.body(depth, level);
            },
            8 => {
                self.put("for(var/");
                let name = self.fresh("l");
                self.tree_path(false, true, &["obj".to_string(), name.clone()]);
                self.put(" ");
                let from = self.here();
                self.put("in ");
                self.simple(1);
                self.put(")");
                self.scope.push(vec![name.clone()]);
                self.body(depth, level);
                self.scope.pop();
                let end = if self.text.ends_with('\n') { self.tail } else { self.here() };
                let what = format!("Local obj {}", name);
                self.spans.push(Span { start: from, end, what: what.clone() });
                self.locals.push((from, usize::MAX, what));
            },
            _ => {
                self.put("spawn(");
                self.expr(1);
                self.put(")");
                self.body(depth, level);
            },
        }
        if !self.text.ends_with('\n') {
            self.tail = self.here();
        }
        self.nest -= 1;
    }
    /// A procedure in the tree; `lead` is what is written before its name.
    fn proc(&mut self, depth: usize, node: &[String], lead: &[String], absolute: bool) {
        // now and then a procedure of the same type again
        let again: Vec<(String, bool)> = self.procs.iter().filter(|p| p.0 == node).map(|p| (p.1.clone(), p.2)).collect();
        let (name, decl) = if !again.is_empty() && self.g.bool() {
            let (name, declared) = self.g.pick(&again).clone();
            self.kinds.insert("procedure defined again");
            (name, !declared && self.g.bool())
        } else if self.g.chance(3, 4) || node.is_empty() {
            (self.fresh("p"), node.is_empty() || self.g.chance(3, 4))
        } else {
            ("New".to_string(), false)
        };
        if !again.iter().any(|a| a.0 == name) {
            self.procs.push((node.to_vec(), name.clone(), decl));
        } else if decl {
            for p in self.procs.iter_mut().filter(|p| p.0 == node && p.1 == name) {
                p.2 = true;
            }
            // what comes before ends up after it
            self.shifted.push((node.to_vec(), name.clone()));
        }
        let kind = *self.g.pick(&["proc", "proc", "verb"]);
        let mut written = lead.to_vec();
        let mut full: Vec<String> = node.to_vec();
        if decl {
            written.push(kind.into());
            full.push(kind.into());
        }
        if decl && self.g.chance(1, 8) {
            written.push("final".into());
            full.push("final".into());
        }
        written.push(name.clone());
        full.push(name.clone());
        self.tree_path(absolute, absolute, &written);
        let start = self.spans.last().unwrap().start;
        self.put("(");
        self.parens += 1;
        let mut params = vec![];
        for i in 0..self.g.usize(3) {
            if i > 0 {
                self.put(", ");
            }
            let p = self.fresh("a");
            let mut parts: Vec<String> = self.g.pick(&[&[] as &[&str], &["mob"], &["obj", "item"]]).iter().map(|s| s.to_string()).collect();
            parts.push(p.clone());
            self.tree_path(false, true, &parts);
            params.push(p);
            if self.g.chance(1, 4) {
                self.put(" = ");
                self.expr(1);
            }
        }
        self.parens -= 1;
        self.put(")");
        self.span(start, format!("ProcHeader {}", full.join("/")));
        self.headers.push((start, decl, node.to_vec(), name));
        self.kinds.insert("procedure");
        self.scope.push(params);
        let from;
        match self.g.below(5) {
            0 => {
                // nothing to it
                self.put("\n");
                self.scope.pop();
                return;
            },
            1 => {
                self.put(" ");
                from = self.here();
                self.braced(0);
                self.put("\n");
            },
            _ => {
                self.put("\n");
                self.tabs(depth + 1);
                from = self.here();
                self.statements(depth + 1, 0, true);
            },
        }
        self.scope.pop();
        let end = self.text.trim_end().len();
        let end = end.max(from + 1);
        // a comment may come last
        let end = self.spans.iter().filter(|s| s.start >= from && s.end <= end && !s.what.starts_with("Local")).map(|s| s.end).max().unwrap_or(from + 1);
        self.spans.push(Span { start: from, end, what: format!("ProcBody {}", full.join("/")) });
    }
    fn var(&mut self, node: &[String], lead: &[String], absolute: bool) {
        let name = self.fresh("v");
        let ty: Vec<String> = self.g.pick(&[&[] as &[&str], &["list"], &["obj", "item"], &["tmp"], &["const"]]).iter().map(|s| s.to_string()).collect();
        let mut written = lead.to_vec();
        written.push("var".into());
        written.extend(ty.clone());
        written.push(name.clone());
        let mut full = node.to_vec();
        full.push("var".into());
        full.extend(ty.clone());
        full.push(name);
        self.tree_path(absolute, absolute, &written);
        let start = self.spans.last().unwrap().start;
        if ty.first().is_some_and(|t| t == "const") || self.g.bool() {
            self.gap();
            self.put(" = ");
            self.expr(0);
        }
        self.span(start, format!("Variable {}", full.join("/")));
        self.kinds.insert("variable");
        self.put("\n");
    }
    fn over(&mut self, node: &[String]) {
        let name = self.g.pick(&["name", "desc", "alpha"]).to_string();
        self.tree_path(false, false, &[name.clone()]);
        let start = self.spans.last().unwrap().start;
        self.put(" = ");
        self.expr(0);
        self.span(start, format!("Variable {}/{}", node.join("/"), name));
        self.put("\n");
    }
    fn define(&mut self) {
        let n = self.fresh("M");
        let line = self.text.matches('\n').count() + 1;
        self.put("#define ");
        let at = self.here();
        self.put(&n);
        self.span(at, format!("MacroDefinition {}", n));
        self.put(self.g.pick(&[" 1\n", " \"x\"\n", " (1 + 2)\n"]));
        self.macros.push((n, line, 9));
    }
    fn block(&mut self, depth: usize, node: &[String]) {
        self.put("\n");
        self.tabs(depth + 1);
        let start = self.here();
        let n = 1 + self.g.usize(4);
        for i in 0..n {
            if i > 0 {
                self.tabs(depth + 1);
            }
            match self.g.below(8) {
                0 if depth < 2 => {
                    let t = self.fresh("sub");
                    let mut below = node.to_vec();
                    below.push(t.clone());
                    self.tree_path(false, false, &[t]);
                    self.block(depth + 1, &below);
                },
                1 | 2 => self.proc(depth + 1, node, &[], false),
                3 | 4 => self.over(node),
                _ => self.var(node, &[], false),
            }
        }
        let end = self.spans.iter().filter(|s| s.start >= start && !s.what.starts_with("Local")).map(|s| s.end).max().unwrap();
        self.spans.push(Span { start, end, what: format!("TreeBlock {}", node.join("/")) });
        self.kinds.insert("type block");
    }
    fn root(&mut self) {
        match self.g.below(8) {
            0 | 1 | 2 => {
                let mut node = vec![self.g.pick(&["obj", "mob"]).to_string()];
                for _ in 0..self.g.usize(2) + 1 {
                    let t = self.fresh("t");
                    node.push(t);
                }
                let lead = self.g.chance(4, 5);
                self.tree_path(lead, lead, &node);
                self.block(0, &node);
            },
            3 => {
                let node: Vec<String> = self.g.pick(&[&[] as &[&str], &["obj"], &["obj", "item"]]).iter().map(|s| s.to_string()).collect();
                self.var(&node.clone(), &node, true);
            },
            4 | 5 => {
                let node: Vec<String> = self.g.pick(&[&[] as &[&str], &["obj", "item"], &["obj", "item"]]).iter().map(|s| s.to_string()).collect();
                if node.is_empty() {
                    // a global one has to be declared
                    let before = self.n;
                    let _ = before;
                    self.proc_global()
                } else {
                    self.proc(0, &node.clone(), &node, true)
                }
            },
            6 => self.define(),
            _ => {
                self.put(self.g.pick(&["// a comment\n", "/* a\n comment */\n", "\n"]));
            },
        }
    }
    fn proc_global(&mut self) {
        self.proc(0, &[], &[], true)
    }
}

fn idents(v: &[dm::ast::Ident]) -> String {
    v.iter().map(|i| i.as_str()).collect::<Vec<_>>().join("/")
}

fn dots(v: &[dm::ast::Ident]) -> String {
    v.iter().map(|i| i.as_str()).collect::<Vec<_>>().join(".")
}

fn show(a: &Annotation) -> String {
    match a {
        Annotation::TreeBlock(p) => format!("TreeBlock {}", idents(p)),
        Annotation::TreePath(abs, p) => format!("TreePath {} {}", abs, idents(p)),
        Annotation::TypePath(p) => format!("TypePath {}", p.iter().map(|(op, i)| format!("{}{}", op, i)).collect::<String>()),
        Annotation::Variable(p) => format!("Variable {}", idents(p)),
        Annotation::ProcHeader(p, _) => format!("ProcHeader {}", idents(p)),
        Annotation::ProcBody(p, _) => format!("ProcBody {}", idents(p)),
        Annotation::LocalVarScope(t, n) => format!("Local {} {}", idents(&t.type_path), n),
        Annotation::UnscopedCall(n) => format!("UnscopedCall {}", n),
        Annotation::UnscopedVar(n) => format!("UnscopedVar {}", n),
        Annotation::ScopedCall(p, n) => format!("ScopedCall {} {}", dots(p), n),
        Annotation::ScopedVar(p, n) => format!("ScopedVar {} {}", dots(p), n),
        Annotation::ParentCall => "ParentCall".into(),
        Annotation::ReturnVal => "ReturnVal".into(),
        Annotation::InSequence(i) => format!("InSequence {}", i),
        Annotation::MacroDefinition(n) => format!("MacroDefinition {}", n),
        Annotation::MacroUse { name, definition_location, .. } => format!("MacroUse {} {}:{}", name, definition_location.line, definition_location.column),
        Annotation::Resource(p) => format!("Resource {}", p.display()),
        Annotation::ProcArguments(p, n, i) => format!("ProcArguments {} {} {}", dots(p), n, i),
        Annotation::ProcArgument(i) => format!("ProcArgument {}", i),
        other => format!("{:?}", other),
    }
}

fn places(g: &G) -> R {
    let mut e = E { g, text: String::new(), spans: vec![], idents: vec![], macros: vec![], n: 0, parens: 0, nest: 0, scope: vec![], locals: vec![], tail: 0, headers: vec![], procs: vec![], shifted: vec![], kinds: Default::default() };
    e.put("#define ONE 1\n#define ADD(x, y) (x + y)\n");
    e.macros.push(("ONE".into(), 1, 9));
    e.macros.push(("ADD".into(), 2, 9));
    for _ in 0..1 + g.len(0, 5) {
        e.root();
    }
    if g.chance(1, 4) {
        while e.text.ends_with('\n') {
            e.text.pop();
        }
    }
    let text = e.text.clone();
    g.note(&text);
    for k in &e.kinds {
        g.label(k);
    }
    g.nontrivial(e.kinds.len() >= 3);
    let ctx = dm::Context::default();
    let mut pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), text.as_str());
    let file = ctx.get_file("test.dm".as_ref()).unwrap();
    pp.enable_annotations();
    let mut tree = AnnotationTree::default();
    let mut objtree = None;
    let only = g.bool();
    {
        let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp);
        let mut parser = dm::parser::Parser::new(&ctx, indents);
        if only {
            parser.parse_annotations_only(&mut tree);
        } else {
            parser.annotate_to(&mut tree);
            parser.enable_procs();
            objtree = Some(parser.parse_object_tree());
        }
    }
    tree.merge(pp.take_annotations().unwrap());
    for err in ctx.errors().iter() {
        ensure!(!(err.description().starts_with("got ") || err.description().contains("indentation") || err.description().contains("unexpected")), "places:rejected", "line {}: {}", err.location().line, err.description());
    }
    // where each byte is
    let mut at: Vec<Location> = vec![];
    let (mut line, mut column) = (1, 1);
    for b in text.bytes() {
        at.push(Location { file, line, column });
        if b == b'\n' {
            line += 1;
            column = 1;
        } else {
            column += 1;
        }
    }
    let quote = |o: usize| format!("{}:{} ({:?})", at[o].line, at[o].column, &text[o..(o + 12).min(text.len())]);
    let here = |it: Iter<'_>| it.map(|(_, a)| show(a)).collect::<Vec<_>>();
    let found: Vec<_> = at.iter().map(|&at| (here(tree.get_range_raw(interval_tree::range(at, at))), here(tree.get_location(at)))).collect();
    for s in &e.spans {
        for o in s.start..s.end.min(text.len()) {
            let (raw, loc) = &found[o];
            ensure!(raw.contains(&s.what), "places:missing", "at {} there should be {:?}, found {:?}", quote(o), s.what, raw);
            ensure!(loc.contains(&s.what), "places:query", "a query at {} should give {:?}, found {:?}", quote(o), s.what, loc);
        }
    }
    for &(start, end) in &e.idents {
        for o in start..end.min(text.len()) {
            for got in &found[o].0 {
                if got.starts_with("ProcArguments  New ") {
                    continue;
                }
                if got.starts_with("Local ") {
                    let known = e.locals.iter().any(|(from, _, what)| what == got && *from <= o);
                    ensure!(known || e.spans.iter().any(|s| s.what == *got), "places:unexpected-local", "at {} unexpectedly {:?}", quote(o), got);
                    continue;
                }
                ensure!(e.spans.iter().any(|s| s.what == *got && s.start <= o && o < s.end), "places:unexpected", "at {} there unexpectedly is {:?}", quote(o), got);
            }
        }
    }
    // the index that goes with a procedure is that of its definition
    if let Some(t) = objtree {
        for (start, decl, node, name) in &e.headers {
            for (_, a) in tree.get_range_raw(interval_tree::range(at[*start], at[*start])) {
                if let Annotation::ProcHeader(p, idx) = a {
                    let mut path: Vec<&str> = p.iter().map(|i| i.as_str()).collect();
                    path.pop();
                    path.retain(|x| !matches!(*x, "proc" | "verb" | "final"));
                    let ty = t.type_by_path(path.iter().copied());
                    let Some(ty) = ty else { return fail("places:type", format!("no type {:?}", path)) };
                    let Some(def) = ty.get().procs.get(name.as_str()).and_then(|p| p.value.get(*idx)) else {
                        return fail("places:index", format!("{} on {:?} has no definition number {}", name, path, idx));
                    };
                    let after = !decl && e.shifted.iter().any(|s| s.0 == *node && s.1 == *name);
                    let sig = if after { "places:index-of-earlier-override" } else { "places:index" };
                    ensure_eq!(def.location.line, at[*start].line, sig, "line of definition {} of {}", idx, name);
                }
            }
        }
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "at least three kinds of annotated constructs occur",
        assumptions: &[
            "names used on the result of a call or index are not annotated; nor are names inside of a macro's arguments",
            "blocks of var/ and proc/ are not asked about",
        ],
        subs: vec![Sub { name: "places", quick: 15000, thorough: 400000, run: places }],
    }
}
