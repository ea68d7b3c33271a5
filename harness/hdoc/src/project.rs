//! A documented project: its files, and the pages that are to be written about it.
use crate::doc::{self, esc, Doc};
use engine::G;
use std::collections::{BTreeMap, BTreeSet};

pub struct VarD {
    pub name: String,
    /// flags and type; or an inherited variable gets another value
    pub decl: Option<(Vec<&'static str>, String)>,
    pub doc: Option<Doc>,
    pub at: (usize, usize),
}

pub struct ProcD {
    pub name: String,
    pub decl: Option<&'static str>,
    /// type, name, and what it is input as
    pub params: Vec<(String, String, &'static str)>,
    pub as_: Option<String>,
    pub set: Option<String>,
    pub doc: Option<Doc>,
    pub at: (usize, usize),
}

#[derive(Default)]
pub struct TypeD {
    pub path: String,
    pub parent: Option<String>,
    pub name: Option<&'static str>,
    pub doc: Option<Doc>,
    pub vars: Vec<VarD>,
    pub procs: Vec<ProcD>,
    pub at: (usize, usize),
}

pub struct MacroD {
    pub name: String,
    pub params: Option<(Vec<&'static str>, bool)>,
    pub doc: Option<Doc>,
    pub at: (usize, usize),
}

#[derive(Clone, Copy)]
pub enum Item {
    Type(usize),
    Macro(usize),
    Var(usize),
    Proc(usize),
    Docs(usize),
}

#[derive(Default)]
pub struct Project {
    /// the code's files; the environment comes last
    pub files: Vec<(String, Vec<Item>)>,
    pub types: Vec<TypeD>,
    pub macros: Vec<MacroD>,
    pub globals: TypeD,
    pub docs: Vec<(Doc, (usize, usize))>,
    /// what else there is to show: name, and text
    pub texts: Vec<(String, Option<Doc>, String)>,
    pub index: Option<(String, Doc)>,
    pub world: Option<&'static str>,
    pub path_names: bool,
    pub code: Vec<String>,
}

pub const PATHS: &[&str] = &["/obj", "/obj/x", "/obj/x/y", "/obj/x/y/z", "/obj/x/foo_bar", "/obj/xx", "/mob", "/mob/m", "/datum/d", "/datum/d/e", "/thing", "/turf/one/two", "/area/a"];
const VARS: &[&str] = &["count", "amount", "label_of", "count2"];
const PROCS: &[&str] = &["act", "use_on", "tick", "act2"];
pub const REFERENCE: &[&str] = &["/icon", "/list/proc/Add", "/world/var/fps", "/savefile", "/client/proc/New"];
const NAMES: &[&str] = &["shiny thing", "R&D", "\\improper bag", "\\proper Bob", "<b>", "", "it's"];

fn module(path: &str) -> String {
    let p = path.rsplit_once('.').map_or(path, |p| p.0);
    match p.rsplit_once('/') {
        Some((dir, last)) if last.eq_ignore_ascii_case("README") => dir.to_string(),
        _ => p.to_string(),
    }
}

fn shown_name(n: &str) -> String {
    n.trim_start_matches("\\improper ").trim_start_matches("\\proper ").to_string()
}

impl Project {
    pub fn gen(g: &G) -> Project {
        let mut p = Project::default();
        // what there is
        let names = ["code/a.dm", "code/sub/b-c.dm", "code/sub/d.dm", "modular/e.dm", "code/sub.dm", "code/README.dm"];
        for n in names {
            if g.chance(1, 2) || p.files.is_empty() && n == "code/README.dm" {
                p.files.push((n.to_string(), vec![]));
            }
        }
        p.files.push(("game.dme".into(), vec![]));
        let mut items = vec![];
        for path in PATHS {
            if g.chance(1, 3) {
                items.push(Item::Type(p.types.len()));
                let mut t = TypeD { path: path.to_string(), ..Default::default() };
                // of a documented type, or an undocumented one
                if path.starts_with("/obj/x/") && g.chance(1, 4) {
                    t.parent = Some(g.pick(&["/datum/d", "/mob", "/datum/elsewhere"]).to_string());
                }
                if g.chance(1, 3) && !path.starts_with("/datum") && *path != "/thing" {
                    t.name = Some(g.pick(NAMES));
                }
                p.types.push(t);
            }
        }
        for i in 0..g.usize(4) {
            items.push(Item::Macro(p.macros.len()));
            let params = g.bool().then(|| ([vec!["a"], vec!["a", "bc"]][g.usize(2)].clone(), g.chance(1, 3)));
            p.macros.push(MacroD { name: ["FOO", "BAR_BAZ", "QUX"][i].into(), params, doc: None, at: (0, 0) });
        }
        for i in 0..g.usize(3) {
            items.push(Item::Var(i));
            let v = p.var(g, ["gvar", "g_two"][i]);
            p.globals.vars.push(v);
        }
        for i in 0..g.usize(3) {
            items.push(Item::Proc(i));
            let v = p.proc(g, ["gproc", "gp_two"][i]);
            p.globals.procs.push(v);
        }
        for i in 0..g.usize(4) {
            items.push(Item::Docs(i));
            p.docs.push((Doc::default(), (0, 0)));
        }
        g.shuffle(&mut items);
        for i in items {
            let f = g.usize(p.files.len());
            p.files[f].1.push(i);
        }
        for f in &mut p.files {
            // one text after another would be one text
            let docs: Vec<Item> = f.1.iter().filter(|i| matches!(i, Item::Docs(_))).copied().collect();
            if docs.len() > 1 {
                f.1.retain(|i| !matches!(i, Item::Docs(_)));
                f.1.insert(0, docs[0]);
            }
        }
        if p.get("/datum/d").is_none() {
            for t in &mut p.types {
                if t.parent.as_deref() == Some("/datum/d") {
                    t.parent = Some("/datum/elsewhere".into());
                }
            }
        }
        for i in 0..p.types.len() {
            // only atoms have names
            let mut path = p.types[i].path.clone();
            while let Some(up) = p.parent_path(&path) {
                path = up;
                if path == "/atom" {
                    break;
                }
            }
            if path != "/atom" {
                p.types[i].name = None;
            }
        }
        // members; declarations before other values
        for i in 0..p.types.len() {
            for n in VARS {
                if g.chance(1, 3) {
                    let v = p.var(g, n);
                    p.types[i].vars.push(v);
                }
            }
            for n in PROCS {
                if g.chance(1, 3) {
                    let v = p.proc(g, n);
                    p.types[i].procs.push(v);
                }
            }
        }
        for i in 0..p.types.len() {
            for k in 0..p.types[i].vars.len() {
                let n = p.types[i].vars[k].name.clone();
                if p.ancestors(&p.types[i].path).iter().any(|a| a.vars.iter().any(|v| v.name == n)) {
                    p.types[i].vars[k].decl = None;
                }
            }
            for k in 0..p.types[i].procs.len() {
                let n = p.types[i].procs[k].name.clone();
                if p.ancestors(&p.types[i].path).iter().any(|a| a.procs.iter().any(|v| v.name == n)) {
                    p.types[i].procs[k].decl = None;
                    p.types[i].procs[k].as_ = None;
                }
            }
        }
        for n in ["code/notes.md", "code/README.md", "modular/sub/more.md", "code/plain.txt"] {
            if g.chance(1, 4) && p.files.iter().any(|f| f.0.split('/').next() == n.split('/').next()) && !p.files.iter().any(|f| module(&f.0) == module(n)) {
                p.texts.push((n.into(), None, String::new()));
            }
        }
        if g.chance(1, 4) {
            p.world = Some(g.pick(&["World", "R&D", "A < B"]));
        }
        p.path_names = g.chance(1, 6);
        // texts, which mention one another
        let documented = g.pick(&[(1, 3), (2, 3), (1, 1)]);
        let clean = g.chance(1, 3);
        let mut targets = vec![];
        let mut docs = |g: &G, d: &mut Option<Doc>, target: String| {
            if g.chance(documented.0, documented.1) {
                *d = Some(Doc::default());
                targets.push(target);
            } else if !clean {
                targets.push(target);
            }
        };
        for t in &mut p.types {
            let path = t.path.clone();
            docs(g, &mut t.doc, path.clone());
            for v in &mut t.vars {
                docs(g, &mut v.doc, format!("{}/var/{}", path, v.name));
            }
            for v in &mut t.procs {
                docs(g, &mut v.doc, format!("{}/{}/{}", path, if v.decl == Some("verb") { "verb" } else { "proc" }, v.name));
            }
        }
        for v in &mut p.globals.vars {
            docs(g, &mut v.doc, format!("/var/{}", v.name));
        }
        for v in &mut p.globals.procs {
            docs(g, &mut v.doc, format!("/proc/{}", v.name));
        }
        for v in &mut p.macros {
            docs(g, &mut v.doc, v.name.clone());
        }
        for t in &p.texts {
            targets.push(t.0.clone());
        }
        for f in &p.files {
            if f.0.ends_with(".dm") && f.1.iter().any(|i| matches!(i, Item::Docs(_)) || matches!(i, Item::Macro(m) if p.macros[*m].doc.is_some())) {
                targets.push(f.0.clone());
            }
        }
        if targets.is_empty() || g.chance(1, 6) {
            targets.extend(REFERENCE.iter().map(|s| s.to_string()));
        }
        if !clean {
            targets.extend(["nope", "/nope", "/obj/x/nope", "/proc/nope", "/obj/x/y/var/count", "/obj/x/y/z/proc/act", "code/missing.dm", "/obj/x/act", "/obj/x/count", "/mob/tick", "gvar"].iter().filter(|_| g.chance(1, 6)).map(|s| s.to_string()));
        }
        if g.chance(1, 6) {
            targets.clear();
        }
        let fill = |g: &G, d: &mut Option<Doc>, titles: bool| {
            if d.is_some() {
                *d = Some(doc::doc(g, &targets, titles));
            }
        };
        for t in p.types.iter_mut().chain([&mut p.globals]) {
            fill(g, &mut t.doc, true);
            t.vars.iter_mut().for_each(|v| fill(g, &mut v.doc, false));
            t.procs.iter_mut().for_each(|v| fill(g, &mut v.doc, false));
        }
        p.macros.iter_mut().for_each(|v| fill(g, &mut v.doc, false));
        for d in &mut p.docs {
            d.0 = doc::doc(g, &targets, true);
        }
        for t in &mut p.texts {
            if t.0.ends_with(".md") {
                let d = doc::doc(g, &targets, true);
                t.2 = d.markdown(g).join("\n") + g.pick(&["", "\n"]);
                t.1 = Some(d);
            } else {
                t.2 = g.pick(&["one line", "some lines\n\n# of <text>\n  & more\n", "* a\n* b\n", "x\n```", "a\n````\nb"]).to_string();
            }
        }
        if g.chance(1, 4) {
            p.index = Some(("code/index.md".into(), doc::doc(g, &targets, true)));
        }
        p.write(g);
        p
    }

    fn var(&self, g: &G, name: &str) -> VarD {
        let mut flags = vec![];
        for f in ["static", "tmp", "const"] {
            if g.chance(1, 6) {
                flags.push(f);
            }
        }
        if flags.contains(&"const") {
            flags.retain(|f| *f != "tmp");
        }
        let ty = g.pick(&["", "", "obj/x", "list/obj/x/y", "list", "datum/d/e", "mob/m", "thing"]).to_string();
        VarD { name: name.into(), decl: Some((flags, ty)), doc: None, at: (0, 0) }
    }

    fn proc(&self, g: &G, name: &str) -> ProcD {
        let params = (0..g.usize(3))
            .map(|i| {
                let ty = g.pick(&["", "obj/x", "list/obj/x/y", "mob", "obj/x/y"]).to_string();
                (ty, ["one", "two", "three"][i].to_string(), g.weighted(&[4, 1, 1]))
            })
            .map(|(t, n, a)| (t, n, ["", "num", "mob"][a]))
            .collect();
        ProcD {
            name: name.into(),
            decl: Some(if g.chance(1, 5) && !name.starts_with("gp") { "verb" } else { "proc" }),
            params,
            as_: g.chance(1, 5).then(|| g.pick(&["num", "/obj/x", "mob"]).to_string()),
            set: g.chance(1, 5).then(|| g.pick(&["/obj/x/y", "/mob"]).to_string()),
            doc: None,
            at: (0, 0),
        }
    }

    fn get(&self, path: &str) -> Option<&TypeD> {
        self.types.iter().find(|t| t.path == path)
    }

    fn parent_path(&self, path: &str) -> Option<String> {
        if let Some(p) = self.get(path).and_then(|t| t.parent.clone()) {
            return Some(p);
        }
        match path {
            "/obj" | "/mob" => Some("/atom/movable".into()),
            "/turf" | "/area" => Some("/atom".into()),
            "/atom/movable" => Some("/atom".into()),
            "/thing" | "/atom" => Some("/datum".into()),
            "/datum" => None,
            _ => Some(path[..path.rfind('/').unwrap()].to_string()),
        }
    }

    /// The types of the project that a type inherits from, nearest first.
    fn ancestors(&self, path: &str) -> Vec<&TypeD> {
        let mut out = vec![];
        let mut p = path.to_string();
        while let Some(q) = self.parent_path(&p) {
            out.extend(self.get(&q));
            p = q;
        }
        out
    }

    // --------------------------------------------------------------------------------------------
    // the code

    fn write(&mut self, g: &G) {
        let mut code = vec![];
        for f in 0..self.files.len() {
            let mut out: Vec<String> = vec![];
            if f + 1 == self.files.len() {
                if let Some(w) = self.world {
                    out.push("/world".into());
                    out.push(format!("\tname = \"{}\"", w));
                }
                // what is only inherited from
                out.push("/datum/elsewhere".into());
                out.push("\tvar/unrelated = 1".into());
                for f in &self.files[..f] {
                    out.push(format!("#include \"{}\"", f.0.replace('/', g.pick(&["/", "\\"]))));
                }
            }
            for i in self.files[f].1.clone() {
                if g.chance(1, 3) {
                    out.push(String::new());
                }
                match i {
                    Item::Docs(d) => {
                        self.docs[d].1 = (f, out.len() + 1);
                        out.extend(self.docs[d].0.markdown(g).iter().map(|l| format!("//! {}", l).trim_end().to_string()));
                    },
                    Item::Macro(m) => {
                        let m = &mut self.macros[m];
                        before(g, &m.doc, "", &mut out);
                        m.at = (f, out.len() + 1);
                        let params = m.params.as_ref().map_or(String::new(), |(p, variadic)| format!("({}{})", p.join(", "), if *variadic { "..." } else { "" }));
                        out.push(format!("#define {}{} 1", m.name, params));
                    },
                    Item::Var(v) => {
                        let mut v = std::mem::replace(&mut self.globals.vars[v], VarD { name: String::new(), decl: None, doc: None, at: (0, 0) });
                        var(g, &mut v, "", "/", f, &mut out);
                        let k = self.globals.vars.iter().position(|v| v.name.is_empty()).unwrap();
                        self.globals.vars[k] = v;
                    },
                    Item::Proc(v) => proc(g, &mut self.globals.procs[v], "", "/", f, &mut out),
                    Item::Type(t) => {
                        let t = &mut self.types[t];
                        let inside = t.doc.is_some() && g.chance(1, 4);
                        if !inside {
                            before(g, &t.doc, "", &mut out);
                        }
                        t.at = (f, out.len() + 1);
                        out.push(t.path.clone());
                        if inside {
                            within(g, t.doc.as_ref().unwrap(), "\t", &mut out);
                        }
                        if let Some(p) = &t.parent {
                            out.push(format!("\tparent_type = {}", p));
                        }
                        if let Some(n) = t.name {
                            out.push(format!("\tname = \"{}\"", n));
                        }
                        for v in &mut t.vars {
                            var(g, v, "\t", "", f, &mut out);
                        }
                        for v in &mut t.procs {
                            proc(g, v, "\t", "", f, &mut out);
                        }
                    },
                }
            }
            code.push(out.join("\n") + "\n");
        }
        self.code = code;
    }

    /// Every file: its name and what is in it.
    pub fn all(&self, g: &G) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = self.files.iter().zip(&self.code).map(|(f, c)| (f.0.clone(), c.clone())).collect();
        out.extend(self.texts.iter().map(|t| (t.0.clone(), t.2.clone())));
        if let Some((name, d)) = &self.index {
            out.push((name.clone(), d.markdown(g).join("\n") + "\n"));
        }
        if self.path_names {
            out.push(("SpacemanDMM.toml".into(), "[dmdoc]\nuse_typepath_names = true\n".into()));
        }
        out
    }

    // --------------------------------------------------------------------------------------------
    // the pages

    /// Whether a type has a page of its own.
    pub fn detailed(&self, t: &TypeD) -> bool {
        t.doc.as_ref().is_some_and(|d| d.described()) || t.vars.iter().any(|v| v.doc.is_some()) || t.procs.iter().any(|v| v.doc.is_some())
    }

    fn detailed_path(&self, path: &str) -> bool {
        self.get(path).is_some_and(|t| self.detailed(t))
    }

    fn file_module(&self, f: usize) -> String {
        module(&self.files[f].0)
    }

    /// Where a crosslink leads, and whether it is just what it says.
    pub fn resolve(&self, r: &str) -> (Option<String>, bool) {
        if let Some(m) = self.macros.iter().find(|m| m.name == r) {
            return match m.doc {
                Some(_) => (Some(format!("{}.html#define/{}", self.file_module(m.at.0), r)), true),
                None => (None, false),
            };
        }
        if r.ends_with(".dm") || r.ends_with(".md") || r.ends_with(".txt") {
            let known = self.texts.iter().any(|t| t.0 == r) || self.files.iter().any(|f| f.0 == r);
            return (known.then(|| format!("{}.html", module(r))), known);
        }
        if REFERENCE.contains(&r) {
            return (Some("https://www.byond.com/docs/ref/#".into()), true);
        }
        let exists = |p: &str| self.types.iter().any(|t| t.path == p || t.path.starts_with(&format!("{}/", p)) || t.parent.as_deref() == Some(p));
        let mut exact = true;
        let (mut path, mut member) = (r.to_string(), None);
        let split = ["/proc/", "/verb/", "/var/"].iter().find_map(|k| r.find(k).map(|i| (i, *k)));
        if let Some((i, k)) = split {
            path = r[..i].to_string();
            member = Some((k == "/var/", r[i + k.len()..].to_string()));
        } else if !exists(r) {
            let empty = TypeD::default();
            if let Some((parent, rest)) = r.rsplit_once('/') {
                let t = self.get(parent).unwrap_or(&empty);
                if t.procs.iter().any(|p| p.name == rest) && !t.vars.iter().any(|v| v.name == rest) {
                    (exact, path, member) = (false, parent.to_string(), Some((false, rest.to_string())));
                } else if t.vars.iter().any(|v| v.name == rest) {
                    (exact, path, member) = (false, parent.to_string(), Some((true, rest.to_string())));
                }
            } else if self.globals.vars.iter().any(|v| v.name == r) {
                (exact, path, member) = (false, String::new(), Some((true, r.to_string())));
            }
        }
        let shown = |t: &TypeD| match &member {
            None => self.detailed(t),
            Some((true, n)) => t.vars.iter().any(|v| v.name == *n && v.doc.is_some()),
            Some((false, n)) => t.procs.iter().any(|v| v.name == *n && v.doc.is_some()),
        };
        let anchor = match &member {
            None => String::new(),
            Some((true, n)) => format!("#var/{}", n),
            Some((false, n)) => format!("#proc/{}", n),
        };
        if path.is_empty() {
            return match shown(&self.globals) {
                true => (Some(format!("global.html{}", anchor)), exact),
                false => (None, false),
            };
        }
        // or the nearest there is
        let mut p = path.as_str();
        while !p.is_empty() {
            if self.get(p).is_some_and(shown) {
                return (Some(format!("{}.html{}", &p[1..], anchor)), exact && p == path);
            }
            p = &p[..p.rfind('/').unwrap_or(0)];
        }
        (None, false)
    }

    /// A type's path, with links to the documented types on the way.
    fn linked(&self, path: &str) -> String {
        if let Some(rest) = path.strip_prefix("/list/") {
            return format!("/list{}", self.linked(&format!("/{}", rest)));
        }
        let mut out = String::new();
        let (mut from, mut i) = (0, 0);
        while i < path.len() {
            i = path[i + 1..].find('/').map_or(path.len(), |k| i + 1 + k);
            if self.detailed_path(&path[..i]) {
                out.push_str(&format!("/<a href=\"{}.html\">{}</a>", &path[1..i], &path[from + 1..i]));
                from = i;
            }
        }
        out + &path[from..]
    }

    fn html(&self, d: &Doc) -> String {
        d.html(&|t| self.resolve(t).0)
    }

    fn teaser(&self, d: &Doc) -> String {
        d.teaser(&|t| self.resolve(t).0)
    }

    fn image(&self, at: (usize, usize)) -> String {
        format!(" <img src=\"git.png\" title=\"{} {}\">", self.files[at.0].0, at.1)
    }

    pub fn world_name(&self) -> &str {
        self.world.unwrap_or("byond")
    }

    fn name_of(&self, t: &TypeD) -> Option<String> {
        if let Some(n) = t.doc.as_ref().and_then(|d| d.title_text()) {
            return Some(n);
        }
        if self.path_names {
            return t.path.rsplit('/').next().map(|s| s.to_string());
        }
        t.name.map(shown_name).filter(|n| !n.is_empty())
    }

    /// For every page: its title, and what is in the page's header and body.
    pub fn pages(&self) -> BTreeMap<String, (String, String, String)> {
        let mut out = BTreeMap::new();
        let nav = format!("<a href=\"index.html\">{}</a> - <a href=\"index.html#modules\">Modules</a> - <a href=\"index.html#types\">Types</a>", esc(self.world_name()));
        for (name, file, rows, defines) in self.modules() {
            let mut body = format!("<h1>{} <img src=\"git.png\" title=\"{}\"></h1><table>", name.1.map_or(esc(&file), |n| format!("{}<aside>{}</aside>", esc(&n), file)), file);
            for r in rows {
                body.push_str(&format!("<tr>{}</tr>", r));
            }
            body.push_str("</table>");
            let mut header = nav.clone();
            if !defines.is_empty() {
                header.push_str(&format!(" \u{2014} <a href=\"{}.html#define\">Define Details</a>", name.0));
                body.push_str("<h2 id=\"define\">Define Details</h2>");
                for m in defines {
                    let params = m.params.as_ref().map_or(String::new(), |(p, variadic)| format!("<aside>({}{})</aside>", p.join(", "), if *variadic { " ..." } else { "" }));
                    body.push_str(&format!("<h3 id=\"define/{}\"><aside>#define </aside>{}{}{}</h3>{}", m.name, m.name, params, self.image(m.at), self.html(m.doc.as_ref().unwrap())));
                }
            }
            out.insert(format!("{}.html", name.0), (file, header, body));
        }
        for t in self.types.iter().chain([&self.globals]) {
            if self.detailed(t) {
                let global = t.path.is_empty();
                let page = if global { "global.html".into() } else { format!("{}.html", &t.path[1..]) };
                let base = &page;
                let mut body = String::from("<h1>");
                let linked = self.linked(&t.path);
                if global {
                    body.push_str("(global)");
                } else if let Some(n) = self.name_of(t) {
                    body.push_str(&format!("{}<aside>{}</aside>", esc(&n), linked));
                } else {
                    body.push_str(&linked);
                }
                if !global {
                    let by_path = t.path[..t.path.rfind('/').unwrap()].to_string();
                    let parent = self.parent_path(&t.path).unwrap_or_default();
                    if parent != by_path {
                        body.push_str(&format!("<aside> inherits {}</aside>", self.linked(&parent)));
                    }
                    body.push_str(&self.image(t.at));
                } else {
                    body.push_str("<img src=\"git.png\" title=\"(unknown)\">");
                }
                body.push_str("</h1>");
                if let Some(d) = &t.doc {
                    body.push_str(&self.html(d));
                }
                let mut vars: Vec<(&VarD, &Doc)> = t.vars.iter().filter_map(|v| Some((v, v.doc.as_ref()?))).collect();
                vars.sort_by_key(|v| &v.0.name);
                let mut procs: Vec<(&ProcD, &Doc)> = t.procs.iter().filter_map(|v| Some((v, v.doc.as_ref()?))).collect();
                procs.sort_by_key(|v| &v.0.name);
                let mut header = nav.clone();
                let mut links = vec![];
                if !vars.is_empty() || !procs.is_empty() {
                    body.push_str("<table>");
                    if !vars.is_empty() {
                        links.push(format!("<a href=\"{}#var\">Var Details</a>", base));
                        body.push_str("<tr><td><h2>Vars</h2></td></tr>");
                        for (v, d) in &vars {
                            body.push_str(&format!("<tr><th><a href=\"{}#var/{}\">{}</a></th><td>{}</td></tr>", base, v.name, v.name, self.teaser(d)));
                        }
                    }
                    if !procs.is_empty() {
                        links.push(format!("<a href=\"{}#proc\">Proc Details</a>", base));
                        body.push_str("<tr><td><h2>Procs</h2></td></tr>");
                        for (v, d) in &procs {
                            body.push_str(&format!("<tr><th><a href=\"{}#proc/{}\">{}</a></th><td>{}</td></tr>", base, v.name, v.name, self.teaser(d)));
                        }
                    }
                    body.push_str("</table>");
                    header.push_str(&format!(" \u{2014} {}", links.join(" - ")));
                }
                let up = |kind: &str, name: &str, found: &dyn Fn(&TypeD) -> bool| match self.ancestors(&t.path).into_iter().find(|a| found(a)) {
                    Some(a) if !global => format!("<aside><a href=\"{}.html#{}/{}\">\u{2191}</a></aside>", &a.path[1..], kind, name),
                    _ => String::new(),
                };
                if !vars.is_empty() {
                    body.push_str("<h2 id=\"var\">Var Details</h2>");
                    for (v, d) in &vars {
                        let lead = match &v.decl {
                            Some(_) => "<aside>var </aside>".into(),
                            None => up("var", &v.name, &|a| a.vars.iter().any(|x| x.name == v.name && x.doc.is_some())),
                        };
                        let decl = v.decl.as_ref().or_else(|| self.ancestors(&t.path).iter().find_map(|a| a.vars.iter().find(|x| x.name == v.name)?.decl.as_ref()));
                        let mut ty = String::new();
                        if let Some((flags, path)) = decl {
                            for f in ["static", "const", "tmp"] {
                                if flags.contains(&f) {
                                    ty.push_str(&format!("/{}", f));
                                }
                            }
                            if !path.is_empty() {
                                ty.push_str(&self.linked(&format!("/{}", path)));
                            }
                            if !ty.is_empty() {
                                ty = format!(" <aside>\u{2013} {}</aside>", ty);
                            }
                        }
                        body.push_str(&format!("<h3 id=\"var/{}\">{}{}{}{}</h3>{}", v.name, lead, v.name, ty, self.image(v.at), self.html(d)));
                    }
                }
                if !procs.is_empty() {
                    body.push_str("<h2 id=\"proc\">Proc Details</h2>");
                    for (v, d) in &procs {
                        let lead = match v.decl {
                            Some(k) => format!("<aside>{} </aside>", k),
                            None => up("proc", &v.name, &|a| a.procs.iter().any(|x| x.name == v.name && x.doc.is_some())),
                        };
                        let input = |a: &str| match a {
                            "mob" if self.detailed_path("/mob") => "<a href=\"mob.html\">mob</a>".to_string(),
                            a if a.starts_with('/') => self.linked(a),
                            a => a.to_string(),
                        };
                        let params: Vec<String> = v
                            .params
                            .iter()
                            .map(|(ty, n, a)| {
                                let ty = if ty.is_empty() { String::new() } else { self.linked(&format!("/{}", ty)) + "/" };
                                let a = if a.is_empty() { String::new() } else { format!("<span> as </span>{}", input(a)) };
                                format!("{}{}{}", ty, n, a)
                            })
                            .collect();
                        let ret = v.as_.as_ref().or(v.set.as_ref()).map_or(String::new(), |r| format!("<span> as </span>{}", input(r)));
                        body.push_str(&format!("<h3 id=\"proc/{}\">{}{}<aside>({}) {}{}</aside></h3>{}", v.name, lead, v.name, params.join(", "), ret, self.image(v.at), self.html(d)));
                    }
                }
                out.insert(page, (if global { "(global)".into() } else { t.path.clone() }, header, body));
            }
        }
        let (title, text) = match &self.index {
            Some((_, d)) => (d.title_text(), self.html(d)),
            None => (None, String::new()),
        };
        out.insert("index.html".into(), ("Index".into(), nav, format!("<h1>{}</h1>{}", esc(&title.unwrap_or(self.world_name().into())), text)));
        out
    }

    /// The modules: (page, title), file, rows, and macros.
    #[allow(clippy::type_complexity)]
    pub fn modules(&self) -> Vec<((String, Option<String>), String, Vec<String>, Vec<&MacroD>)> {
        let mut out = vec![];
        for (f, (file, items)) in self.files.iter().enumerate() {
            let page = self.file_module(f);
            let mut rows = vec![];
            let mut defines = vec![];
            let mut title = None;
            for i in items {
                match *i {
                    Item::Docs(d) => {
                        let d = &self.docs[d].0;
                        title = d.title_text();
                        rows.push(format!("<td>{}</td>", self.html(d)));
                    },
                    Item::Macro(m) => {
                        if let Some(d) = &self.macros[m].doc {
                            let n = &self.macros[m].name;
                            rows.push(format!("<th><a href=\"{}.html#define/{}\">{}</a></th><td>{}</td>", page, n, n, self.teaser(d)));
                            defines.push(&self.macros[m]);
                        }
                    },
                    Item::Var(v) => {
                        if let Some(d) = &self.globals.vars[v].doc {
                            let n = &self.globals.vars[v].name;
                            rows.push(format!("<th>/var/<a href=\"global.html#var/{}\">{}</a></th><td>{}</td>", n, n, self.teaser(d)));
                        }
                    },
                    Item::Proc(v) => {
                        if let Some(d) = &self.globals.procs[v].doc {
                            let n = &self.globals.procs[v].name;
                            rows.push(format!("<th>/proc/<a href=\"global.html#proc/{}\">{}</a></th><td>{}</td>", n, n, self.teaser(d)));
                        }
                    },
                    Item::Type(t) => {
                        let t = &self.types[t];
                        if let Some(d) = &t.doc {
                            let link = if self.detailed(t) { format!("<a href=\"{}.html\">{}</a>", &t.path[1..], t.path) } else { self.linked(&t.path) };
                            rows.push(format!("<th>{}</th><td>{}</td>", link, self.teaser(d)));
                        }
                    },
                }
            }
            defines.sort_by_key(|m| &m.name);
            if !rows.is_empty() {
                out.push(((page, title), file.clone(), rows, defines));
            }
        }
        for (file, d, text) in &self.texts {
            let row = match d {
                Some(d) => self.html(d),
                None => format!("<pre><code>{}\n</code></pre>", esc(text.strip_suffix('\n').unwrap_or(text))),
            };
            out.push(((module(file), d.as_ref().and_then(|d| d.title_text())), file.clone(), vec![format!("<td>{}</td>", row)], vec![]));
        }
        out
    }

    /// What the index lists: the link or nothing, path, name, and short text, of modules and types.
    pub fn index(&self) -> (BTreeSet<String>, BTreeSet<String>) {
        let entry = |href: Option<String>, path: &str, name: &str, teaser: String| format!("{:?} {} {} {}", href, path, name, crate::html::canon_of(&teaser));
        let mut modules = BTreeSet::new();
        for ((page, title), file, _, _) in self.modules() {
            let first = match self.texts.iter().find(|t| t.0 == file) {
                Some(t) => t.1.as_ref(),
                None => {
                    let f = self.files.iter().find(|f| f.0 == file).unwrap();
                    f.1.iter().find_map(|i| match i {
                        Item::Docs(d) => Some(&self.docs[*d].0),
                        _ => None,
                    })
                },
            };
            let teaser = first.map_or(String::new(), |d| self.teaser(d));
            let name = title.unwrap_or_else(|| page.rsplit('/').next().unwrap().to_string());
            modules.insert(entry(Some(format!("{}.html", page)), &page, &name, teaser));
        }
        let mut types = BTreeSet::new();
        for t in self.types.iter().chain([&self.globals]) {
            if self.detailed(t) || t.doc.is_some() {
                let path = if t.path.is_empty() { "(global)" } else { &t.path };
                let href = self.detailed(t).then(|| format!("{}.html", if t.path.is_empty() { "global" } else { &path[1..] }));
                let name = self.name_of(t).filter(|n| !n.is_empty()).unwrap_or_else(|| path.rsplit('/').next().unwrap().to_string());
                types.insert(entry(href, path, &name, t.doc.as_ref().map_or(String::new(), |d| self.teaser(d))));
            }
        }
        (modules, types)
    }

    fn every_doc(&self) -> Vec<&Doc> {
        let mut out = vec![];
        for t in self.types.iter().chain([&self.globals]) {
            out.extend(&t.doc);
            out.extend(t.vars.iter().filter_map(|v| v.doc.as_ref()));
            out.extend(t.procs.iter().filter_map(|v| v.doc.as_ref()));
        }
        out.extend(self.macros.iter().filter_map(|m| m.doc.as_ref()));
        out.extend(self.docs.iter().enumerate().filter(|(i, _)| self.files.iter().any(|f| f.1.iter().any(|x| matches!(x, Item::Docs(d) if d == i)))).map(|(_, d)| &d.0));
        out.extend(self.texts.iter().filter_map(|t| t.1.as_ref()));
        out.extend(self.index.as_ref().map(|i| &i.1));
        out
    }

    pub fn crosslinks(&self) -> Vec<String> {
        self.every_doc().iter().flat_map(|d| d.crosslinks(false)).collect()
    }

    pub fn plain_crosslinks(&self) -> Vec<String> {
        self.every_doc().iter().flat_map(|d| d.crosslinks(true)).collect()
    }
}

fn before(g: &G, d: &Option<Doc>, indent: &str, out: &mut Vec<String>) {
    let Some(d) = d else { return };
    let lines = d.markdown(g);
    if g.chance(2, 3) || lines.iter().all(|l| l.is_empty() || l.ends_with('*')) {
        out.extend(lines.iter().map(|l| format!("{}/// {}", indent, l).trim_end().to_string()));
    } else {
        out.push(format!("{}/**", indent));
        out.extend(lines.iter().map(|l| format!("{} * {}", indent, l).trim_end().to_string()));
        out.push(format!("{} */", indent));
    }
}

fn within(g: &G, d: &Doc, indent: &str, out: &mut Vec<String>) {
    out.extend(d.markdown(g).iter().map(|l| format!("{}//! {}", indent, l).trim_end().to_string()));
}

fn var(g: &G, v: &mut VarD, indent: &str, lead: &str, f: usize, out: &mut Vec<String>) {
    let trailing = v.doc.as_ref().and_then(|d| {
        let m = d.markdown(g);
        (m.len() == 1 && g.bool()).then(|| m[0].clone())
    });
    if trailing.is_none() {
        before(g, &v.doc, indent, out);
    }
    v.at = (f, out.len() + 1);
    let mut line = match &v.decl {
        Some((flags, ty)) => {
            let mut words = vec!["var"];
            words.extend(flags);
            if !ty.is_empty() {
                words.push(ty);
            }
            format!("{}{}{}/{} = 1", indent, lead, words.join("/"), v.name)
        },
        None => format!("{}{} = 2", indent, v.name),
    };
    if let Some(t) = trailing {
        line.push_str(&format!(" //! {}", t));
    }
    out.push(line);
}

fn proc(g: &G, v: &mut ProcD, indent: &str, lead: &str, f: usize, out: &mut Vec<String>) {
    let inside = v.doc.is_some() && g.chance(1, 4);
    if !inside {
        before(g, &v.doc, indent, out);
    }
    v.at = (f, out.len() + 1);
    let params: Vec<String> = v
        .params
        .iter()
        .map(|(ty, n, a)| format!("{}{}{}", if ty.is_empty() { String::new() } else { format!("{}/", ty) }, n, if a.is_empty() { String::new() } else { format!(" as {}", a) }))
        .collect();
    let kind = v.decl.map_or(String::new(), |k| format!("{}/", k));
    let ret = v.as_.as_ref().map_or(String::new(), |r| format!(" as {}", r));
    out.push(format!("{}{}{}{}({}){}", indent, lead, kind, v.name, params.join(", "), ret));
    if inside {
        within(g, v.doc.as_ref().unwrap(), &format!("{}\t", indent), out);
    }
    if let Some(s) = &v.set {
        out.push(format!("{}\tset SpacemanDMM_return_type = {}", indent, s));
    }
    out.push(format!("{}\treturn", indent));
}
