//! L02: what the server says about a name is about what the name means there.
use crate::client::*;
use crate::code::*;
use engine::{ensure, fail, Fail, G, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Place {
    pub dir: PathBuf,
    pub c: Code,
    /// parameters are described by their places in the label
    offsets: bool,
}

impl Place {
    pub fn uri(&self, f: usize) -> String {
        uri(&self.dir.join(&self.c.names[f]))
    }
    fn file(&self, uri: &str) -> Option<usize> {
        (0..self.c.names.len()).find(|&f| self.uri(f) == uri)
    }
    /// A `Location` as a file and a line.
    fn loc(&self, v: &Value) -> Result<Loc, String> {
        let u = v["uri"].as_str().unwrap_or("");
        let line = v["range"]["start"]["line"].as_u64().unwrap_or(u64::MAX) as u32;
        match self.file(u) {
            Some(f) => Ok((f, line)),
            None => Err(u.to_string()),
        }
    }
    fn at(&self, m: &Mark, off: u32) -> Value {
        json!({"textDocument": {"uri": self.uri(m.file)}, "position": {"line": m.line, "character": m.col + off}})
    }
    /// A place in the name. (Just before the first of a line still counts as in the block before.)
    fn somewhere(&self, g: &G, m: &Mark) -> u32 {
        let line = self.c.files[m.file].lines().nth(m.line as usize).unwrap_or("");
        let first = (line.len() - line.trim_start().len()) as u32 == m.col;
        g.range(first as i64, m.text.len() as i64 - 1) as u32
    }
    fn show(&self, m: &Mark) -> String {
        let line = self.c.files[m.file].lines().nth(m.line as usize).unwrap_or("");
        format!("{} at {}:{}:{} (line {:?}), which is {:?}", m.text, self.c.names[m.file], m.line + 1, m.col + 1, line, m.what)
    }
    fn note(&self, g: &G) {
        for (n, t) in self.c.names.iter().zip(&self.c.files) {
            g.note(&format!("--- {}\n{}", n, t));
        }
    }
}

pub fn set_up(g: &G) -> Result<(Place, Client), Fail> {
    let c = code(g);
    let dir = g.scratch();
    let mut dme = String::new();
    for (n, t) in c.names.iter().zip(&c.files) {
        std::fs::write(dir.join(n), t).unwrap();
        dme.push_str(&format!("#include \"{}\"\n", n));
    }
    std::fs::write(dir.join("game.dme"), dme).unwrap();
    let p = Place { dir, c, offsets: g.bool() };
    p.note(g);
    let mut cl = Client::start(Path::new("/"), Some(&uri(&p.dir)), if p.offsets { json!({"textDocument": {"signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": true}}}}}) } else { json!({}) })?;
    cl.settle()?;
    let (f, line) = p.c.sentinel;
    let q = json!({"textDocument": {"uri": p.uri(f)}, "position": {"line": line, "character": 6}, "context": {"includeDeclaration": false}});
    let mut known = false;
    for _ in 0..4000 {
        if cl.ask("textDocument/references", q.clone())?.is_array() {
            known = true;
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    if !known {
        return fail("references-never", "the uses of /var/sentinel are never found");
    }
    for (f, n) in p.c.names.iter().enumerate() {
        let d = cl.diags.get(&p.uri(f)).cloned().unwrap_or_default();
        if d.iter().any(|d| d["severity"] == json!(1)) {
            return fail("program", format!("{}: {}\n{}", n, Value::from(d), p.c.files[f]));
        }
    }
    for f in 0..p.c.names.len() {
        if g.bool() {
            cl.notify("textDocument/didOpen", json!({"textDocument": {"uri": p.uri(f), "languageId": "dm", "version": 1, "text": p.c.files[f]}}))?;
        }
    }
    Ok((p, cl))
}

fn builtin(p: &Place, t: usize) -> String {
    format!("dm://docs/reference.dm#{}", p.c.types[t].path)
}

/// A builtin may also be said to be where the program first writes something of it.
fn near(p: &Place, got: &Result<Loc, String>, want: &Result<Loc, String>) -> bool {
    match (got, want) {
        (Ok(l), Err(w)) => w.split_once('#').is_some_and(|(_, path)| p.c.files[l.0].lines().nth(l.1 as usize).is_some_and(|line| line.starts_with(&format!("{}/", path)))),
        _ => false,
    }
}

/// Where a thing is, or the address of a builtin's documentation.
fn target(p: &Place, w: &What) -> Option<Result<Loc, String>> {
    Some(match w {
        What::Var(v, from) => Ok(p.c.var_at(*v, *from)),
        What::Proc(x, from) => Ok(p.c.proc_at(*x, *from).loc),
        What::Type(t) | What::TypeHead(t) => {
            if p.c.types[*t].builtin {
                Err(builtin(p, *t))
            } else {
                Ok(p.c.types[*t].loc)
            }
        },
        What::Local { loc, .. } => Ok(*loc),
        What::Macro(m) => Ok(p.c.macros[*m].1),
        What::Parent(x, d) => Ok(p.c.before(*x, *d)?),
        What::ProcPath(x, t) => Ok(p.c.proc_at(*x, Some(*t)).loc),
        What::VarHead(_) | What::ProcHead(_) => return None,
    })
}

fn kind(w: &What) -> &'static str {
    match w {
        What::Var(..) => "var",
        What::Proc(..) => "proc",
        What::Type(_) => "type",
        What::Local { .. } => "local",
        What::Macro(_) => "macro",
        What::VarHead(_) => "var-head",
        What::ProcHead(_) => "proc-head",
        What::TypeHead(_) => "type-head",
        What::Parent(..) => "parent",
        What::ProcPath(..) => "proc-path",
    }
}

pub fn definitions(g: &G) -> R {
    let (p, mut c) = set_up(g)?;
    g.nontrivial(p.c.marks.len() >= 10);
    for _ in 0..40 {
        let m = g.pick(&p.c.marks);
        let off = p.somewhere(g, m);
        g.label(kind(&m.what));
        let at = p.at(m, off);
        if !matches!(m.what, What::VarHead(_) | What::ProcHead(_)) {
            let got = c.ask("textDocument/definition", at.clone())?;
            let list: Vec<Result<Loc, String>> = got.as_array().map(|a| a.iter().map(|v| p.loc(v)).collect()).unwrap_or_default();
            let want: Vec<_> = target(&p, &m.what).into_iter().collect();
            ensure!(list == want || (list.len() == 1 && want.len() == 1 && near(&p, &list[0], &want[0])), format!("definition:{}", kind(&m.what)).as_str(), "definition of {}: {}\nexpected {:?}", p.show(m), got, want);
        }
        let ty = match &m.what {
            What::Var(v, _) => Some(p.c.vars[*v].ty),
            What::Local { ty, .. } => Some(*ty),
            _ => None,
        };
        if let Some(VType::Type(t)) = ty {
            let got = c.ask("textDocument/typeDefinition", at)?;
            let want = if p.c.types[t].builtin { Err(builtin(&p, t)) } else { Ok(p.c.types[t].loc) };
            ensure!(p.loc(&got) == want || near(&p, &p.loc(&got), &want), "type-definition", "type definition of {}: {}\nexpected {:?}", p.show(m), got, want);
            g.label("type-definition");
        }
    }
    c.quit()
}

fn symbol(w: &What) -> Option<Sym> {
    match w {
        What::Var(v, _) | What::VarHead(v) => Some(Sym::Var(*v)),
        What::Proc(x, _) | What::ProcHead(x) | What::ProcPath(x, _) => Some(Sym::Proc(*x)),
        What::Type(t) | What::TypeHead(t) => Some(Sym::Type(*t)),
        _ => None,
    }
}

fn count(v: impl Iterator<Item = Loc>) -> BTreeMap<Loc, usize> {
    let mut m = BTreeMap::new();
    for l in v {
        *m.entry(l).or_default() += 1;
    }
    m
}

pub fn references(g: &G) -> R {
    let (p, mut c) = set_up(g)?;
    g.nontrivial(p.c.uses.len() >= 6);
    let name = |l: &Loc| format!("{}:{} {:?}", p.c.names[l.0], l.1 + 1, p.c.files[l.0].lines().nth(l.1 as usize).unwrap_or(""));
    let mut done = BTreeSet::new();
    for _ in 0..60 {
        let m = g.pick(&p.c.marks);
        let Some(s) = symbol(&m.what) else { continue };
        // (a type in the heading of something stands for the whole heading)
        if m.heading && !matches!(m.what, What::VarHead(_) | What::ProcHead(_)) {
            continue;
        }
        if let What::Type(t) | What::TypeHead(t) = m.what {
            if p.c.types[t].builtin {
                continue;
            }
        }
        if !done.insert((s, m.file, m.line, m.col)) {
            continue;
        }
        g.label(kind(&m.what));
        let mut at = p.at(m, p.somewhere(g, m));
        at["context"] = json!({"includeDeclaration": g.bool()});
        let list = |v: &Value| -> Result<BTreeMap<Loc, usize>, Fail> {
            let mut out = vec![];
            for x in v.as_array().map(|a| &a[..]).unwrap_or(&[]) {
                match p.loc(x) {
                    Ok(l) => out.push(l),
                    Err(e) => return fail("elsewhere", format!("{} of {}", e, v)),
                }
            }
            Ok(count(out.into_iter()))
        };
        let got = list(&c.ask("textDocument/references", at.clone())?)?;
        let want = count(p.c.uses.iter().filter(|u| u.0 == s).map(|u| u.1));
        for (l, n) in &want {
            let have = got.get(l).copied().unwrap_or(0);
            let may = p.c.may.contains(&(s, *l));
            ensure!(have == *n || (may && have >= *n), format!("references:{}", if have < *n { "missing" } else { "more" }).as_str(), "references of {}: {} found at {}, of {}", p.show(m), have, name(l), n);
        }
        for l in got.keys() {
            ensure!(want.contains_key(l) || p.c.may.contains(&(s, *l)), "references:wrong", "references of {}: {} is none", p.show(m), name(l));
        }
        let got = list(&c.ask("textDocument/implementation", at)?)?;
        let want: BTreeSet<Loc> = match s {
            Sym::Type(t) => [p.c.types[t].loc].into(),
            Sym::Var(v) => p.c.vars[v].at.values().copied().collect(),
            Sym::Proc(x) => {
                let d = &p.c.procs[x].defs;
                (0..d.len()).filter(|&i| !d[..i].iter().any(|e| e.ty == d[i].ty)).map(|i| d[i].loc).collect()
            },
        };
        ensure!(got == count(want.iter().copied()), "implementations", "implementations of {}: {:?}\nexpected {:?}", p.show(m), got, want);
    }
    c.quit()
}

// ------------------------------------------------------------------------------------------------

fn link(p: &Place, l: Loc) -> String {
    format!("{}#{}", p.uri(l.0), l.1 + 1)
}

fn shown_path(p: &Place, t: Option<usize>) -> String {
    match t {
        None => "(global)".into(),
        Some(t) => p.c.types[t].path.clone(),
    }
}

fn simple(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).filter(|c| c.is_alphanumeric()).collect()
}

pub fn descriptions(g: &G) -> R {
    let (p, mut c) = set_up(g)?;
    g.nontrivial(p.c.marks.iter().filter(|m| m.scope.is_some()).count() >= 5);
    for _ in 0..40 {
        let m = g.pick(&p.c.marks);
        if m.heading {
            heading(g, &p, &mut c, m)?;
            continue;
        }
        let at = p.at(m, p.somewhere(g, m));
        hover(g, &p, &mut c, m, &at)?;
        completion(g, &p, &mut c, m, &at)?;
        signature(g, &p, &mut c, m, &at)?;
    }
    c.quit()
}

/// A heading is described by everything there is to the thing, from its declaration on.
fn heading(g: &G, p: &Place, c: &mut Client, m: &Mark) -> R {
    let at = p.at(m, p.somewhere(g, m));
    let doc: Option<String>;
    let mut want = vec![];
    match m.what {
        What::VarHead(v) => {
            let x = &p.c.vars[v];
            let here = x.at.iter().find(|(_, l)| **l == (m.file, m.line)).map(|(t, _)| *t).unwrap();
            let t = match x.ty {
                VType::None => "/".to_string(),
                t => format!("{}/", p.c.type_text(t)),
            };
            want.push(format!("```dm\nvar{}{}\n```", t, x.name));
            let mut chain: Vec<Option<usize>> = p.c.ancestors(here).into_iter().map(Some).collect();
            if x.owner.is_none() {
                chain.push(None);
            }
            for t in chain.into_iter().rev() {
                if let Some(l) = x.at.get(&t) {
                    want.push(format!("[{}]({})", shown_path(p, t), link(p, *l)));
                }
            }
            doc = x.doc.clone();
        },
        What::ProcHead(i) => {
            let x = &p.c.procs[i];
            let here = x.defs.iter().find(|d| d.loc == (m.file, m.line)).unwrap().ty;
            want.push(format!("```dm\n{}/{}\n```", if x.verb { "verb" } else { "proc" }, x.name));
            let mut chain: Vec<Option<usize>> = p.c.ancestors(here).into_iter().map(Some).collect();
            if x.owner.is_none() {
                chain.push(None);
            }
            for t in chain.into_iter().rev() {
                if let Some(d) = x.defs.iter().rev().find(|d| d.ty == t) {
                    want.push(format!("[{}]({})  \n```dm\n{}({})\n```", shown_path(p, t), link(p, d.loc), x.name, params(p, d)));
                }
            }
            doc = x.shown_doc();
        },
        _ => return Ok(()),
    }
    let got = c.ask("textDocument/hover", at)?;
    let list: Vec<String> = got["contents"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap_or("?").trim_end().to_string()).collect()).unwrap_or_default();
    // (the values are not looked at)
    let mut text = list.first().cloned().unwrap_or_default();
    while let Some(i) = text.find("\n```dm\n= ") {
        let j = text[i + 8..].find("\n```").unwrap_or(text.len() - i - 12) + i + 8 + 4;
        text.replace_range(i..j, "");
    }
    let mut have = vec![text];
    have.extend(list.into_iter().skip(1));
    let mut want = vec![want.join("\n\n")];
    want.extend(doc);
    g.label("heading");
    ensure!(have == want, format!("hover:{}", kind(&m.what)).as_str(), "hovering over {}: {:#?}\nexpected {:#?}", p.show(m), have, want);
    Ok(())
}

fn hover(g: &G, p: &Place, c: &mut Client, m: &Mark, at: &Value) -> R {
    let mut want: Vec<String> = vec![];
    let mut doc = None;
    match &m.what {
        What::Var(v, _) => {
            let x = &p.c.vars[*v];
            let t = match x.ty {
                VType::None => "/".to_string(),
                t => format!("{}/", p.c.type_text(t)),
            };
            want.push(format!("[{}]({})\n```dm\nvar{}{}\n```", shown_path(p, x.owner), link(p, x.at[&x.owner]), t, x.name));
            doc = x.doc.clone();
        },
        What::Proc(x, from) => {
            let d = p.c.proc_at(*x, *from);
            let x = &p.c.procs[*x];
            want.push(format!("[{}]({})\n```dm\n{}/{}({})\n```", shown_path(p, d.ty), link(p, d.loc), if x.verb { "verb" } else { "proc" }, x.name, params(p, d)));
            doc = x.shown_doc();
        },
        What::Macro(i) => doc = p.c.macros[*i].2.clone(),
        What::Local { .. } | What::Type(_) | What::Parent(..) if !m.heading => {},
        _ => return Ok(()),
    }
    want.extend(doc);
    let got = c.ask("textDocument/hover", at.clone())?;
    let mut list: Vec<String> = got["contents"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
    // (an argument's place may be described, too)
    list.iter_mut().for_each(|s| *s = s.trim_end().to_string());
    g.label_if(!want.is_empty(), "hover");
    ensure!(list == want, format!("hover:{}", kind(&m.what)).as_str(), "hovering over {}: {:#?}\nexpected {:#?}", p.show(m), list, want);
    Ok(())
}

/// The parameters as text.
fn params(p: &Place, d: &Def) -> String {
    let mut v = vec![];
    for (n, t) in &d.params {
        let t = p.c.type_text(*t);
        v.push(if t.is_empty() { n.clone() } else { format!("{}/{}", &t[1..], n) });
    }
    v.join(", ")
}

fn completion(g: &G, p: &Place, c: &mut Client, m: &Mark, at: &Value) -> R {
    let Some(s) = &m.scope else { return Ok(()) };
    let got = c.ask("textDocument/completion", at.clone())?;
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    let mut ours: BTreeSet<&str> = BTreeSet::new();
    let q = simple(&m.text);
    let mut add = |n: &str| {
        if simple(n).contains(&q) {
            *want.entry(n.to_string()).or_default() += 1;
        }
    };
    for v in &p.c.vars {
        ours.insert(&v.name);
    }
    for v in &p.c.procs {
        ours.insert(&v.name);
    }
    for v in &p.c.macros {
        ours.insert(&v.0);
    }
    for v in &p.c.procs {
        for d in &v.defs {
            for n in &d.params {
                ours.insert(&n.0);
            }
        }
    }
    ours.extend(["vxl", "vxm", "vx_lm"]);
    let from = m.scoped.or(s.ty);
    let a = p.c.ancestors(from);
    let mut vars: BTreeSet<&str> = BTreeSet::new();
    let mut procs: BTreeSet<&str> = BTreeSet::new();
    for v in &p.c.vars {
        if v.owner.map_or(m.scoped.is_none(), |o| a.contains(&o)) {
            vars.insert(&v.name);
        }
    }
    for v in &p.c.procs {
        if v.owner.map_or(m.scoped.is_none(), |o| a.contains(&o)) {
            procs.insert(&v.name);
        }
    }
    vars.iter().chain(&procs).for_each(|n| add(n));
    if m.scoped.is_none() {
        for v in &p.c.macros {
            add(&v.0);
        }
        for l in &s.locals {
            add(&l.0);
        }
        for l in &s.locals {
            if l.2.1 == GONE {
                ours.remove(&l.0[..]);
            }
        }
    }
    let mut have: BTreeMap<String, usize> = BTreeMap::new();
    for i in got.as_array().map(|a| &a[..]).unwrap_or(&[]) {
        let n = i["label"].as_str().unwrap_or("");
        if ours.contains(n) {
            *have.entry(n.to_string()).or_default() += 1;
        }
    }
    g.label(if m.scoped.is_some() { "completion scoped" } else { "completion" });
    want.retain(|n, _| ours.contains(&n[..]));
    ensure!(have == want, "completion", "completing {}: {:?}\nexpected {:?}", p.show(m), have, want);
    Ok(())
}

fn signature(g: &G, p: &Place, c: &mut Client, m: &Mark, at: &Value) -> R {
    let Some((x, from, arg)) = m.call else { return Ok(()) };
    let got = c.ask("textDocument/signatureHelp", at.clone())?;
    let d = p.c.proc_at(x, from);
    let label = format!("{}/{}({})", d.ty.map_or("", |t| &p.c.types[t].path), p.c.procs[x].name, params(p, d));
    let s = &got["signatures"][0];
    g.label("signature");
    ensure!(s["label"] == json!(label) && got["activeParameter"] == json!(arg), "signature", "the call around {}: {}\nexpected {} argument {}", p.show(m), got, label, arg);
    let names: Vec<Value> = d.params.iter().map(|x| json!({"label": x.0})).collect();
    let names = if p.offsets {
        let mut end = label.find('(').unwrap() + 1;
        d.params.iter().zip(params(p, d).split(", ")).map(|(x, shown)| {
            let start = end + shown.len() - x.0.len();
            end += shown.len() + 2;
            json!({"label": [start, start + x.0.len()]})
        }).collect()
    } else {
        names
    };
    ensure!(s["parameters"] == Value::from(names.clone()), "signature", "the call around {}: {}\nexpected parameters {:?}", p.show(m), got, names);
    Ok(())
}
