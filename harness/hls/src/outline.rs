//! L03: what a document, and a workspace, consist of.
use crate::client::*;
use engine::{ensure, ensure_eq, fail, G, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const CLASS: i64 = 5;
const METHOD: i64 = 6;
const FIELD: i64 = 8;
const CONSTRUCTOR: i64 = 9;
const FUNCTION: i64 = 12;
const VARIABLE: i64 = 13;
const CONSTANT: i64 = 14;

#[derive(Clone, Debug)]
struct Sym {
    name: String,
    detail: Option<String>,
    kind: i64,
    /// it starts on one of these lines, and ends no sooner than the latter
    first: u32,
    last: u32,
    inner: Vec<Sym>,
    exact: bool,
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    decl: bool,
    constant: bool,
    at: (usize, u32),
}

#[derive(Clone, Debug)]
struct Proc {
    name: String,
    decl: bool,
    verb: bool,
    at: (usize, u32),
}

#[derive(Default, Debug)]
struct Type {
    vars: Vec<Var>,
    procs: Vec<Proc>,
}

#[derive(Default)]
struct File {
    lines: Vec<String>,
    syms: Vec<Sym>,
    /// colours: line, column, end, rgba, text
    colors: Vec<(u32, usize, usize, [u8; 4], String)>,
    regions: Vec<(u32, u32)>,
    open: Vec<u32>,
    /// line, column, what is linked to
    links: Vec<(u32, usize, String)>,
}

struct Gen<'a> {
    g: &'a G,
    at: usize,
    f: File,
    /// by path, "" being the root
    types: BTreeMap<String, Type>,
    macros: Vec<(String, (usize, u32))>,
    n: usize,
    files: Vec<String>,
}

const STEMS: &[&str] = &["alpha", "Alpha_x", "be_ta", "gammaRay", "_delta", "ALP", "x_y_z", "beta2"];
const TYPES: &[&str] = &["/obj/ta", "/obj/ta/Tb_c", "/obj/ta/Tb_c/alph", "/mob/beta_t", "/datum/tD", "/datum/tD/t_d", "/turf/x_t"];

impl<'a> Gen<'a> {
    fn line(&self) -> u32 {
        self.f.lines.len() as u32
    }

    fn put(&mut self, depth: usize, text: &str) -> u32 {
        self.f.lines.push(format!("{}{}", "\t".repeat(depth), text));
        self.line() - 1
    }

    fn name(&mut self) -> String {
        self.n += 1;
        format!("{}{}", self.g.pick::<&str>(STEMS), self.n)
    }

    /// A value, with where the colours in it are relative to its start.
    fn value(&mut self) -> (String, Vec<(usize, usize, [u8; 4])>) {
        let g = self.g;
        match g.weighted(&[3, 4, 2, 1]) {
            0 => (g.below(100).to_string(), vec![]),
            1 => {
                let (t, c) = color(g);
                (t.clone(), vec![(0, t.len(), c)])
            },
            2 => (not_color(g), vec![]),
            _ => {
                let ((a, ca), (b, cb)) = (color(g), color(g));
                let s = format!("list({}, {})", a, b);
                let at = 5 + a.len() + 2;
                (s, vec![(5, 5 + a.len(), ca), (at, at + b.len(), cb)])
            },
        }
    }

    /// A line `head = value` or the like.
    fn put_value(&mut self, depth: usize, head: &str, tail: &str) -> u32 {
        let (v, cs) = self.value();
        let lead = if self.g.chance(1, 8) { "/* é😀 */ " } else { "" };
        let l = self.put(depth, &format!("{}{}{}{}", lead, head, v, tail));
        let start = depth + lead.len() + head.len();
        for (a, b, c) in cs {
            let text = v[a..b].to_string();
            self.f.colors.push((l, start + a, start + b, c, text));
        }
        l
    }

    fn ty(&mut self, path: &str) -> &mut Type {
        // all it is under
        let parts: Vec<&str> = path.split('/').skip(1).collect();
        for i in 1..parts.len() {
            self.types.entry(format!("/{}", parts[..i].join("/"))).or_default();
        }
        self.types.entry(path.to_string()).or_default()
    }

    fn locals(&mut self, depth: usize, budget: usize) -> Vec<Sym> {
        let mut out = vec![];
        for _ in 0..self.g.usize(budget + 1) {
            let n = format!("l{}", self.name());
            let local = |name: String, l: u32| Sym { name, detail: None, kind: VARIABLE, first: l, last: l, inner: vec![], exact: true };
            match self.g.weighted(&[4, 2, 2, 1, 1, 1, 1]) {
                0 => {
                    let ty = *self.g.pick(&["", "", "obj/ta/", "list/", "mob/"]);
                    let l = if self.g.bool() { self.put_value(depth, &format!("var/{}{} = ", ty, n), "") } else { self.put(depth, &format!("var/{}{}", ty, n)) };
                    out.push(local(n, l));
                },
                1 => {
                    self.put_value(depth, "world.log << ", "");
                },
                2 => {
                    self.put(depth, "if(world)");
                    let l = self.put(depth + 1, &format!("var/{}", n));
                    out.push(local(n, l));
                    out.extend(self.locals(depth + 1, budget / 2));
                },
                3 => {
                    let l = self.put(depth, &format!("for(var/{} in world)", n));
                    self.put(depth + 1, "world.log << 2");
                    out.push(local(n, l));
                    out.extend(self.locals(depth + 1, budget / 2));
                },
                4 => {
                    let l = self.put(depth, &format!("for(var/{} = 1, {} < 5, {}++)", n, n, n));
                    self.put(depth + 1, "continue");
                    out.push(local(n, l));
                },
                5 => {
                    self.put(depth, "try");
                    self.put(depth + 1, "world.log << 1");
                    let l = self.put(depth, &format!("catch(var/exception/{})", n));
                    self.put(depth + 1, "world.log << 2");
                    out.push(local(n, l));
                },
                _ => {
                    self.put(depth, &format!("var/static/{} = 4", n));
                    let l = self.line() - 1;
                    out.push(local(n, l));
                },
            }
        }
        out
    }

    /// The header's line has been put.
    fn body(&mut self, depth: usize, name: &str, detail: Option<String>, kind: i64, l: u32) -> Sym {
        let mut inner = vec![];
        if self.g.chance(4, 5) {
            if self.g.chance(1, 3) {
                self.put(depth, "set waitfor = 0");
            }
            inner = self.locals(depth, 3);
            if inner.is_empty() || self.g.bool() {
                self.put(depth, self.g.pick::<&str>(&["return", ". = 1", "return 5"]));
            }
        }
        let last = self.line() - 1;
        Sym { name: name.into(), detail, kind, first: l, last: if inner.is_empty() { l } else { last }, inner, exact: true }
    }

    fn params(&self) -> &'static str {
        *self.g.pick(&["", "", "a", "a, b", "mob/a, b = 3", "a as num"])
    }

    /// A variable of a type (or of none), on a line by itself or within a block (of a type or `var`).
    fn var(&mut self, depth: usize, path: &str, within: &str) -> Sym {
        let g = self.g;
        let mut older: Vec<String> = self.types.iter().filter(|t| !t.0.is_empty() && (path == t.0 || path.starts_with(&format!("{}/", t.0)))).flat_map(|t| t.1.vars.iter().filter(|v| v.decl).map(|v| v.name.clone())).collect();
        // (only one value per type)
        older.retain(|n| !self.types.get(path).is_some_and(|t| t.vars.iter().any(|v| v.name == *n)));
        let prefix = if within.is_empty() { format!("{}/", path) } else { String::new() };
        let owner = if within.is_empty() && !path.is_empty() { path.rsplit('/').next().map(|s| s.to_string()) } else { None };
        if !path.is_empty() && within != "var" && !older.is_empty() && g.chance(1, 3) {
            let n = g.pick(&older).clone();
            let l = self.put_value(depth, &format!("{}{} = ", prefix, n), "");
            let at = (self.at, l);
            self.ty(path).vars.push(Var { name: n.clone(), decl: false, constant: false, at });
            return Sym { name: n, detail: owner, kind: FIELD, first: l, last: l, inner: vec![], exact: true };
        }
        let n = self.name();
        let flags = *g.pick(&["", "", "", "static/", "global/", "const/", "tmp/"]);
        let (ty, shown) = *g.pick(&[("", None), ("", None), ("obj/ta/", Some("ta")), ("mob/", Some("mob")), ("list/", Some("list"))]);
        let constant = flags == "const/";
        let lead = if within == "var" { "" } else { "var/" };
        let head = format!("{}{}{}{}{}", prefix, lead, flags, ty, n);
        let l = if constant {
            self.put(depth, &format!("{} = 5", head))
        } else if g.bool() {
            self.put_value(depth, &format!("{} = ", head), "")
        } else {
            self.put(depth, &head)
        };
        let at = (self.at, l);
        self.ty(path).vars.push(Var { name: n.clone(), decl: true, constant, at });
        Sym { name: n, detail: shown.map(|s| s.to_string()).or(owner), kind: FIELD, first: l, last: l, inner: vec![], exact: true }
    }

    fn proc(&mut self, depth: usize, path: &str, within: &str) -> Sym {
        let g = self.g;
        let older: Vec<String> = self.types.iter().filter(|t| !t.0.is_empty() && (path == t.0 || path.starts_with(&format!("{}/", t.0)))).flat_map(|t| t.1.procs.iter().filter(|v| v.decl).map(|v| v.name.clone())).collect();
        let prefix = if within.is_empty() { format!("{}/", path) } else { String::new() };
        let owner = if within.is_empty() && !path.is_empty() { path.rsplit('/').next().map(|s| s.to_string()) } else { None };
        let mut decl = true;
        let (mut lead, mut verb) = ("proc/", false);
        let n = if !path.is_empty() && !["proc", "verb"].contains(&within) && g.chance(1, 3) {
            decl = false;
            lead = "";
            if older.is_empty() || g.chance(1, 4) {
                "New".to_string()
            } else {
                g.pick(&older).clone()
            }
        } else {
            if g.chance(1, 4) && !path.is_empty() && within != "proc" {
                lead = "verb/";
                verb = true;
            }
            if g.chance(1, 6) && !path.is_empty() && !self.types.values().any(|t| t.procs.iter().any(|p| p.name == "Initialize")) { "Initialize".into() } else { self.name() }
        };
        if ["proc", "verb"].contains(&within) {
            lead = "";
            verb = within == "verb";
        }
        let l = self.put(depth, &format!("{}{}{}({})", prefix, lead, n, self.params()));
        let at = (self.at, l);
        self.ty(path).procs.push(Proc { name: n.clone(), decl, verb, at });
        let kind = if path.is_empty() {
            FUNCTION
        } else if n == "New" || n == "Initialize" {
            CONSTRUCTOR
        } else {
            METHOD
        };
        self.body(depth + 1, &n, owner, kind, l)
    }

    fn marker(&mut self, depth: usize) {
        let g = self.g;
        match g.weighted(&[3, 3, 2]) {
            0 => {
                let l = self.put(depth, g.pick::<&str>(&["//#region", "// #region", "//#region some name", "// #region\tx"]));
                self.f.open.push(l);
            },
            1 => {
                let l = self.put(depth, g.pick::<&str>(&["//#endregion", "// #endregion", "//#endregion some name"]));
                if let Some(from) = self.f.open.pop() {
                    self.f.regions.push((from, l));
                }
            },
            _ => {
                self.put(depth, g.pick::<&str>(&["//#regions", "//  #region", "//#endregions", "// region", "//#Region", "/* //#endregion"]));
                if self.f.lines.last().unwrap().contains("/*") {
                    self.put(depth, "*/");
                    // (its first line is not one which starts a comment)
                }
            },
        }
    }

    fn members(&mut self, depth: usize, path: &str, nest: usize) -> Vec<Sym> {
        let g = self.g;
        let mut out = vec![];
        for _ in 0..1 + g.usize(4) {
            match g.weighted(&[5, 4, 1, 1, if nest > 0 { 2 } else { 0 }, 1]) {
                0 => out.push(self.var(depth, path, "type")),
                1 => out.push(self.proc(depth, path, "type")),
                2 => {
                    let l = self.put(depth, "var");
                    let inner: Vec<Sym> = (0..1 + g.usize(2)).map(|_| self.var(depth + 1, path, "var")).collect();
                    out.push(Sym { name: "var".into(), detail: None, kind: CLASS, first: l, last: inner.last().unwrap().first, inner, exact: false });
                },
                3 => {
                    let w = *g.pick(&["proc", "verb"]);
                    let l = self.put(depth, w);
                    let inner: Vec<Sym> = (0..1 + g.usize(2)).map(|_| self.proc(depth + 1, path, w)).collect();
                    out.push(Sym { name: w.into(), detail: None, kind: CLASS, first: l, last: inner.last().unwrap().first, inner, exact: false });
                },
                4 => {
                    let sub = *g.pick(&["sub", "Sub_two", "alpha"]);
                    let two = g.chance(1, 4);
                    let rel = if two { format!("mid/{}", sub) } else { sub.to_string() };
                    let l = self.put(depth, &rel);
                    let inner = self.members(depth + 1, &format!("{}/{}", path, rel), nest - 1);
                    self.ty(&format!("{}/{}", path, rel));
                    out.push(Sym { name: sub.into(), detail: two.then(|| "mid".to_string()), kind: CLASS, first: l, last: inner.last().map_or(l, |s| s.first), inner, exact: false });
                },
                _ => self.marker(depth),
            }
        }
        if out.is_empty() {
            out.push(self.var(depth, path, "type"));
        }
        out
    }

    fn item(&mut self) {
        let g = self.g;
        let path = *g.pick(TYPES);
        match g.weighted(&[4, 3, 2, 2, 1, 2, 2, 1]) {
            0 => {
                let head = if g.bool() { path.to_string() } else { path[1..].to_string() };
                let l = self.put(0, &head);
                self.ty(path);
                let inner = self.members(1, path, 2);
                let mut parts = path.rsplit('/');
                let (name, up) = (parts.next().unwrap(), parts.next().unwrap());
                let s = Sym { name: name.into(), detail: Some(up.to_string()), kind: CLASS, first: l, last: inner.last().unwrap().first, inner, exact: false };
                self.f.syms.push(s);
            },
            1 => {
                let s = self.var(0, if g.chance(1, 3) { "" } else { path }, "");
                self.f.syms.push(s);
            },
            2 => {
                let s = self.proc(0, if g.chance(1, 3) { "" } else { path }, "");
                self.f.syms.push(s);
            },
            3 => {
                let n = format!("M{}", self.name());
                let l = self.put_value(0, &format!("#define {}{} ", n, g.pick::<&str>(&["", "(X)", "(X, Y)"])), "");
                self.macros.push((n.clone(), (self.at, l)));
                self.f.syms.push(Sym { name: n, detail: None, kind: CONSTANT, first: l, last: l, inner: vec![], exact: true });
            },
            4 => {
                self.put(0, path);
                self.ty(path);
            },
            5 => self.marker(0),
            6 => {
                // a comment
                let l = self.put_value(0, "// ", " é");
                let _ = l;
            },
            _ => {
                let n = self.name();
                let file = *g.pick(&["icons/a.dmi", "b.ogg", "sub dir/c.png"]);
                let l = self.put(0, &format!("/var/{} = '{}'", n, file));
                let at = (self.at, l);
                self.ty("").vars.push(Var { name: n.clone(), decl: true, constant: false, at });
                self.f.links.push((l, 5 + n.len() + 3, file.to_string()));
                self.f.syms.push(Sym { name: n, detail: None, kind: FIELD, first: l, last: l, inner: vec![], exact: true });
            },
        }
        // something at the margin, so that blocks are over
        if g.chance(2, 3) {
            let n = self.name();
            let l = self.put(0, &format!("/var/{} = 1", n));
            let at = (self.at, l);
            self.ty("").vars.push(Var { name: n.clone(), decl: true, constant: false, at });
            self.f.syms.push(Sym { name: n, detail: None, kind: FIELD, first: l, last: l, inner: vec![], exact: true });
        }
    }
}

/// A colour and how it's written.
fn color(g: &G) -> (String, [u8; 4]) {
    let mut c = [g.below(256) as u8, g.below(256) as u8, g.below(256) as u8, g.below(256) as u8];
    if g.chance(1, 3) {
        c = c.map(|x| x % 16 * 17);
    }
    let q = *g.pick(&["\"", "\"", "'"]);
    let [r, gr, b, a] = c;
    let up = |s: String| if g.chance(1, 4) { s.to_uppercase() } else { s };
    let opaque = [r, gr, b, 255];
    match g.weighted(&[3, 2, 2, 2, 2, 2]) {
        0 => (format!("{q}#{}{q}", up(format!("{r:02x}{gr:02x}{b:02x}"))), opaque),
        1 => (format!("{q}#{}{q}", up(format!("{r:02x}{gr:02x}{b:02x}{a:02x}"))), c),
        2 => (format!("{q}#{}{q}", up(format!("{:x}{:x}{:x}", r % 16, gr % 16, b % 16))), [r % 16 * 17, gr % 16 * 17, b % 16 * 17, 255]),
        3 => (format!("{q}#{}{q}", up(format!("{:x}{:x}{:x}{:x}", r % 16, gr % 16, b % 16, a % 16))), c.map(|x| x % 16 * 17)),
        4 => (g.pick(&[format!("rgb({r}, {gr}, {b})"), format!("rgb({r},{gr},{b})"), format!("rgb( {r},  {gr}, {b} )")]).clone(), opaque),
        _ => (g.pick(&[format!("rgb({r}, {gr}, {b}, {a})"), format!("rgb({r},{gr},{b},{a})")]).clone(), c),
    }
}

fn not_color(g: &G) -> String {
    g.pick::<&str>(&["\"#12\"", "\"#12345\"", "\"#1234567\"", "\"#123456789\"", "\"#ggg\"", "\"123456\"", "rgb(256, 0, 0)", "rgb(1, 2, 300)", "rgb(1, 2)", "rgb(world, 2, 3)", "\"# 123\"", "\"#abc \"", "\"x#abc\""]).to_string()
}

fn generate<'a>(g: &'a G, names: &[&str]) -> (Vec<File>, Gen<'a>) {
    let mut s = Gen { g, at: 0, f: File::default(), types: BTreeMap::new(), macros: vec![], n: 0, files: names.iter().map(|s| s.to_string()).collect() };
    let mut files = vec![];
    for i in 0..names.len() {
        s.at = i;
        for _ in 0..1 + g.usize(6) {
            s.item();
        }
        // (so that no file goes on with the block another ended in)
        let n = s.name();
        let l = s.put(0, &format!("/var/{} = 1", n));
        s.ty("").vars.push(Var { name: n.clone(), decl: true, constant: false, at: (i, l) });
        s.f.syms.push(Sym { name: n, detail: None, kind: FIELD, first: l, last: l, inner: vec![], exact: true });
        files.push(std::mem::take(&mut s.f));
    }
    (files, s)
}

/// Macros aside: those after a block count as its own.
fn split(syms: &[Value], macros: &mut Vec<(String, u64)>) -> Vec<Value> {
    let mut out = vec![];
    for s in syms {
        if s["kind"] == json!(CONSTANT) {
            macros.push((s["name"].as_str().unwrap_or("").into(), s["selectionRange"]["start"]["line"].as_u64().unwrap_or(0)));
            continue;
        }
        let mut s = s.clone();
        let inner = split(s["children"].as_array().map_or(&[][..], |a| a), macros);
        s["children"] = inner.into();
        out.push(s);
    }
    out
}

fn point(v: &Value) -> (u64, u64) {
    (v["line"].as_u64().unwrap_or(u64::MAX), v["character"].as_u64().unwrap_or(u64::MAX))
}

fn same(got: &[Value], want: &[Sym], under: &str, text: &str) -> R {
    let names = |v: &[Value]| v.iter().map(|s| s["name"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>();
    ensure_eq!(names(got), want.iter().map(|s| s.name.clone()).collect::<Vec<_>>(), "symbols", "in {:?} of\n{}", under, text);
    for (v, s) in got.iter().zip(want) {
        ensure_eq!(v["kind"].as_i64(), Some(s.kind), "symbol-kind", "{} in {}", s.name, text);
        ensure_eq!(v["detail"].as_str().map(|s| s.to_string()), s.detail, "symbol-detail", "{} in {}", s.name, text);
        let (start, end) = (point(&v["range"]["start"]), point(&v["range"]["end"]));
        let (a, b) = (point(&v["selectionRange"]["start"]), point(&v["selectionRange"]["end"]));
        ensure!(start <= a && a <= b && b <= end, "symbol-range", "{}: {}\n{}", s.name, v, text);
        let top = if s.exact { s.first } else { s.inner.first().map_or(s.first + 1, |i| i.first) };
        ensure!((s.first as u64..=top as u64).contains(&a.0) && end.0 >= s.last as u64, "symbol-lines", "{} is on lines {} to {} at least: {}\n{}", s.name, s.first, s.last, v, text);
        same(v["children"].as_array().map_or(&[][..], |a| a), &s.inner, &s.name, text)?;
    }
    Ok(())
}

fn document(g: &G, c: &mut Client, uri: &str, f: &File, text: &str, root: &str) -> R {
    let doc = json!({"textDocument": {"uri": uri}});
    let got = c.ask("textDocument/documentSymbol", doc.clone())?;
    let mut macros = vec![];
    let got = split(got.as_array().map_or(&[][..], |a| a), &mut macros);
    let want: Vec<Sym> = f.syms.iter().filter(|s| s.kind != CONSTANT).cloned().collect();
    same(&got, &want, "", text)?;
    let mut want: Vec<(String, u64)> = f.syms.iter().filter(|s| s.kind == CONSTANT).map(|s| (s.name.clone(), s.first as u64)).collect();
    want.sort();
    macros.sort();
    g.label_if(!want.is_empty(), "macros");
    ensure_eq!(macros, want, "macro-symbols", "{}", text);

    // regions
    let got = c.ask("textDocument/foldingRange", doc.clone())?;
    let mut got: Vec<(u64, u64, String)> = got.as_array().into_iter().flatten().map(|r| (r["startLine"].as_u64().unwrap_or(99999), r["endLine"].as_u64().unwrap_or(99999), r["kind"].as_str().unwrap_or("").to_string())).collect();
    let mut want: Vec<(u64, u64, String)> = f.regions.iter().map(|r| (r.0 as u64, r.1 as u64, "region".into())).collect();
    got.sort();
    want.sort();
    g.label_if(!want.is_empty(), "regions");
    ensure_eq!(got, want, "regions", "{}", text);

    // colours
    let got = c.ask("textDocument/documentColor", doc.clone())?;
    let mut got: Vec<(Value, [i64; 4])> = got.as_array().into_iter().flatten().map(|v| (v["range"].clone(), ["red", "green", "blue", "alpha"].map(|k| (v["color"][k].as_f64().unwrap_or(-1.0) * 255.0).round() as i64))).collect();
    let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|x| x.0 + 1)).collect();
    let range = |l: u32, a: usize, b: usize| {
        let s = starts[l as usize];
        json!({"start": pos(position(text, s + a)), "end": pos(position(text, s + b))})
    };
    let mut want: Vec<(Value, [i64; 4])> = f.colors.iter().map(|(l, a, b, c, _)| (range(*l, *a, *b), c.map(|x| x as i64))).collect();
    got.sort_by_key(|x| x.0.to_string());
    want.sort_by_key(|x| x.0.to_string());
    ensure_eq!(got, want, "colours", "{}", text);
    g.label_if(!want.is_empty(), "colours");
    for (l, a, b, old, was) in f.colors.iter().take(4) {
        let new = match g.below(4) {
            0 => *old,
            1 => [g.below(16) as u8 * 17, g.below(16) as u8 * 17, g.below(16) as u8 * 17, *g.pick(&[0, 1, 34, 204, 254, 255])],
            _ => color(g).1,
        };
        let p = json!({"textDocument": {"uri": uri}, "color": {"red": new[0] as f64 / 255.0, "green": new[1] as f64 / 255.0, "blue": new[2] as f64 / 255.0, "alpha": new[3] as f64 / 255.0}, "range": range(*l, *a, *b)});
        let v = c.ask("textDocument/colorPresentation", p)?;
        let label = v[0]["label"].as_str().unwrap_or("").to_string();
        ensure_eq!(v.as_array().map(|a| a.len()), Some(1), "presentations", "{}", v);
        // how it was written before is how it is written now
        let (rgb, q) = (was.starts_with("rgb"), &was[..1]);
        let alpha = if rgb { was.matches(',').count() == 3 } else { was.len() == 7 || was.len() == 11 } || new[3] != 255;
        let short = !rgb && was.len() <= 7 && new.iter().all(|x| x % 17 == 0);
        let [r, gr, bl, al] = new;
        let mut want = match (rgb, short) {
            (true, _) => format!("rgb({r}, {gr}, {bl}"),
            (_, true) => format!("{q}#{:x}{:x}{:x}", r / 17, gr / 17, bl / 17),
            _ => format!("{q}#{r:02x}{gr:02x}{bl:02x}"),
        };
        if alpha {
            want += &match (rgb, short) {
                (true, _) => format!(", {al}"),
                (_, true) => format!("{:x}", al / 17),
                _ => format!("{al:02x}"),
            };
        }
        want += if rgb { ")" } else { q };
        ensure_eq!(label, want, "presentation", "{:?} instead of {}", new, was);
    }

    // links
    let got = c.ask("textDocument/documentLink", doc)?;
    let mut got: Vec<(u64, u64, String)> = got.as_array().into_iter().flatten().map(|v| (v["range"]["start"]["line"].as_u64().unwrap_or(0), v["range"]["start"]["character"].as_u64().unwrap_or(0), v["target"].as_str().unwrap_or("").to_string())).collect();
    // (colours in single quotes are files just as well)
    got.retain(|l| !l.2.contains("/%23"));
    let mut want: Vec<(u64, u64, String)> = f.links.iter().map(|(l, a, file)| (*l as u64, *a as u64, format!("{}/{}", root, file.replace(' ', "%20")))).collect();
    got.sort();
    want.sort();
    g.label_if(!want.is_empty(), "links");
    ensure_eq!(got, want, "links", "{}", text);
    Ok(())
}

fn text_of(f: &File, crlf: bool) -> String {
    f.lines.iter().map(|l| format!("{}{}", l, if crlf { "\r\n" } else { "\n" })).collect()
}

pub fn documents(g: &G) -> R {
    let dir = g.scratch();
    let workspace = g.chance(1, 2);
    let names: &[&str] = if workspace { &["a.dm", "b.dm"] } else { &["a.dm"] };
    let (files, _s) = generate(g, names);
    let crlf = g.chance(1, 6);
    let base = uri(&dir);
    let texts: Vec<String> = files.iter().map(|f| text_of(f, crlf)).collect();
    for (t, n) in texts.iter().zip(names) {
        g.note(&format!("-------- {}\n{}", n, t));
    }
    g.nontrivial(files.iter().map(|f| f.syms.len()).sum::<usize>() >= 4);
    let mut c;
    if workspace {
        let mut dme = String::new();
        for (t, n) in texts.iter().zip(names) {
            std::fs::write(dir.join(n), t).unwrap();
            dme += &format!("#include \"{}\"\n", n);
        }
        std::fs::write(dir.join("game.dme"), dme).unwrap();
        c = Client::start(if g.bool() { &dir } else { std::path::Path::new("/") }, Some(&base), json!({}))?;
        c.settle()?;
        for i in (0..names.len()).rev() {
            let u = format!("{}/{}", base, names[i]);
            if g.bool() {
                c.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "dm", "version": 1, "text": texts[i]}}))?;
            }
            document(g, &mut c, &u, &files[i], &texts[i], &base)?;
        }
        let v = c.ask("textDocument/documentLink", json!({"textDocument": {"uri": format!("{}/game.dme", base)}}))?;
        let got: BTreeSet<String> = v.as_array().into_iter().flatten().map(|v| v["target"].as_str().unwrap_or("").to_string()).collect();
        let want: BTreeSet<String> = names.iter().map(|n| format!("{}/{}", base, n)).collect();
        ensure_eq!(got, want, "include-links", "{}", v);
    } else {
        c = Client::start(&dir, None, json!({}))?;
        let u = format!("{}/a.dm", base);
        c.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "dm", "version": 1, "text": texts[0]}}))?;
        document(g, &mut c, &u, &files[0], &texts[0], &base)?;
    }
    c.quit()
}

fn simple(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).filter(|c| c.is_alphanumeric()).collect()
}

fn query(g: &G, names: &[String]) -> String {
    let n = g.pick(names);
    let mut q: String = n.chars().take(1 + g.usize(n.len())).collect();
    q = q.chars().map(|c| if g.chance(1, 4) { if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).filter(|&c| c != '_' || g.bool()).collect();
    if g.chance(1, 5) {
        q.insert(g.usize(q.len() + 1), '_');
    }
    q
}

pub fn symbols(g: &G) -> R {
    let dir = g.scratch();
    let names = [["a.dm", "a#1.dm", "a%20b.dm"][if g.bool() { 0 } else { g.usize(3) }], "sub/b.dm", "c é.dm"];
    let names = &names[..1 + g.usize(3)];
    let (files, s) = generate(g, names);
    let base = uri(&dir);
    std::fs::create_dir(dir.join("sub")).unwrap();
    let mut dme = String::new();
    for (f, n) in files.iter().zip(names) {
        let t = text_of(f, false);
        g.note(&format!("-------- {}\n{}", n, t));
        std::fs::write(dir.join(n), t).unwrap();
        dme += &format!("#include \"{}\"\n", n);
    }
    std::fs::write(dir.join("game.dme"), dme).unwrap();
    let mut c = Client::start(&dir, Some(&base), json!({}))?;
    c.settle()?;
    let place = |at: (usize, u32)| (uri(&dir.join(&s.files[at.0])), at.1 as u64);
    type Found = (String, i64, Option<String>, Option<(String, u64)>);
    let mut defs: Vec<Found> = vec![];
    let mut tys: Vec<(Found, String)> = vec![];
    let (mut vars, mut procs): (Vec<Found>, Vec<Found>) = (vec![], vec![]);
    for (n, at) in &s.macros {
        defs.push((n.clone(), CONSTANT, None, Some(place(*at))));
    }
    const BUILTIN: &[&str] = &["/obj", "/mob", "/datum", "/turf", ""];
    for (path, t) in &s.types {
        let name = path.rsplit('/').next().unwrap().to_string();
        if !BUILTIN.contains(&path.as_str()) {
            tys.push(((name.clone(), CLASS, Some(path[..path.len() - name.len() - 1].to_string()), None), path.clone()));
        }
        for v in t.vars.iter().filter(|v| v.decl) {
            vars.push((v.name.clone(), FIELD, Some(path.clone()), Some(place(v.at))));
        }
        for p in t.procs.iter().filter(|p| p.decl) {
            let kind = if path.is_empty() {
                FUNCTION
            } else if p.name == "Initialize" {
                CONSTRUCTOR
            } else {
                METHOD
            };
            procs.push((p.name.clone(), kind, Some(path.clone()), Some(place(p.at))));
        }
    }
    let mut all: Vec<String> = vec![];
    all.extend(defs.iter().chain(&vars).chain(&procs).map(|f| f.0.clone()));
    all.extend(tys.iter().map(|t| t.0.0.clone()));
    g.nontrivial(all.len() >= 6);
    let mut hits = 0;
    for _ in 0..12 {
        let q = query(g, &all);
        let (ask, kind) = match g.below(6) {
            0 => (format!("#{}", q), 'd'),
            1 => (format!("var/{}", q), 'v'),
            2 => (format!("proc/{}", q), 'p'),
            3 if !tys.is_empty() => {
                let p = &g.pick(&tys).1;
                let cut = g.usize(p.rfind('/').unwrap() + 1);
                let end = p[cut..].find('/').unwrap() + cut + 1;
                let end = end + g.usize(p.len() - end + 1);
                let t = &p[cut..end];
                (if g.chance(1, 3) { t.to_uppercase() } else { t.to_string() }, 't')
            },
            _ => (q.clone(), '*'),
        };
        if !ask.chars().any(|c| c.is_alphanumeric()) || (kind != 't' && simple(&q).is_empty()) {
            continue;
        }
        // (a query for types by the names of sections would be another)
        if kind == 't' && (ask.starts_with("var/") || ask.starts_with("proc/") || ask.starts_with('#')) {
            continue;
        }
        let begins = |n: &str| simple(n).starts_with(&simple(&q));
        let mut want: Vec<Found> = vec![];
        if "d*".contains(kind) {
            want.extend(defs.iter().filter(|f| begins(&f.0)).cloned());
        }
        if kind == 't' {
            want.extend(tys.iter().filter(|t| t.1.to_lowercase().contains(&ask.to_lowercase())).map(|t| t.0.clone()));
        }
        if kind == '*' {
            want.extend(tys.iter().filter(|t| begins(&t.0.0)).map(|t| t.0.clone()));
        }
        if "v*".contains(kind) {
            want.extend(vars.iter().filter(|f| begins(&f.0)).cloned());
        }
        if "p*".contains(kind) {
            want.extend(procs.iter().filter(|f| begins(&f.0)).cloned());
        }
        let v = c.ask("workspace/symbol", json!({"query": ask}))?;
        let mut got: Vec<Found> = vec![];
        for v in v.as_array().into_iter().flatten() {
            let kind = v["kind"].as_i64().unwrap_or(0);
            let name = v["name"].as_str().unwrap_or("").to_string();
            let holder = v["containerName"].as_str().map(|s| s.to_string());
            let at = v["location"]["uri"].as_str().unwrap_or("").to_string();
            if at.starts_with("dm:") || (kind == CLASS && holder.as_deref() == Some("") && BUILTIN.contains(&format!("/{}", name).as_str())) {
                continue;
            }
            if kind == CLASS {
                ensure!(names.iter().any(|n| at == uri(&dir.join(n))), "type-file", "{}", v);
            }
            got.push((name, kind, holder, if kind == CLASS { None } else { Some((at, v["location"]["range"]["start"]["line"].as_u64().unwrap_or(99999))) }));
        }
        got.sort();
        want.sort();
        hits += want.len();
        ensure_eq!(got, want, "workspace-symbols", "for {:?}", ask);
    }
    g.label_if(hits > 10, "many hits");

    // the object tree
    for (path, t) in &s.types {
        let v = c.ask("experimental/dreammaker/objectTree2", json!({"path": path}))?;
        let here = |x: &Value| x["location"]["uri"].as_str().is_some_and(|u| u.starts_with("file:"));
        let at = |x: &Value| (x["location"]["uri"].as_str().unwrap_or("").to_string(), x["location"]["range"]["start"]["line"].as_u64().unwrap_or(99999));
        let mut got: Vec<_> = v["vars"].as_array().into_iter().flatten().filter(|x| here(x)).map(|x| (x["name"].as_str().unwrap_or("").to_string(), x["kind"].as_i64().unwrap_or(0), x["is_declaration"].as_bool(), at(x))).collect();
        let mut want: Vec<_> = t.vars.iter().map(|v| (v.name.clone(), if v.constant { CONSTANT } else { FIELD }, Some(v.decl), place(v.at))).collect();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "tree-vars", "of {:?}", path);
        let mut got: Vec<_> = v["procs"].as_array().into_iter().flatten().filter(|x| here(x)).map(|x| (x["name"].as_str().unwrap_or("").to_string(), x["kind"].as_i64().unwrap_or(0), at(x))).collect();
        let mut want: Vec<_> = t
            .procs
            .iter()
            .map(|p| {
                let kind = if path.is_empty() {
                    FUNCTION
                } else if p.name == "New" || p.name == "Initialize" {
                    CONSTRUCTOR
                } else {
                    METHOD
                };
                (p.name.clone(), kind, place(p.at))
            })
            .collect();
        got.sort();
        want.sort();
        ensure_eq!(got, want, "tree-procs", "of {:?}", path);
        // declarations are said to be verbs or not, once
        for p in t.procs.iter().filter(|p| p.decl) {
            let said: Vec<bool> = v["procs"].as_array().into_iter().flatten().filter(|x| x["name"] == json!(p.name)).filter_map(|x| x["is_verb"].as_bool()).collect();
            ensure_eq!(said, vec![p.verb], "tree-verb", "{} of {:?}", p.name, path);
        }
        let got: BTreeSet<String> = v["children"].as_array().into_iter().flatten().map(|x| x["name"].as_str().unwrap_or("").to_string()).collect();
        let below: BTreeSet<String> = s.types.keys().filter(|k| !k.is_empty() && k[..k.rfind('/').unwrap()] == **path).map(|k| k.rsplit('/').next().unwrap().to_string()).collect();
        if BUILTIN.contains(&path.as_str()) {
            ensure!(below.is_subset(&got), "tree-children", "of {:?}: {:?}, not all of {:?}", path, got, below);
        } else {
            ensure_eq!(got, below, "tree-children", "of {:?}", path);
            ensure_eq!(v["n_vars"].as_u64(), Some(t.vars.len() as u64), "tree-counts", "{}", path);
            ensure_eq!(v["n_children"].as_u64(), Some(below.len() as u64), "tree-counts", "{}", path);
        }
    }
    let v = c.request("experimental/dreammaker/objectTree2", json!({"path": "/obj/no/such"}))?;
    if v.get("error").is_none() {
        return fail("tree-unknown", v.to_string());
    }
    c.quit()
}

