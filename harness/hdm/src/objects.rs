//! C13 and C14: types, variables and procedures of the object tree.
use crate::model::*;
use crate::stmts::*;
use crate::tree::*;
use dm::ast::{PathOp, ProcDeclKind};
use dm::constants::Constant;
use dm::objtree::*;
use engine::*;
use std::collections::{BTreeMap, BTreeSet};

fn p2s(p: &[String]) -> String {
    p.iter().map(|x| format!("/{}", x)).collect()
}

/// The hierarchy the declarations describe, built-in types included.
pub struct Hier {
    pub paths: BTreeSet<String>,
    pub parent: BTreeMap<String, String>,
}

pub const BUILTIN_PARENT: &[(&str, &str)] = &[("/atom", "/datum"), ("/turf", "/atom"), ("/area", "/atom"), ("/obj", "/atom/movable"), ("/mob", "/atom/movable")];

impl Hier {
    pub fn new() -> Hier {
        let mut h = Hier { paths: BTreeSet::new(), parent: BTreeMap::new() };
        for t in ["/datum", "/atom", "/atom/movable", "/obj", "/mob", "/turf", "/area"] {
            h.paths.insert(t.into());
        }
        h
    }
    pub fn add(&mut self, p: &[String]) {
        for k in 1..=p.len() {
            self.paths.insert(p2s(&p[..k]));
        }
    }
    /// Parent type; the empty string is the root.
    pub fn parent(&self, t: &str) -> Option<String> {
        if t.is_empty() {
            return None;
        }
        if t == "/datum" {
            return Some("".into());
        }
        if let Some((_, p)) = BUILTIN_PARENT.iter().find(|x| x.0 == t) {
            return Some(p.to_string());
        }
        if let Some(p) = self.parent.get(t) {
            return Some(p.clone());
        }
        Some(match t.rfind('/').unwrap() {
            0 => "/datum".into(),
            i => t[..i].into(),
        })
    }
    pub fn chain(&self, t: &str) -> Vec<String> {
        let mut v = vec![t.to_string()];
        while let Some(p) = self.parent(v.last().unwrap()) {
            v.push(p);
            assert!(v.len() < 1000);
        }
        v
    }
    pub fn is_sub(&self, t: &str, of: &str) -> bool {
        self.chain(t).iter().any(|x| x == of)
    }
    pub fn name(t: &str) -> &str {
        t.rsplit('/').next().unwrap()
    }
    pub fn path_parent(t: &str) -> Option<String> {
        if t.is_empty() {
            None
        } else {
            Some(t[..t.rfind('/').unwrap()].into())
        }
    }
    pub fn kids(&self, t: &str) -> Vec<String> {
        self.paths.iter().filter(|p| Self::path_parent(p).as_deref() == Some(t)).cloned().collect()
    }
}

/// Types, and facts giving some of them another parent.
pub fn gen_hier(g: &G, max: usize, reparent: bool) -> (Hier, Vec<Path>, Vec<Fact>) {
    let mut h = Hier::new();
    let mut types: Vec<Path> = vec![];
    for _ in 0..1 + g.len(0, max) {
        let p = if !types.is_empty() && g.chance(2, 3) {
            let mut p = g.pick(&types).clone();
            p.push(g.pick(WORDS).to_string());
            p
        } else {
            gen_path(g)
        };
        if !types.contains(&p) {
            types.push(p);
        }
    }
    let mut facts = vec![];
    for t in &types {
        h.add(t);
    }
    if reparent {
        let all: Vec<String> = h.paths.iter().cloned().collect();
        for t in &all {
            if BUILTIN_PARENT.iter().any(|x| x.0 == t) || t == "/datum" || t == "/atom/movable" || !g.chance(1, 4) {
                continue;
            }
            // one or two settings; the last one counts
            for _ in 0..g.weighted(&[0, 5, 1]) {
                let to = g.pick(&all).clone();
                if h.is_sub(&to, t) {
                    continue;
                }
                let path: Path = t[1..].split('/').map(|x| x.to_string()).collect();
                let e = if g.chance(1, 3) { E::Atom(format!("\"{}\"", to), format!("{:?}", to), true) } else { E::Prefab(to.clone(), to.clone(), vec![]) };
                facts.push(Fact { ty: path, f: F::Over("parent_type".into(), e) });
                h.parent.insert(t.clone(), to);
            }
        }
    }
    (h, types, facts)
}

/// Merge two fact lists at random, each keeping its order.
pub fn weave<T>(g: &G, a: Vec<T>, b: Vec<T>) -> Vec<T> {
    let mut out = vec![];
    let (mut a, mut b) = (a.into_iter().peekable(), b.into_iter().peekable());
    loop {
        match (a.peek().is_some(), b.peek().is_some()) {
            (false, false) => return out,
            (true, false) => out.push(a.next().unwrap()),
            (false, true) => out.push(b.next().unwrap()),
            _ => {
                if g.bool() {
                    out.push(a.next().unwrap())
                } else {
                    out.push(b.next().unwrap())
                }
            },
        }
    }
}

/// A constant literal: expression and what its constant prints as.
fn literal(g: &G) -> (E, String) {
    match g.usize(4) {
        0 => {
            let v = g.range(0, 9999);
            (E::Atom(v.to_string(), v.to_string(), false), v.to_string())
        },
        1 => {
            let s = format!("s{}", g.range(0, 99));
            (E::Atom(format!("\"{}\"", s), format!("{:?}", s), true), format!("\"{}\"", s))
        },
        2 => (E::Atom("null".into(), "null".into(), true), "null".into()),
        _ => (E::Prefab("/obj/item".into(), "/obj/item".into(), vec![]), "/obj/item".into()),
    }
}

pub fn write_doc<'a>(g: &'a G, facts: &[Fact], style: Style) -> String {
    let doc = nest(g, facts, &vec![]);
    let mut w = W::new(g, style, *g.pick(&["\t", "    ", "  "]), g.bool());
    w.nodes(&doc, Ctx::Line(0));
    w.put("\n");
    w.text
}

fn decls(g: &G) -> R {
    let (mut h, types, pfacts) = gen_hier(g, 8, g.bool());
    // make sure every type is mentioned
    let mut facts: Vec<Fact> = types.iter().filter(|_| g.chance(9, 10)).map(|t| Fact { ty: t.clone(), f: F::Type }).collect();
    // variables: expected (flags, type path) declaration and value text per (type, name)
    type Decl = (Vec<String>, Vec<String>);
    let mut vals: BTreeMap<(String, String), Option<(String, String)>> = BTreeMap::new();
    let mut decl: BTreeMap<(String, String), Decl> = BTreeMap::new();
    let vnames = ["v0", "v1", "v2", "v3"];
    let n = g.len(0, 14);
    for _ in 0..n {
        let global = g.chance(1, 10);
        let ty: Path = if global { vec![] } else { g.pick(&types).clone() };
        let name = if global { g.pick(&["g0", "g1"]).to_string() } else { g.pick(&vnames).to_string() };
        let key = (p2s(&ty), name.clone());
        let had = vals.contains_key(&key);
        if global || g.bool() {
            let flags: Vec<&'static str> = if g.chance(1, 5) { vec![*g.pick(&["tmp", "static", "const", "SpacemanDMM_final", "SpacemanDMM_private"])] } else { vec![] };
            let path: Path = (0..g.weighted(&[4, 2, 1, 1, 1])).map(|_| g.pick(&["obj", "item", "list", "datum", "x1"]).to_string()).collect();
            let suffix: Vec<Option<E>> = if g.chance(1, 8) {
                (0..1 + g.usize(3))
                    .map(|_| {
                        let n = g.range(1, 99).to_string();
                        if g.bool() { Some(E::Atom(n.clone(), n, false)) } else { None }
                    })
                    .collect()
            } else {
                vec![]
            };
            // a later declaration without a value would leave open which value counts
            let lit = if had || flags.contains(&"const") || g.chance(2, 3) { Some(literal(g)) } else { None };
            let mut exp_path = path.clone();
            if !suffix.is_empty() {
                exp_path.insert(0, "list".into());
            }
            decl.insert(key.clone(), (flags.iter().map(|x| x.to_string()).collect(), exp_path));
            let sizes: Vec<String> = suffix.iter().flatten().map(sx).collect();
            let mut val = lit.as_ref().map(|l| (sx(&l.0), l.1.clone()));
            if val.is_none() && !sizes.is_empty() {
                val = Some((format!("(new /list {})", sizes.join(" ")), format!("new /list({})", sizes.join(", "))));
            }
            vals.insert(key, val);
            let v = VarS { flags, path, name, suffix, value: lit.map(|l| l.0) };
            facts.push(Fact { ty, f: F::Var(v, if g.chance(1, 8) { input_types(g) } else { vec![] }) });
        } else {
            let (e, t) = literal(g);
            vals.insert(key, Some((sx(&e), t)));
            facts.push(Fact { ty, f: F::Over(name, e) });
        }
    }
    for f in &facts {
        h.add(&f.ty);
    }
    for f in &pfacts {
        h.add(&f.ty);
    }
    // the parent must be declared by something
    let declared: BTreeSet<String> = {
        let mut d = Hier::new();
        facts.iter().chain(&pfacts).for_each(|f| d.add(&f.ty));
        d.paths
    };
    // order: same (type, name) facts keep their order, so a shuffle happens on the whole only when names are unique
    let facts = weave(g, facts, pfacts);
    let mut bad = 0;
    let mut reparented: BTreeMap<String, String> = BTreeMap::new();
    for f in &facts {
        if let F::Over(n, E::Prefab(_, s, _)) | F::Over(n, E::Atom(_, s, _)) = &f.f {
            if n == "parent_type" {
                reparented.insert(p2s(&f.ty), s.trim_matches('"').to_string());
            }
        }
    }
    h.paths = declared.clone();
    for (t, p) in &reparented {
        if declared.contains(p) {
            h.parent.insert(t.clone(), p.clone());
        } else {
            bad += 1;
            h.parent.insert(t.clone(), "".into());
        }
    }
    let text = write_doc(g, &facts, Style::Any);
    g.note(&text);
    g.nontrivial(decl.len() >= 2 && h.paths.len() >= 9);
    g.label_if(!reparented.is_empty(), "parent_type set");
    g.label_if(bad > 0, "unknown parent");
    g.label_if(vals.len() > decl.len(), "overrides");

    // ---- expectations
    let lookup_val = |t: &str, n: &str| h.chain(t).into_iter().find_map(|a| vals.get(&(a, n.to_string())).cloned());
    let lookup_decl = |t: &str, n: &str| h.chain(t).into_iter().find_map(|a| decl.get(&(a, n.to_string())).cloned());
    let mut want_errs: Vec<String> = vec![];
    for (t, p) in &reparented {
        if !declared.contains(p) {
            want_errs.push(format!("bad parent type for {}: {}", t, p));
        }
        // parent_type itself is declared on /datum
        if !h.is_sub(t, "/datum") {
            want_errs.push(format!("undefined var 'parent_type' on type '{}'", t));
        }
    }
    for (t, n) in vals.keys() {
        if lookup_decl(t, n).is_none() {
            want_errs.push(format!("undefined var '{}' on type '{}'", n, t));
        }
    }
    want_errs.sort();
    let (ctx, tree) = parse_program(&text);
    let mut errs: Vec<String> = ctx.errors().iter().map(|e| e.description().to_string()).collect();
    errs.sort();
    ensure_eq!(errs, want_errs, "diagnostics", "diagnostics");

    // types and parents
    let got_types: BTreeSet<String> = tree.iter_types().filter(|t| !t.location.is_builtins() && !t.is_root()).map(|t| t.path.clone()).collect();
    for t in &got_types {
        ensure!(h.paths.contains(t), "extra-type", "type {} was never declared", t);
    }
    for t in h.paths.iter().map(|x| x.as_str()).chain([""]) {
        let Some(r) = tree.find(t) else {
            return fail("missing-type", format!("declared type {} is missing", t));
        };
        ensure_eq!(r.path.as_str(), t, "find", "find({})", t);
        let want = h.parent(t);
        ensure_eq!(r.parent_type().map(|p| p.path.clone()), want, "parent", "parent type of {}", t);
        ensure_eq!(r.parent_path().map(|p| p.path.clone()), Hier::path_parent(t), "path-parent", "path parent of {}", t);
        ensure_eq!(r.name(), Hier::name(t), "name", "name of {}", t);
        if !t.is_empty() && !(t == "/list" || t.starts_with("/list/")) {
            let got = tree.type_by_path(t[1..].split('/'));
            ensure!(got == Some(r), "by-path", "type_by_path({}) gives {:?}", t, got);
            let pieces: Vec<(PathOp, &str)> = t[1..].split('/').map(|x| (PathOp::Slash, x)).collect();
            match tree.root().navigate_path(&pieces) {
                Some(NavigatePathResult::Type(x)) if x == r => {},
                other => return fail("navigate", format!("navigate_path({}) gives {:?}", t, other)),
            }
        }
        let kids: BTreeSet<String> = r.children().map(|c| c.path.clone()).filter(|p| h.paths.contains(p)).collect();
        let want: BTreeSet<String> = h.kids(t).into_iter().collect();
        ensure_eq!(kids, want, "children", "children of {}", t);
        // every variable name
        for n in vnames.iter().chain(&["g0", "g1"]) {
            let want = lookup_val(t, n);
            let got = r.get_value(n);
            match (&want, got) {
                (None, None) => {},
                (Some(w), Some(v)) => {
                    let gv = v.expression.as_ref().map(|e| p_expr(e, &mut Seen::new()));
                    // a list suffix without a size has no value
                    let wv = w.as_ref().map(|w| w.0.clone());
                    ensure_eq!(gv, wv, "value", "value of {}.{}", t, n);
                },
                _ => return fail("value", format!("value of {}.{}: expected {:?}, got {:?}", t, n, want, got.map(|v| v.expression.clone()))),
            }
            let wd = lookup_decl(t, n);
            let gd = r.get_var_declaration(n).map(|d| p_var_type(&d.var_type));
            let wd = wd.map(|(f, p)| format!("var<{}>{}", f.iter().map(|x| x.trim_start_matches("SpacemanDMM_")).map(|x| if x == "private" { "SpacemanDMM_private" } else { x }).collect::<Vec<_>>().join("+"), p2s(&p)));
            ensure_eq!(gd, wd, "declaration", "declaration of {}.{}", t, n);
        }
    }
    // evaluated constants
    for ((t, n), w) in &vals {
        let Some((flags, _)) = lookup_decl(t, n) else { continue };
        let v = tree.find(t).unwrap().get().vars.get(n.as_str()).unwrap();
        let evaluated = if flags.iter().any(|f| f == "const") { true } else { !t.is_empty() && !flags.iter().any(|f| f == "static") };
        if evaluated {
            if let Some(w) = w {
                let c = v.value.constant.as_ref().map(|c: &Constant| c.to_string());
                ensure_eq!(c.as_ref(), Some(&w.1), "constant", "constant of {}.{}", t, n);
            }
        }
    }
    // subtypes
    let all: Vec<&String> = h.paths.iter().collect();
    for a in &all {
        let ra = tree.find(a).unwrap();
        for b in &all {
            let rb = tree.find(b).unwrap();
            ensure_eq!(ra.is_subtype_of(rb.get()), h.is_sub(a, b), "subtype", "{} subtype of {}", a, b);
            let below = a == b || a.starts_with(&format!("{}/", b));
            ensure_eq!(ra.get().is_subpath_of(b), below, "subpath", "{} subpath of {}", a, b);
            ensure_eq!(ra.get().is_subpath_of(&format!("{}/", b)), below, "subpath", "{} subpath of {}/", a, b);
        }
        // recursion over types visits exactly the subtypes, once each
        let mut seen: Vec<String> = vec![];
        ra.recurse_types(&mut |t| seen.push(t.path.clone()));
        seen.retain(|t| h.paths.contains(t));
        seen.sort();
        let mut want: Vec<String> = all.iter().filter(|t| h.is_sub(t, a)).map(|t| t.to_string()).collect();
        want.sort();
        ensure_eq!(seen, want, "recurse-types", "types visited below {}", a);
        let mut seen: Vec<String> = vec![];
        ra.recurse(&mut |t| seen.push(t.path.clone()));
        seen.retain(|t| h.paths.contains(t));
        seen.sort();
        let want: Vec<String> = all.iter().filter(|t| *t == a || t.starts_with(&format!("{}/", a))).map(|t| t.to_string()).collect();
        ensure_eq!(seen, want, "recurse", "paths visited below {}", a);
        let up: Vec<String> = ra.iter_parent_types().map(|t| t.path.clone()).collect();
        ensure_eq!(up, h.chain(a), "parents", "parent types of {}", a);
    }
    // relative navigation
    for _ in 0..4 {
        let from = *g.pick(&all);
        let w = g.pick(WORDS);
        let r = tree.find(from).unwrap();
        let got = r.navigate(PathOp::Slash, w).map(|t| t.path.clone());
        let p = format!("{}/{}", from, w);
        ensure_eq!(got, if h.paths.contains(&p) { Some(p.clone()) } else { None }, "nav-slash", "{} then /{}", from, w);
        // '.' looks upwards along the path
        let mut up = Some(from.to_string());
        let mut want = None;
        while let Some(u) = up {
            let p = format!("{}/{}", u, w);
            if h.paths.contains(&p) {
                want = Some(p);
                break;
            }
            up = Hier::path_parent(&u);
        }
        let got = r.navigate(PathOp::Dot, w).map(|t| t.path.clone());
        ensure_eq!(got, want, "nav-dot", "{} then .{}", from, w);
        // ':' finds some type of that name below, if there is one
        let got = r.navigate(PathOp::Colon, w).map(|t| t.path.clone());
        let below: Vec<&&String> = all.iter().filter(|t| t.starts_with(&format!("{}/", from)) && Hier::name(t) == *w).collect();
        match &got {
            None => ensure!(below.is_empty(), "nav-colon", "{} then :{} finds nothing, though there is {:?}", from, w, below),
            Some(p) => ensure!(below.iter().any(|x| **x == p), "nav-colon", "{} then :{} gives {}", from, w, p),
        }
    }
    Ok(())
}

/// `/client` has no parent until it is given one.
fn client(g: &G) -> R {
    let (mut h, types, pf) = gen_hier(g, 4, g.bool());
    let mut facts: Vec<Fact> = types.iter().map(|t| Fact { ty: t.clone(), f: F::Type }).collect();
    facts = weave(g, facts, pf);
    let all: Vec<String> = h.paths.iter().cloned().collect();
    let me: Path = vec!["client".into()];
    let mut want = Some(String::new());
    let mut bad = false;
    let mut n = 0;
    for i in 0..g.usize(4) {
        let at = g.usize(facts.len() + 1);
        match g.usize(3) {
            0 => facts.insert(at, Fact { ty: me.clone(), f: F::Type }),
            1 => {
                let mut t = me.clone();
                t.push(g.pick(WORDS).to_string());
                h.add(&t);
                facts.insert(at, Fact { ty: t, f: F::Type })
            },
            _ => {
                let to = if i == 0 && g.chance(1, 3) { "/nowhere".to_string() } else { g.pick(&all).clone() };
                let e = if g.chance(1, 3) { E::Atom(format!("\"{}\"", to), format!("{:?}", to), true) } else { E::Prefab(to.clone(), to.clone(), vec![]) };
                facts.push(Fact { ty: me.clone(), f: F::Over("parent_type".into(), e) });
                bad = to == "/nowhere";
                n += 1;
                want = Some(if bad { String::new() } else { to });
            },
        }
    }
    let text = write_doc(g, &facts, Style::Any);
    g.note(&text);
    g.nontrivial(n > 0);
    let (ctx, tree) = parse_program(&text);
    let c = tree.find("/client").unwrap();
    ensure_eq!(c.parent_type().map(|p| p.path.clone()), want, "client parent", "parent of /client in\n{}", text);
    let errs: Vec<String> = ctx.errors().iter().map(|e| e.description().to_string()).filter(|e| e.contains("/client")).collect();
    ensure_eq!(errs, if bad { vec!["bad parent type for /client: /nowhere".to_string()] } else { vec![] }, "client diagnostics", "diagnostics about /client in\n{}", text);
    for p in h.paths.iter().filter(|p| p.starts_with("/client/")) {
        ensure_eq!(tree.find(p).and_then(|t| t.parent_type()).map(|p| p.path.clone()), Hier::path_parent(p), "client parent", "parent of {} in\n{}", p, text);
    }
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "a case counts when at least two variables are declared and at least nine types (built-in ones included) exist",
        assumptions: &[
            "parent overrides form no cycle",
            "when a variable is set or declared again on the same type the last one written counts, and a later declaration on that type always carries a value",
        ],
        subs: vec![Sub { name: "declarations", quick: 50_000, thorough: 2_000_000, run: decls }, Sub { name: "client", quick: 10_000, thorough: 300_000, run: client }],
    }
}

// ---- C14

const OPERATORS: &[&str] = &[
    "operator%", "operator%=", "operator%%", "operator%%=", "operator&", "operator&=", "operator*", "operator**", "operator*=", "operator/", "operator/=", "operator+", "operator++", "operator+=", "operator-", "operator--", "operator-=", "operator<", "operator<<", "operator<<=",
    "operator<=", "operator<=>", "operator>", "operator>=", "operator>>", "operator>>=", "operator^", "operator^=", "operator|", "operator|=", "operator~", "operator~=", "operator:=", "operator[]", "operator[]=", "operator\"\"",
];

fn param_sx(p: &Param) -> String {
    let mut path = p.path.clone();
    if p.suffix {
        path.insert(0, "list".into());
    }
    let e = |e: &Option<E>| e.as_ref().map_or("-".into(), sx);
    format!("var<>{} {} = {} as {} in {}", p2s(&path), p.name, e(&p.default), if p.ty.is_empty() { "-".into() } else { type_bits(&p.ty) }, e(&p.in_list))
}

fn procs(g: &G) -> R {
    let (mut h, types, pfacts) = gen_hier(g, 6, g.chance(1, 3));
    let pnames = ["p0", "p1", "p2", *g.pick(OPERATORS), *g.pick(OPERATORS)];
    let names = Names::new();
    let mut pf: Vec<Fact> = vec![];
    let mut declared: BTreeSet<(String, String)> = BTreeSet::new();
    for _ in 0..1 + g.len(0, 14) {
        let global = g.chance(1, 12);
        let ty: Path = if global { vec![] } else { g.pick(&types).clone() };
        let name = if global { g.pick(&["gp0", "gp1"]).to_string() } else { g.pick(&pnames).to_string() };
        let key = (p2s(&ty), name.clone());
        let can_decl = !declared.contains(&key);
        let decl = if can_decl && (global || g.chance(2, 5)) {
            declared.insert(key);
            Some((*g.pick(&["proc", "proc", "verb"]), g.chance(1, 6)))
        } else if global {
            continue;
        } else {
            None
        };
        let mut params: Vec<Param> = if g.bool() { gen_params(g, &names) } else { (0..g.usize(4))
            .map(|_| Param { path: (0..g.usize(3)).map(|_| g.pick(&["obj", "mob", "item"]).to_string()).collect(), name: names.fresh(), suffix: false, default: None, ty: vec![], in_list: None })
            .collect() };
        if g.chance(1, 10) && !params.iter().any(|p| p.name == "...") {
            params.push(Param { path: vec![], name: "...".into(), suffix: false, default: None, ty: vec![], in_list: None });
        }
        let mut body = vec![];
        for _ in 0..g.weighted(&[4, 1, 1]) {
            body.push(S::Set(g.pick(&["waitfor", "name", "category", "hidden"]).to_string(), false, E::Atom("1".into(), "1".into(), false)));
        }
        if g.chance(4, 5) {
            body.push(S::Return(Some(E::Ident(names.fresh()))));
        }
        let ret = if decl.is_some() && g.chance(1, 8) { Some(g.pick(&["num", "/datum", "/obj/item"]).to_string()) } else { None };
        pf.push(Fact { ty, f: F::Proc(ProcF { decl, name, params, ret, body }) });
    }
    let facts = weave(g, pf, pfacts);
    let mut hh = Hier::new();
    for f in &facts {
        hh.add(&f.ty);
    }
    // parents that are not declared here would be errors (that is C13's matter)
    let extra: Vec<Fact> = h.parent.values().filter(|p| !hh.paths.contains(*p) && !p.is_empty()).map(|p| Fact { ty: p[1..].split('/').map(String::from).collect(), f: F::Type }).collect();
    for f in &extra {
        hh.add(&f.ty);
    }
    h.paths = hh.paths;
    let facts = weave(g, facts, extra);
    let mut last = BTreeMap::new();
    for f in &facts {
        if let F::Over(n, E::Prefab(_, s, _)) | F::Over(n, E::Atom(_, s, _)) = &f.f {
            if n == "parent_type" {
                last.insert(p2s(&f.ty), s.trim_matches('"').to_string());
            }
        }
    }
    h.parent = last;
    let text = write_doc(g, &facts, Style::Any);
    g.note(&text);

    // ---- expectations: definitions per (type, name), the declaration first
    let mut defs: BTreeMap<(String, String), Vec<&ProcF>> = BTreeMap::new();
    let mut hints = 0;
    for f in &facts {
        let F::Proc(p) = &f.f else { continue };
        let v = defs.entry((p2s(&f.ty), p.name.clone())).or_default();
        if p.decl.is_some() && !v.is_empty() {
            hints += 1;
            v.insert(0, p);
        } else {
            v.push(p);
        }
    }
    let longest = defs.values().map(|v| v.len()).max().unwrap_or(0);
    g.nontrivial(defs.len() >= 2 && longest >= 2);
    g.label_if(hints > 0, "override before definition");
    g.label_if(longest >= 3, "three definitions on one type");
    let (ctx, tree) = parse_program(&text);
    let mut errs: Vec<String> = diags(&ctx);
    let n0 = errs.len();
    errs.retain(|e| !e.contains("precedes definition"));
    ensure_eq!(n0 - errs.len(), hints, "hints", "override-precedes-definition hints");
    ensure!(errs.is_empty(), "diagnostics", "well-formed declarations give {:?}", errs);
    let same = |v: &ProcValue, p: &ProcF| -> R {
        let mut s = Seen::new();
        let got: Vec<String> = v.parameters.iter().map(|p| param_text(p, &mut s)).collect();
        let want: Vec<String> = p.params.iter().map(param_sx).collect();
        ensure_eq!(got, want, "parameters", "parameters of {}", p.name);
        let got = v.code.as_ref().map(|b| p_blk(b, &mut s));
        ensure_eq!(got, Some(blk_sx(&p.body)), "body", "body of {}", p.name);
        Ok(())
    };
    // next definition that a call on `t` (or `..()` from above) reaches
    let nearest = |t: &str, n: &str| h.chain(t).into_iter().find(|a| defs.contains_key(&(a.clone(), n.to_string())));
    for t in h.paths.iter().map(|x| x.as_str()).chain([""]) {
        let r = tree.find(t).unwrap();
        let mut own: Vec<(String, usize)> = vec![];
        for p in r.iter_self_procs() {
            if !p.get().location.is_builtins() {
                own.push((p.name().to_string(), p.index()));
                let Some(d) = defs.get(&(t.to_string(), p.name().to_string())) else {
                    return fail("extra", format!("{} has an undeclared procedure {}", t, p.name()));
                };
                ensure!(p.index() < d.len(), "extra", "{} has {} definitions too many of {}", t, p.index() + 1 - d.len(), p.name());
                same(p.get(), d[p.index()])?;
            }
        }
        own.sort();
        let want: Vec<(String, usize)> = defs.iter().filter(|((a, _), _)| a == t).flat_map(|((_, n), v)| (0..v.len()).map(move |i| (n.clone(), i))).collect();
        ensure_eq!(own, want, "own", "procedures of {}", t);
        for n in pnames.iter().chain(&["gp0", "gp1"]) {
            let want = nearest(t, n);
            let got = r.get_proc(n);
            ensure_eq!(got.map(|p| (p.ty().path.clone(), p.index())), want.as_ref().map(|a| (a.clone(), defs[&(a.clone(), n.to_string())].len() - 1)), "lookup", "{}.{}()", t, n);
            // walk the parent calls all the way
            let mut cur = got;
            let mut expect: Vec<(String, usize)> = vec![];
            let mut at = want.clone();
            while let Some(a) = at {
                for i in (0..defs[&(a.clone(), n.to_string())].len()).rev() {
                    expect.push((a.clone(), i));
                }
                at = h.parent(&a).and_then(|p| nearest(&p, n));
            }
            let mut walk = vec![];
            while let Some(p) = cur {
                walk.push((p.ty().path.clone(), p.index()));
                same(p.get(), defs[&(p.ty().path.clone(), n.to_string())][p.index()])?;
                ensure_eq!(p.is_externally_visible(), p.index() + 1 == defs[&(p.ty().path.clone(), n.to_string())].len(), "visible", "{:?} visible", p);
                ensure_eq!(p.is_varargs(), p.get().parameters.iter().any(|x| x.name == "..."), "varargs", "{:?} varargs", p);
                ensure!(walk.len() < 200, "parent-loop", "parent calls never end");
                cur = p.parent_proc();
            }
            ensure_eq!(walk, expect, "parent-calls", "parent calls from {}.{}()", t, n);
            // the declaration
            let wd = h.chain(t).into_iter().find_map(|a| defs.get(&(a, n.to_string())).and_then(|v| v.iter().find_map(|p| p.decl.map(|d| (d, p.ret.clone())))));
            let gd = r.get_proc_declaration(n);
            ensure_eq!(gd.is_some(), wd.is_some(), "declared", "declaration of {}.{}()", t, n);
            if let (Some(gd), Some(((kind, fin), ret))) = (gd, wd) {
                ensure_eq!(gd.kind == ProcDeclKind::Verb, kind == "verb", "kind", "{}.{} a verb", t, n);
                ensure_eq!(gd.flags.is_final(), fin, "final", "{}.{} final", t, n);
                let got = match &gd.return_type {
                    dm::ast::ProcReturnType::InputType(t) => {
                        if t.is_empty() {
                            None
                        } else {
                            Some(bits_text(*t))
                        }
                    },
                    dm::ast::ProcReturnType::TypePath(p) => Some(p.iter().map(|x| format!("/{}", x)).collect()),
                };
                let want = ret.map(|r| if r == "num" { type_bits(&["num"]) } else { r });
                ensure_eq!(got, want, "return-type", "return type of {}.{}", t, n);
            }
            // overriding definitions below
            if let Some(p) = got {
                let mut seen: Vec<String> = vec![];
                p.recurse_children(&mut |c| seen.push(format!("{}#{}", c.ty().path, c.index())));
                seen.sort();
                let base = want.clone().unwrap();
                let mut exp: Vec<String> = defs.iter().filter(|((a, m), _)| m == n && h.is_sub(a, &base)).map(|((a, _), v)| format!("{}#{}", a, v.len() - 1)).collect();
                exp.sort();
                ensure_eq!(seen, exp, "overrides", "overrides of {}.{}", base, n);
                let mut seen: Vec<String> = vec![];
                p.recurse_children_within(r, &mut |c| seen.push(format!("{}#{}", c.ty().path, c.index())));
                seen.sort();
                let mut exp: Vec<String> = defs.iter().filter(|((a, m), _)| m == n && h.is_sub(a, t)).map(|((a, _), v)| format!("{}#{}", a, v.len() - 1)).collect();
                exp.sort();
                ensure_eq!(seen, exp, "overrides-within", "overrides of {} within {}", n, t);
            }
            // path to the procedure
            for (word, kind) in [("proc", ProcDeclKind::Proc), ("verb", ProcDeclKind::Verb)] {
                let mut pieces: Vec<(PathOp, &str)> = t.split('/').skip(1).map(|x| (PathOp::Slash, x)).collect();
                pieces.push((PathOp::Slash, word));
                pieces.push((PathOp::Slash, n));
                match (tree.root().navigate_path(&pieces), got) {
                    (None, None) => {},
                    (Some(NavigatePathResult::ProcPath(a, k)), Some(b)) if a == b && k == kind => {},
                    (a, b) => return fail("proc-path", format!("path {}/{}/{} gives {:?}, lookup {:?}", t, word, n, a, b)),
                }
            }
        }
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "a case counts when at least two procedures are defined and some type defines one of them twice or more",
        assumptions: &["global and type procedures have distinct names", "a procedure is declared with proc/ or verb/ at most once per type", "a declaration written after overrides on the same type counts as the first definition, as the code documents"],
        subs: vec![Sub { name: "overrides", quick: 50_000, thorough: 2_000_000, run: procs }],
    }
}
