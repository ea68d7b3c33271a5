//! Declarations: a model of declaration facts, documents that nest them in any way, and dumps of the object tree.
use crate::model::*;
use crate::stmts::*;
use dm::objtree::*;
use engine::*;

pub type Path = Vec<String>;

#[derive(Clone, Debug)]
pub struct Param {
    pub path: Vec<String>,
    pub name: String,
    pub suffix: bool,
    pub default: Option<E>,
    pub ty: Vec<&'static str>,
    pub in_list: Option<E>,
}

#[derive(Clone, Debug)]
pub struct ProcF {
    /// proc/verb word and whether `final`; none for an override
    pub decl: Option<(&'static str, bool)>,
    pub name: String,
    pub params: Vec<Param>,
    pub ret: Option<String>,
    pub body: Blk,
}

#[derive(Clone, Debug)]
pub enum F {
    Type,
    Var(VarS, Vec<&'static str>),
    Over(String, E),
    Proc(ProcF),
}

#[derive(Clone, Debug)]
pub struct Fact {
    pub ty: Path,
    pub f: F,
}

/// A document node.
#[derive(Clone, Debug)]
pub enum N {
    /// words opening a block: type path pieces, `var`, `var/static`, `proc`, ...
    Block { abs: bool, words: Vec<String>, body: Vec<N> },
    Leaf { abs: bool, words: Vec<String>, f: F },
}

fn flag_word(g: &G, f: &str) -> String {
    if f == "static" && g.bool() {
        "global".into()
    } else {
        f.into()
    }
}

/// Nest the facts (their order kept) in any way. `cur` is the type the block is in.
pub fn nest(g: &G, facts: &[Fact], cur: &Path) -> Vec<N> {
    let mut out = vec![];
    let mut i = 0;
    while i < facts.len() {
        let f = &facts[i];
        let rel: Path = f.ty[cur.len()..].to_vec();
        let abs = cur.is_empty() && !(rel.is_empty() && matches!(f.f, F::Type)) && g.chance(2, 3);
        let choice = g.usize(3);
        // a block on part of the path
        if !rel.is_empty() && choice == 0 {
            let k = 1 + g.usize(rel.len());
            let inner: Path = f.ty[..cur.len() + k].to_vec();
            let mut j = i + 1;
            while j < facts.len() && facts[j].ty.len() >= inner.len() && facts[j].ty[..inner.len()] == inner[..] && g.chance(5, 6) {
                j += 1;
            }
            let whole_self = matches!(f.f, F::Type) && k == rel.len();
            let body = nest(g, if whole_self { &facts[i + 1..j] } else { &facts[i..j] }, &inner);
            out.push(N::Block { abs, words: rel[..k].to_vec(), body });
            i = j;
            continue;
        }
        // a `var` or `proc` block
        if choice == 1 {
            match &f.f {
                F::Var(..) => {
                    let mut j = i + 1;
                    while j < facts.len() && facts[j].ty == f.ty && matches!(facts[j].f, F::Var(..)) && g.chance(4, 5) {
                        j += 1;
                    }
                    let mut words = rel.clone();
                    words.push("var".into());
                    // flags and type pieces shared by all of them may go in the header or in blocks inside
                    let vs: Vec<(VarS, Vec<&'static str>)> = facts[i..j]
                        .iter()
                        .map(|f| match &f.f {
                            F::Var(v, t) => (v.clone(), t.clone()),
                            _ => unreachable!(),
                        })
                        .collect();
                    let mut body = var_block(g, vs);
                    if body.len() == 1 && g.bool() {
                        if let N::Block { words: w, body: b, .. } = body[0].clone() {
                            words.extend(w);
                            body = b;
                        }
                    }
                    out.push(N::Block { abs, words, body });
                    i = j;
                    continue;
                },
                F::Proc(p) if p.decl.is_some() => {
                    let d = p.decl;
                    let mut j = i + 1;
                    while j < facts.len() && facts[j].ty == f.ty && matches!(&facts[j].f, F::Proc(q) if q.decl == d) && g.chance(4, 5) {
                        j += 1;
                    }
                    let (kind, fin) = d.unwrap();
                    let mut words = rel.clone();
                    words.push(kind.into());
                    let mut inner = false;
                    if fin {
                        if g.bool() {
                            words.push("final".into());
                        } else {
                            inner = true;
                        }
                    }
                    let body = facts[i..j]
                        .iter()
                        .map(|f| {
                            let F::Proc(p) = &f.f else { unreachable!() };
                            let mut w = vec![];
                            if inner {
                                w.push("final".to_string());
                            }
                            w.push(p.name.clone());
                            N::Leaf { abs: false, words: w, f: f.f.clone() }
                        })
                        .collect();
                    out.push(N::Block { abs, words, body });
                    i = j;
                    continue;
                },
                _ => {},
            }
        }
        let mut words = rel;
        match &f.f {
            F::Type => {
                if words.is_empty() {
                    // the enclosing block already declares it
                    i += 1;
                    continue;
                }
            },
            F::Var(v, _) => {
                words.push("var".into());
                var_words(g, v, &mut words);
            },
            F::Over(n, _) => words.push(n.clone()),
            F::Proc(p) => {
                if let Some((k, fin)) = p.decl {
                    words.push(k.into());
                    if fin {
                        words.push("final".into());
                    }
                }
                words.push(p.name.clone());
            },
        }
        out.push(N::Leaf { abs, words, f: f.f.clone() });
        i += 1;
    }
    out
}

fn var_words(g: &G, v: &VarS, words: &mut Vec<String>) {
    let mut v2: Vec<String> = v.flags.iter().map(|f| flag_word(g, f)).collect();
    v2.extend(v.path.iter().cloned());
    // flags may be written anywhere before the name
    if !v.path.is_empty() && !v.flags.is_empty() && g.chance(1, 4) {
        let f = v2.remove(0);
        v2.insert(1 + g.usize(v2.len()), f);
    }
    words.extend(v2);
    words.push(v.name.clone());
}

fn var_block(g: &G, vs: Vec<(VarS, Vec<&'static str>)>) -> Vec<N> {
    let mut out = vec![];
    let mut i = 0;
    while i < vs.len() {
        let (v, t) = &vs[i];
        // open a block on the first flag or type piece
        if g.chance(1, 3) && (!v.flags.is_empty() || !v.path.is_empty()) {
            let by_flag = !v.flags.is_empty();
            let head = |v: &VarS| -> Option<String> {
                if by_flag {
                    v.flags.first().map(|x| x.to_string())
                } else if v.flags.is_empty() {
                    v.path.first().cloned()
                } else {
                    None
                }
            };
            let h = head(v).unwrap();
            let mut j = i + 1;
            while j < vs.len() && head(&vs[j].0).as_ref() == Some(&h) && g.chance(4, 5) {
                j += 1;
            }
            let inner = vs[i..j]
                .iter()
                .map(|(v, t)| {
                    let mut v = v.clone();
                    if by_flag {
                        v.flags.remove(0);
                    } else {
                        v.path.remove(0);
                    }
                    (v, t.clone())
                })
                .collect();
            out.push(N::Block { abs: false, words: vec![if by_flag { flag_word(g, &h) } else { h }], body: var_block(g, inner) });
            i = j;
            continue;
        }
        let mut words = vec![];
        var_words(g, v, &mut words);
        out.push(N::Leaf { abs: false, words, f: F::Var(v.clone(), t.clone()) });
        i += 1;
    }
    out
}

impl<'a> W<'a> {
    pub fn nodes(&mut self, ns: &[N], ctx: Ctx) {
        for (i, n) in ns.iter().enumerate() {
            match ctx {
                Ctx::Line(0) => {
                    if i > 0 || !self.text.is_empty() {
                        self.newline(0);
                    }
                },
                Ctx::Line(d) => self.newline(d),
                Ctx::One => self.put(" "),
            }
            self.node(n, ctx);
            match ctx {
                Ctx::One => self.put(";"),
                Ctx::Line(_) => {
                    if self.noise && self.g.chance(1, 10) {
                        self.put(";");
                    }
                },
            }
        }
    }
    fn nblock(&mut self, b: &[N], ctx: Ctx) {
        if b.is_empty() {
            match ctx {
                Ctx::One => self.put("{}"),
                Ctx::Line(_) => {
                    if self.style != Style::Indent && self.g.bool() {
                        self.put(" {}");
                    }
                },
            }
            return;
        }
        match (self.choose(ctx), ctx) {
            (Style::BraceOne, _) => {
                self.put(if self.g.bool() { " {" } else { "{" });
                self.nodes(b, Ctx::One);
                self.put("}");
            },
            (Style::BraceMulti, Ctx::Line(d)) => {
                self.lbrace(d);
                self.nodes(b, Ctx::Line(d + 1));
                self.newline(d);
                self.put("}");
            },
            (_, Ctx::Line(d)) => self.nodes(b, Ctx::Line(d + 1)),
            _ => unreachable!(),
        }
    }
    fn node(&mut self, n: &N, ctx: Ctx) {
        match n {
            N::Block { abs, words, body } => {
                if *abs {
                    self.put("/");
                }
                self.put(&words.join("/"));
                self.nblock(body, ctx);
            },
            N::Leaf { abs, words, f } => {
                if *abs {
                    self.put("/");
                }
                self.put(&words.join("/"));
                match f {
                    F::Type => {},
                    F::Var(v, t) => {
                        for s in &v.suffix {
                            self.put("[");
                            if let Some(e) = s {
                                self.e(e, IN);
                            }
                            self.put("]");
                        }
                        if let Some(e) = &v.value {
                            self.put(if self.g.bool() { " = " } else { "= " });
                            self.e(e, ASSIGN);
                        }
                        if !t.is_empty() {
                            self.put(&format!(" as {}", t.join("|")));
                        }
                    },
                    F::Over(_, e) => {
                        self.put(if self.g.bool() { " = " } else { "= " });
                        self.e(e, ASSIGN);
                    },
                    F::Proc(p) => {
                        self.params(&p.params);
                        if let Some(r) = &p.ret {
                            self.put(&format!(" as {}", r));
                        }
                        let inline = p.ret.is_none() && !blk_sx(&p.body).contains("as:");
                        self.block(&p.body, ctx, inline);
                    },
                }
            },
        }
    }
    fn params(&mut self, ps: &[Param]) {
        self.put("(");
        for (i, p) in ps.iter().enumerate() {
            if i > 0 {
                self.put(if self.g.bool() { ", " } else { "," });
                if self.noise && self.g.chance(1, 12) {
                    self.put("\n\t");
                }
            }
            for w in &p.path {
                self.put(&format!("{}/", w));
            }
            self.put(&p.name);
            if p.suffix {
                self.put("[]");
            }
            if let Some(e) = &p.default {
                self.put(" = ");
                self.e(e, ASSIGN);
            }
            if !p.ty.is_empty() {
                self.put(&format!(" as {}", p.ty.join("|")));
            }
            if let Some(e) = &p.in_list {
                self.put(" in ");
                self.e(e, ASSIGN);
            }
        }
        self.put(")");
    }
}

// ---- generation

pub const ROOTS: &[&str] = &["obj", "mob", "turf", "datum", "area", "foo", "bar"];
pub const WORDS: &[&str] = &["item", "weapon", "gun", "box", "x1", "foo", "Big_one", "gunner"];

pub fn gen_path(g: &G) -> Path {
    let mut p = vec![g.pick(ROOTS).to_string()];
    for _ in 0..g.weighted(&[3, 4, 2, 1]) {
        p.push(g.pick(WORDS).to_string());
    }
    p
}

pub fn gen_params(g: &G, names: &Names) -> Vec<Param> {
    (0..g.weighted(&[4, 3, 2, 1]))
        .map(|i| {
            if i > 0 && g.chance(1, 12) {
                return Param { path: vec![], name: "...".into(), suffix: false, default: None, ty: vec![], in_list: None };
            }
            let mut p = Param {
                path: (0..g.weighted(&[4, 2, 1])).map(|_| g.pick(&["obj", "mob", "item", "list"]).to_string()).collect(),
                name: names.fresh(),
                suffix: g.chance(1, 8),
                default: if g.chance(1, 4) { Some(gen(g, names, 1)) } else { None },
                ty: if g.chance(1, 5) { input_types(g) } else { vec![] },
                in_list: if g.chance(1, 6) { Some(gen(g, names, 1)) } else { None },
            };
            // without an `as` in between, `in` would belong to the default
            if p.default.is_some() && p.ty.is_empty() {
                p.in_list = None;
            }
            p
        })
        .collect()
}

pub fn gen_fact(g: &G, names: &Names, types: &[Path], bodies: usize) -> Fact {
    let ty = if g.chance(1, 8) { vec![] } else { g.pick(types).clone() };
    let f = match g.weighted(&[2, 4, 3, 4]) {
        0 if !ty.is_empty() => F::Type,
        0 | 1 => {
            let mut v = gen_var(g, names, 1);
            v.flags.retain(|f| *f != "global");
            if g.chance(1, 4) {
                v.flags = vec![*g.pick(&["tmp", "static", "const", "SpacemanDMM_final", "SpacemanDMM_private", "SpacemanDMM_protected"])];
            }
            F::Var(v, if g.chance(1, 8) { input_types(g) } else { vec![] })
        },
        2 => F::Over(g.pick(&["name", "desc", "icon", "my_var"]).to_string(), gen(g, names, 1)),
        _ => {
            let over = !ty.is_empty() && g.chance(1, 3);
            let decl = if over { None } else { Some((*g.pick(&["proc", "proc", "verb"]), g.chance(1, 8))) };
            let ret = if decl.is_some() && g.chance(1, 10) { Some(g.pick(&["num", "text|null", "/datum", "/obj/item", "mob|obj"]).to_string()) } else { None };
            let name = if over { g.pick(&["attack", "New", "Initialize"]).to_string() } else { names.fresh() };
            F::Proc(ProcF { decl, name, params: gen_params(g, names), ret, body: gen_blk(g, names, bodies, 3) })
        },
    };
    Fact { ty, f }
}

pub fn gen_facts(g: &G, names: &Names, bodies: usize) -> Vec<Fact> {
    let mut types: Vec<Path> = vec![];
    for _ in 0..1 + g.len(0, 5) {
        let p = if !types.is_empty() && g.bool() {
            let mut p = g.pick(&types).clone();
            p.push(g.pick(WORDS).to_string());
            p
        } else {
            gen_path(g)
        };
        types.push(p);
    }
    let n = 1 + g.len(0, 12);
    let mut fs: Vec<Fact> = (0..n).map(|_| gen_fact(g, names, &types, bodies)).collect();
    // runs about the same type, so that blocks have something to hold
    if g.chance(2, 3) {
        fs.sort_by(|a, b| a.ty.cmp(&b.ty));
    }
    fs
}

// ---- dumps

fn ret_text(r: &dm::ast::ProcReturnType) -> String {
    match r {
        dm::ast::ProcReturnType::InputType(t) => bits_text(*t),
        dm::ast::ProcReturnType::TypePath(p) => p.iter().map(|x| format!("/{}", x)).collect(),
    }
}

pub fn param_text(p: &dm::ast::Parameter, s: &mut Seen) -> String {
    let d = p.default.as_ref().map_or("-".into(), |e| p_expr(e, s));
    let i = p.in_list.as_ref().map_or("-".into(), |e| p_expr(e, s));
    format!("{} {} = {} as {} in {}", p_var_type(&p.var_type), p.name, d, p.input_type.map_or("-".into(), bits_text), i)
}

/// Everything declared outside the builtins, one line each.
pub fn dump(tree: &ObjectTree) -> Vec<String> {
    let mut out = vec![];
    let mut s = Seen::new();
    for ty in tree.iter_types() {
        let t = ty.get();
        if !ty.is_root() && !t.location.is_builtins() {
            out.push(format!("{} : {}", t.path, ty.parent_type().map_or("-".into(), |p| p.path.clone())));
        }
        for (n, v) in &t.vars {
            if v.value.location.is_builtins() {
                continue;
            }
            let decl = v.declaration.as_ref().map_or("override".into(), |d| p_var_type(&d.var_type));
            let val = v.value.expression.as_ref().map_or("-".into(), |e| p_expr(e, &mut s));
            let cons = v.value.constant.as_ref().map_or("-".into(), |c| c.to_string());
            out.push(format!("{} var {} {} = {} const {}", t.path, n, decl, val, cons));
        }
        for (n, p) in &t.procs {
            if let Some(d) = &p.declaration {
                if !d.location.is_builtins() {
                    out.push(format!("{} decl {} {:?} {:?} ret {}", t.path, n, d.kind, d.flags, ret_text(&d.return_type)));
                }
            }
            for v in &p.value {
                if v.location.is_builtins() {
                    continue;
                }
                let ps: Vec<String> = v.parameters.iter().map(|p| param_text(p, &mut s)).collect();
                let body = v.code.as_ref().map_or("none".into(), |b| p_blk(b, &mut s));
                out.push(format!("{} proc {}({}) {}", t.path, n, ps.join(", "), body));
            }
        }
    }
    out
}
