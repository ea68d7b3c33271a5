//! Programs of which it is known what every name in them means.
use engine::G;
use std::collections::{BTreeMap, BTreeSet};

/// File and (0-based) line.
pub type Loc = (usize, u32);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Sym {
    Type(usize),
    Var(usize),
    Proc(usize),
}

#[derive(Clone, Debug)]
pub struct Type {
    pub path: String,
    pub parent: Option<usize>,
    pub builtin: bool,
    pub loc: Loc,
    pub doc: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub owner: Option<usize>,
    pub ty: VType,
    /// where it is declared and overridden, by type
    pub at: BTreeMap<Option<usize>, Loc>,
    pub doc: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum VType {
    None,
    Type(usize),
    /// list of
    List(Option<usize>),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub ty: Option<usize>,
    pub params: Vec<(String, VType)>,
    pub loc: Loc,
}

#[derive(Clone, Debug)]
pub struct Proc {
    pub name: String,
    pub owner: Option<usize>,
    pub verb: bool,
    pub defs: Vec<Def>,
    pub doc: Option<String>,
}

impl Proc {
    /// Of several definitions for one type the last is the one described.
    pub fn shown_doc(&self) -> Option<String> {
        self.doc.clone().filter(|_| self.defs.iter().filter(|d| d.ty == self.owner).count() == 1)
    }
}

/// What a name in the text stands for.
#[derive(Clone, Debug)]
pub enum What {
    /// a variable reached from a type (unscoped: the one whose code this is)
    Var(usize, Option<usize>),
    Proc(usize, Option<usize>),
    Type(usize),
    Local { name: String, loc: Loc, ty: VType },
    Macro(usize),
    /// the name in a declaration or override
    VarHead(usize),
    ProcHead(usize),
    TypeHead(usize),
    /// the definition before a procedure's
    Parent(usize, usize),
    /// a procedure's path
    ProcPath(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Mark {
    pub file: usize,
    pub line: u32,
    pub col: u32,
    pub text: String,
    pub what: What,
    /// reached as `a.name`, with what can be completed there
    pub scoped: Option<usize>,
    pub scope: Option<Scope>,
    /// the call it is directly an argument of: procedure, type it is reached from (or whether unscoped), argument number
    pub call: Option<(usize, Option<usize>, usize)>,
    /// part of the heading of a variable or procedure
    pub heading: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub ty: Option<usize>,
    /// (those with a line of `GONE` are of a loop which is over: what their names mean is not looked at)
    pub locals: Vec<(String, VType, Loc)>,
    pub in_proc: bool,
}

pub const GONE: u32 = u32::MAX;

impl Scope {
    fn gone(&self, n: &str) -> bool {
        self.locals.iter().rev().find(|l| l.0 == n).is_some_and(|l| l.2.1 == GONE)
    }
    /// What is in scope in the value of a variable.
    fn declaring(&self, n: &str) -> Scope {
        let mut t = self.clone();
        t.locals.push((n.into(), VType::None, (0, GONE)));
        t
    }
    /// A loop is over.
    fn leave(&mut self, depth: usize) {
        self.locals[depth..].iter_mut().for_each(|l| l.2.1 = GONE);
    }
}

pub struct Code {
    pub types: Vec<Type>,
    pub vars: Vec<Var>,
    pub procs: Vec<Proc>,
    pub macros: Vec<(String, Loc, Option<String>)>,
    pub names: Vec<String>,
    pub files: Vec<String>,
    pub marks: Vec<Mark>,
    /// uses: found by references
    pub uses: Vec<(Sym, Loc)>,
    /// may be found as well
    pub may: BTreeSet<(Sym, Loc)>,
    pub sentinel: (usize, u32),
}

struct W<'a> {
    g: &'a G,
    c: Code,
    file: usize,
    line: u32,
    col: u32,
    call: Option<(usize, Option<usize>, usize)>,
    heading: bool,
    budget: i32,
    /// types which have had their block
    written: BTreeSet<usize>,
    /// in a block of declarations
    in_block: bool,
}

impl Code {
    pub fn ancestors(&self, t: Option<usize>) -> Vec<usize> {
        let mut v = vec![];
        let mut t = t;
        while let Some(i) = t {
            v.push(i);
            t = self.types[i].parent;
        }
        v
    }
    pub fn related(&self, a: Option<usize>, b: Option<usize>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(x), Some(y)) => self.ancestors(a).contains(&y) || self.ancestors(b).contains(&x),
            _ => false,
        }
    }
    /// The variable a name means for members of a type.
    pub fn member_var(&self, t: usize, name: &str) -> Option<usize> {
        let a = self.ancestors(Some(t));
        (0..self.vars.len()).find(|&v| self.vars[v].name == name && self.vars[v].owner.is_some_and(|o| a.contains(&o)))
    }
    pub fn global_var(&self, name: &str) -> Option<usize> {
        (0..self.vars.len()).find(|&v| self.vars[v].name == name && self.vars[v].owner.is_none())
    }
    pub fn member_proc(&self, t: usize, name: &str) -> Option<usize> {
        let a = self.ancestors(Some(t));
        (0..self.procs.len()).find(|&v| self.procs[v].name == name && self.procs[v].owner.is_some_and(|o| a.contains(&o)))
    }
    pub fn global_proc(&self, name: &str) -> Option<usize> {
        (0..self.procs.len()).find(|&v| self.procs[v].name == name && self.procs[v].owner.is_none())
    }
    /// Where the variable's value is given nearest to a type.
    pub fn var_at(&self, v: usize, from: Option<usize>) -> Loc {
        for t in self.ancestors(from) {
            if let Some(l) = self.vars[v].at.get(&Some(t)) {
                return *l;
            }
        }
        self.vars[v].at[&self.vars[v].owner]
    }
    /// The definition of a procedure that is in force for a type.
    pub fn proc_at(&self, p: usize, from: Option<usize>) -> &Def {
        for t in self.ancestors(from) {
            if let Some(d) = self.procs[p].defs.iter().rev().find(|d| d.ty == Some(t)) {
                return d;
            }
        }
        self.procs[p].defs.iter().rev().find(|d| d.ty == self.procs[p].owner).unwrap()
    }
    /// The definition `..()` in one of a procedure's definitions calls.
    pub fn before(&self, p: usize, d: usize) -> Option<Loc> {
        let (p, t) = (&self.procs[p], self.procs[p].defs[d].ty);
        let same = p.defs[..d].iter().rev().find(|x| x.ty == t).map(|x| x.loc);
        same.or_else(|| self.types[t.unwrap()].parent.filter(|_| p.owner != t).map(|up| self.proc_at(self.procs.iter().position(|x| std::ptr::eq(x, p)).unwrap(), Some(up)).loc))
    }
    pub fn type_text(&self, t: VType) -> String {
        match t {
            VType::None => String::new(),
            VType::Type(t) => self.types[t].path.clone(),
            VType::List(None) => "/list".into(),
            VType::List(Some(t)) => format!("/list{}", self.types[t].path),
        }
    }
}

const MOB: usize = 4;
const VARS: &[&str] = &["vx_a", "vx_b", "vx_c", "vxd", "vxE", "vx_ab"];
const PROCS: &[&str] = &["px_a", "px_b", "px_c", "pxd", "pxE", "px_ab"];
const LOCALS: &[&str] = &["vx_a", "vx_b", "vxl", "vxm", "vx_lm"];
const NAMES: &[&str] = &["qa", "qb", "qc", "q_d"];

impl<'a> W<'a> {
    fn put(&mut self, s: &str) {
        for ch in s.chars() {
            if ch == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += ch.len_utf16() as u32;
            }
        }
        self.c.files[self.file].push_str(s);
    }
    fn here(&self) -> Loc {
        (self.file, self.line)
    }
    fn mark(&mut self, text: &str, what: What, scoped: Option<usize>, scope: Option<&Scope>) {
        let m = Mark { file: self.file, line: self.line, col: self.col, text: text.into(), what, scoped, scope: scope.cloned(), call: self.call, heading: self.heading };
        self.c.marks.push(m);
        self.put(text);
    }
    fn uses(&mut self, s: Sym) {
        let h = self.here();
        self.c.uses.push((s, h));
    }
    /// Write a type's path, marking each part; whether the whole counts as a use.
    fn path(&mut self, t: usize, counts: bool, lead: bool, head: bool) {
        let path = self.c.types[t].path.clone();
        let mut so_far = String::new();
        for (i, part) in path[1..].split('/').enumerate() {
            if i > 0 || lead {
                self.put("/");
            }
            so_far.push('/');
            so_far.push_str(part);
            let ty = self.c.types.iter().position(|x| x.path == so_far);
            match ty {
                Some(ty) => {
                    let call = self.call.take();
                    self.mark(part, if head { What::TypeHead(ty) } else { What::Type(ty) }, None, None);
                    self.call = call;
                },
                None => self.put(part),
            }
        }
        if counts {
            self.uses(Sym::Type(t));
        } else {
            let h = self.here();
            self.c.may.insert((Sym::Type(t), h));
        }
    }

    // --------------------------------------------------------------------------------------------
    // Expressions

    fn var_type(&mut self, t: VType, counts: bool) {
        // after `var`
        match t {
            VType::None => {},
            VType::Type(t) => self.path(t, counts, true, false),
            VType::List(x) => {
                self.put("/list");
                if let Some(t) = x {
                    self.path(t, counts, true, false);
                }
            },
        }
    }

    fn user_type(&self) -> Option<usize> {
        let v: Vec<usize> = (0..self.c.types.len()).filter(|&i| !self.c.types[i].builtin).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.g.pick(&v))
        }
    }

    fn some_vtype(&self) -> VType {
        match (self.g.weighted(&[4, 4, 1, 1]), self.user_type()) {
            (0, _) | (_, None) => VType::None,
            (1, Some(t)) => VType::Type(t),
            (2, _) => VType::List(None),
            (_, t) => VType::List(t),
        }
    }

    /// Something that is a place to assign to, and what it is declared as.
    fn place(&mut self, s: &Scope) -> VType {
        let g = self.g;
        let mut opts: Vec<String> = vec![];
        for (n, _, _) in &s.locals {
            if !s.gone(n) {
                opts.push(n.clone());
            }
        }
        for n in VARS {
            if s.gone(n) {
                continue;
            }
            let known = s.ty.and_then(|t| self.c.member_var(t, n)).or(self.c.global_var(n)).is_some();
            if known {
                opts.push(n.to_string());
            }
        }
        let src = s.ty.is_some() && s.in_proc;
        let usr = s.in_proc && !self.members(MOB).is_empty();
        let start = g.weighted(&[8, if src { 2 } else { 0 }, 1, if usr { 2 } else { 0 }]);
        let mut ty;
        if start == 1 {
            self.put("src");
            ty = VType::Type(s.ty.unwrap());
            if self.members(s.ty.unwrap()).is_empty() {
                return ty;
            }
            self.dot();
            let v = *g.pick(&self.members(s.ty.unwrap()));
            ty = self.member(v, s.ty.unwrap(), s);
        } else if start == 3 {
            self.put("usr");
            self.dot();
            let v = *g.pick(&self.members(MOB));
            ty = self.member(v, MOB, s);
        } else if start == 2 && (0..self.c.vars.len()).any(|v| self.c.vars[v].owner.is_none()) {
            let gv: Vec<usize> = (0..self.c.vars.len()).filter(|&v| self.c.vars[v].owner.is_none()).collect();
            let v = *g.pick(&gv);
            self.put("global.");
            self.uses(Sym::Var(v));
            // (what can be completed there is not looked at)
            let n = self.c.vars[v].name.clone();
            self.mark(&n, What::Var(v, None), None, None);
            ty = self.c.vars[v].ty;
        } else {
            if opts.is_empty() {
                self.put("usr");
                return VType::None;
            }
            let n = g.pick(&opts).clone();
            ty = self.name(&n, s);
        }
        // further
        while let VType::Type(t) = ty {
            let m = self.members(t);
            if m.is_empty() || !g.chance(1, 2) {
                break;
            }
            self.dot();
            let v = *g.pick(&m);
            ty = self.member(v, t, s);
        }
        if let VType::List(of) = ty {
            if g.chance(1, 2) {
                self.put("[");
                self.small(s);
                self.put("]");
                ty = of.map_or(VType::None, VType::Type);
                if let VType::Type(t) = ty {
                    // where this leads is known, but not to the annotations
                    let m = self.members(t);
                    if !m.is_empty() {
                        self.put(".");
                        let v = *g.pick(&m);
                        let n = self.c.vars[v].name.clone();
                        self.uses(Sym::Var(v));
                        self.put(&n);
                        ty = VType::None;
                    }
                }
            }
        }
        ty
    }

    fn dot(&mut self) {
        let s = *self.g.pick(&[".", ".", ".", "?."]);
        self.put(s);
    }

    fn members(&self, t: usize) -> Vec<usize> {
        let a = self.c.ancestors(Some(t));
        (0..self.c.vars.len()).filter(|&v| self.c.vars[v].owner.is_some_and(|o| a.contains(&o))).collect()
    }

    fn member(&mut self, v: usize, of: usize, s: &Scope) -> VType {
        let n = self.c.vars[v].name.clone();
        self.uses(Sym::Var(v));
        self.mark(&n, What::Var(v, Some(of)), Some(of), Some(s));
        self.c.vars[v].ty
    }

    /// An unscoped name.
    fn name(&mut self, n: &str, s: &Scope) -> VType {
        if let Some((_, ty, loc)) = s.locals.iter().rev().find(|l| l.0 == n) {
            self.mark(n, What::Local { name: n.into(), loc: *loc, ty: *ty }, None, Some(s));
            return *ty;
        }
        let v = s.ty.and_then(|t| self.c.member_var(t, n)).or(self.c.global_var(n)).unwrap();
        self.uses(Sym::Var(v));
        self.mark(n, What::Var(v, s.ty), None, Some(s));
        self.c.vars[v].ty
    }

    fn small(&mut self, s: &Scope) {
        self.budget -= 1;
        match self.g.weighted(&[3, if s.in_proc { 4 } else { 0 }, 1, if self.c.macros.is_empty() { 0 } else { 1 }]) {
            0 => {
                let n = self.g.below(50).to_string();
                self.put(&n);
            },
            1 => {
                self.place(s);
            },
            2 => self.put(["\"text\"", "\"té\u{df}t\"", "\"日本 😀\"", "/* 😀é */ 'ü.dmi'"][if self.g.bool() { 0 } else { self.g.usize(4) }]),
            _ => {
                let m = self.g.usize(self.c.macros.len());
                let n = self.c.macros[m].0.clone();
                self.mark(&n, What::Macro(m), None, None);
                if n.ends_with('F') {
                    let a = format!("({})", self.g.below(9));
                    self.put(&a);
                }
            },
        }
    }

    fn args(&mut self, callee: Option<(usize, Option<usize>)>, s: &Scope, kw: &[String]) {
        self.put("(");
        let outer = self.call;
        let n = self.g.usize(4);
        for i in 0..n {
            if i > 0 {
                self.put(", ");
            }
            self.call = callee.map(|(p, t)| (p, t, i));
            if !kw.is_empty() && self.g.chance(1, 6) {
                // the parameter's name is no use of anything
                let k = self.g.pick(kw).clone();
                self.put(&format!("{} = ", k));
            }
            self.expr(s);
        }
        self.call = outer;
        self.put(")");
    }

    fn call(&mut self, s: &Scope) -> bool {
        let g = self.g;
        let kw = |d: &Def| d.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>();
        match g.weighted(&[4, 4, 1, 1, 1]) {
            0 => {
                let opts: Vec<&&str> = PROCS.iter().filter(|n| s.ty.and_then(|t| self.c.member_proc(t, n)).or(self.c.global_proc(n)).is_some()).collect();
                if opts.is_empty() {
                    return false;
                }
                let n = *g.pick(&opts);
                let p = s.ty.and_then(|t| self.c.member_proc(t, n)).or(self.c.global_proc(n)).unwrap();
                self.uses(Sym::Proc(p));
                self.mark(n, What::Proc(p, s.ty), None, Some(s));
                let kw = kw(self.c.proc_at(p, s.ty));
                self.args(Some((p, s.ty)), s, &kw);
            },
            1 => {
                // a member of a local or so
                let mut opts: Vec<(String, usize)> = vec![];
                for (i, (n, ty, _)) in s.locals.iter().enumerate() {
                    if let (VType::Type(t), false) = (ty, s.gone(n)) {
                        if !s.locals[i + 1..].iter().any(|l| l.0 == *n) {
                            opts.push((n.clone(), *t));
                        }
                    }
                }
                if let (Some(t), true) = (s.ty, s.in_proc) {
                    opts.push(("src".into(), t));
                }
                if s.in_proc {
                    opts.push(("usr".into(), MOB));
                }
                if opts.is_empty() {
                    return false;
                }
                let (n, mut t) = g.pick(&opts).clone();
                if n == "src" || n == "usr" {
                    self.put(&n);
                } else {
                    self.name(&n, s);
                }
                for _ in 0..2 {
                    let m: Vec<usize> = self.members(t).into_iter().filter(|&v| matches!(self.c.vars[v].ty, VType::Type(_))).collect();
                    if !m.is_empty() && g.chance(1, 3) {
                        self.dot();
                        let v = *g.pick(&m);
                        let VType::Type(x) = self.member(v, t, s) else { unreachable!() };
                        t = x;
                    }
                }
                let a = self.c.ancestors(Some(t));
                let ps: Vec<usize> = (0..self.c.procs.len()).filter(|&p| self.c.procs[p].owner.is_some_and(|o| a.contains(&o))).collect();
                if ps.is_empty() {
                    // something nobody knows of
                    self.put(".mystery");
                    self.args(None, s, &[]);
                    return true;
                }
                self.dot();
                let p = *g.pick(&ps);
                self.uses(Sym::Proc(p));
                let n = self.c.procs[p].name.clone();
                self.mark(&n, What::Proc(p, Some(t)), Some(t), Some(s));
                let kw = kw(self.c.proc_at(p, Some(t)));
                self.args(Some((p, Some(t))), s, &kw);
            },
            2 => {
                self.put("global_mystery");
                self.args(None, s, &[]);
            },
            3 => {
                self.put("istype(");
                let outer = self.call.take();
                self.expr(s);
                self.put(", ");
                if let Some(t) = self.user_type() {
                    self.path(t, true, true, false);
                } else {
                    self.put("1");
                }
                self.put(")");
                self.call = outer;
            },
            _ => {
                let outer = self.call.take();
                let n = *g.pick(&["max(1, ", "list(", "pick(", "text(\"\", ", "locate("]);
                self.put(n);
                self.expr(s);
                self.put(")");
                self.call = outer;
            },
        }
        true
    }

    fn expr(&mut self, s: &Scope) {
        self.budget -= 1;
        if self.budget < 0 {
            return self.small(s);
        }
        let g = self.g;
        match g.weighted(&[5, 3, 4, 2, 2, 1, 1, 1, 1]) {
            0 => self.small(s),
            1 => {
                self.expr(s);
                let op = *g.pick(&[" + ", " && ", " == ", " || ", " * "]);
                self.put(op);
                self.small(s);
            },
            2 => {
                if !self.call(s) {
                    self.small(s);
                }
            },
            3 => match self.user_type() {
                Some(t) => {
                    let of: Vec<usize> = (0..self.c.procs.len()).filter(|&p| self.c.procs[p].owner == Some(t)).collect();
                    if of.is_empty() || !g.chance(1, 3) {
                        return self.path(t, true, true, false);
                    }
                    let p = *g.pick(&of);
                    let h = self.here();
                    self.path(t, false, true, false);
                    self.put(if self.c.procs[p].verb { "/verb/" } else { "/proc/" });
                    self.c.may.insert((Sym::Proc(p), h));
                    let n = self.c.procs[p].name.clone();
                    let call = self.call.take();
                    self.mark(&n, What::ProcPath(p, t), None, None);
                    self.call = call;
                },
                None => self.put("null"),
            },
            4 => match self.user_type() {
                Some(t) => {
                    self.put("new ");
                    self.path(t, true, true, false);
                    let m = self.members(t);
                    if !m.is_empty() && g.chance(1, 5) {
                        let v = *g.pick(&m);
                        self.put("{");
                        self.uses(Sym::Var(v));
                        let n = self.c.vars[v].name.clone();
                        self.put(&format!("{} = ", n));
                        self.small(&Scope { ty: None, locals: vec![], in_proc: false });
                        self.put("}");
                    }
                    let outer = self.call.take();
                    self.args(None, s, &[]);
                    self.call = outer;
                },
                None => self.put("null"),
            },
            5 => {
                self.put("(");
                self.expr(s);
                self.put(")");
            },
            6 => {
                self.put(*g.pick(&["\"a [", "\"a [", "\"é😀 ["]));
                let outer = self.call.take();
                self.expr(s);
                self.call = outer;
                self.put("] b\"");
            },
            7 => {
                self.small(s);
                self.put(" ? ");
                self.small(s);
                self.put(" : ");
                self.small(s);
            },
            _ => {
                let op = *g.pick(&["!", "-", "~"]);
                self.put(op);
                self.small(s);
            },
        }
    }

    // --------------------------------------------------------------------------------------------
    // Statements

    fn local(&mut self, s: &mut Scope, prefix: bool) -> (String, VType) {
        let n = *self.g.pick(LOCALS);
        let ty = self.some_vtype();
        self.put("var");
        let _ = prefix;
        self.var_type(ty, true);
        self.put("/");
        self.put(n);
        let _ = s;
        (n.to_string(), ty)
    }

    fn block(&mut self, s: &mut Scope, tabs: usize, n: usize) {
        let depth = s.locals.len();
        for _ in 0..n {
            self.stmt(s, tabs);
        }
        s.locals.truncate(depth);
    }

    fn stmt(&mut self, s: &mut Scope, tabs: usize) {
        let g = self.g;
        self.budget = 6;
        self.put(&"\t".repeat(tabs));
        let inner = |g: &G| 1 + g.usize(2);
        let deep = tabs >= 4;
        match if deep { g.weighted(&[4, 4, 3, 1]) } else { g.weighted(&[6, 6, 4, 1, 2, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1]) } {
            0 => {
                let here = self.here();
                let (n, ty) = self.local(s, true);
                if g.chance(3, 4) {
                    self.put(" = ");
                    // (the name is not used in its own value)
                    let hidden = s.locals.iter().any(|l| l.0 == n) || VARS.contains(&&n[..]);
                    let t = s.declaring(&n);
                    if hidden {
                        self.put("1");
                    } else if g.chance(1, 5) && matches!(ty, VType::Type(_)) {
                        self.put("new");
                        let outer = self.call.take();
                        self.args(None, &t, &[]);
                        self.call = outer;
                    } else {
                        self.expr(&t);
                    }
                }
                self.put("\n");
                s.locals.push((n, ty, here));
            },
            1 => {
                self.place(s);
                let op = *g.pick(&[" = ", " += ", " |= "]);
                self.put(op);
                self.expr(s);
                self.put("\n");
            },
            2 => {
                if !self.call(s) {
                    self.put("return 1");
                }
                self.put("\n");
            },
            3 => {
                self.put("return ");
                self.expr(s);
                self.put("\n");
            },
            4 => {
                self.put("if(");
                self.expr(s);
                self.put(")\n");
                self.block(s, tabs + 1, inner(g));
                if g.chance(1, 3) {
                    self.put(&"\t".repeat(tabs));
                    self.put("else if(");
                    self.expr(s);
                    self.put(")\n");
                    self.block(s, tabs + 1, inner(g));
                }
                if g.chance(1, 3) {
                    self.put(&"\t".repeat(tabs));
                    self.put("else\n");
                    self.block(s, tabs + 1, inner(g));
                }
            },
            5 => {
                self.put("while(");
                self.expr(s);
                self.put(")\n");
                self.block(s, tabs + 1, inner(g));
            },
            6 => {
                self.put("for(");
                let depth = s.locals.len();
                let here = self.here();
                if g.chance(3, 4) {
                    let (n, ty) = self.local(s, false);
                    self.put(" in ");
                    let ok = !VARS.contains(&&n[..]) && !s.locals.iter().any(|l| l.0 == n);
                    if ok {
                        self.small(&s.declaring(&n));
                    } else {
                        self.put("list(1)");
                    }
                    s.locals.push((n, ty, here));
                } else {
                    self.simple_place(s);
                    self.put(" in ");
                    self.small(s);
                }
                self.put(")\n");
                self.block(s, tabs + 1, inner(g));
                s.leave(depth);
            },
            7 => {
                self.put("for(");
                let depth = s.locals.len();
                let here = self.here();
                let c_style = g.bool();
                let mut new = None;
                if g.chance(2, 3) {
                    let n = g.pick(&["vxl", "vxm", "vx_lm"]).to_string();
                    self.put("var/");
                    self.put(&n);
                    self.put(" = ");
                    if s.locals.iter().any(|l| l.0 == n) {
                        self.put("1");
                    } else {
                        self.small(&s.declaring(&n));
                    }
                    new = Some((n, VType::None, here));
                } else {
                    self.simple_place(s);
                    self.put(" = ");
                    self.small(s);
                }
                if c_style {
                    s.locals.extend(new);
                    self.put("; ");
                    self.small(s);
                    self.put("; ");
                    self.place(s);
                    self.put("++)\n");
                } else {
                    self.put(" to ");
                    let t = new.as_ref().map_or(s.clone(), |n| s.declaring(&n.0));
                    let ok = !new.as_ref().is_some_and(|n| s.locals.iter().any(|l| l.0 == n.0));
                    if ok {
                        self.small(&t);
                    } else {
                        self.put("9");
                    }
                    if g.chance(1, 3) {
                        self.put(" step ");
                        if ok {
                            self.small(&t);
                        } else {
                            self.put("2");
                        }
                    }
                    self.put(")\n");
                    s.locals.extend(new);
                }
                self.block(s, tabs + 1, inner(g));
                s.leave(depth);
            },
            8 => {
                self.put("switch(");
                self.expr(s);
                self.put(")\n");
                for i in 0..inner(g) {
                    self.put(&"\t".repeat(tabs + 1));
                    self.put("if(");
                    match (g.chance(1, 2), self.user_type()) {
                        (true, Some(t)) => self.path(t, true, true, false),
                        _ if g.bool() => self.put(&format!("{}, {} to {}", i * 10, i * 10 + 2, i * 10 + 4)),
                        _ => {
                            self.small(s);
                            self.put(", ");
                            self.small(s);
                            self.put(" to ");
                            self.small(s);
                        },
                    }
                    self.put(")\n");
                    self.block(s, tabs + 2, inner(g));
                }
                if g.bool() {
                    self.put(&"\t".repeat(tabs + 1));
                    self.put("else\n");
                    self.block(s, tabs + 2, inner(g));
                }
            },
            9 => {
                self.put("spawn(");
                self.small(s);
                self.put(")\n");
                self.block(s, tabs + 1, inner(g));
            },
            10 => {
                self.put("try\n");
                self.block(s, tabs + 1, inner(g));
                self.put(&"\t".repeat(tabs));
                self.put("catch(var/exception/");
                let here = self.here();
                let n = g.pick(&["vxl", "vxm"]).to_string();
                self.put(&n);
                self.put(")\n");
                let depth = s.locals.len();
                s.locals.push((n, VType::None, here));
                self.block(s, tabs + 1, inner(g));
                s.locals.truncate(depth);
            },
            11 => {
                self.put("do\n");
                self.block(s, tabs + 1, inner(g));
                self.put(&"\t".repeat(tabs));
                self.put("while(");
                self.expr(s);
                self.put(")\n");
            },
            12 => {
                self.put("CRASH(");
                self.expr(s);
                self.put(")\n");
            },
            13 => {
                self.put("del ");
                self.place(s);
                self.put("\n");
            },
            14 => {
                self.put("throw ");
                self.expr(s);
                self.put("\n");
            },
            15 => {
                self.put(". = ");
                self.expr(s);
                self.put("\n");
            },
            _ => {
                self.put("for(var/");
                let n: Vec<&str> = if g.bool() { vec!["vxl", "vxm"] } else { vec!["vx_a", "vxl"] };
                let here = self.here();
                self.put(n[0]);
                self.put(", ");
                self.put(n[1]);
                self.put(" in ");
                let ok = !s.locals.iter().any(|l| n.contains(&&l.0[..])) && !n.iter().any(|n| VARS.contains(n));
                if ok {
                    self.small(&s.declaring(n[0]).declaring(n[1]));
                } else {
                    self.put("list()");
                }
                self.put(")\n");
                let depth = s.locals.len();
                for n in n {
                    s.locals.push((n.to_string(), VType::None, here));
                }
                self.block(s, tabs + 1, inner(g));
                s.leave(depth);
            },
        }
    }

    /// A bare name to be assigned to.
    fn simple_place(&mut self, s: &Scope) {
        let mut opts: Vec<String> = s.locals.iter().map(|l| l.0.clone()).filter(|n| !s.gone(n)).collect();
        opts.extend(VARS.iter().filter(|n| !s.gone(n)).filter(|n| s.ty.and_then(|t| self.c.member_var(t, n)).or(self.c.global_var(n)).is_some()).map(|n| n.to_string()));
        if opts.is_empty() {
            self.put("mystery");
        } else {
            let n = self.g.pick(&opts).clone();
            self.name(&n, s);
        }
    }

    // --------------------------------------------------------------------------------------------
    // Declarations

    fn doc(&mut self, tabs: usize, doc: &Option<String>) {
        if let Some(d) = doc {
            self.put(&"\t".repeat(tabs));
            self.put(&format!("/// {}\n", d));
        }
    }

    fn value(&mut self) {
        let s = Scope::default();
        self.budget = 3;
        match self.g.weighted(&[3, 2, 1]) {
            0 => self.small(&s),
            1 => match self.user_type() {
                Some(t) => {
                    if self.g.chance(1, 3) {
                        self.put("new ");
                        self.path(t, true, true, false);
                    } else {
                        self.path(t, true, true, false);
                    }
                },
                None => self.put("1"),
            },
            _ => match self.user_type() {
                Some(t) => {
                    self.put("list(");
                    self.path(t, true, true, false);
                    self.put(")");
                },
                None => self.put("list()"),
            },
        }
    }

    /// A type and some of what it has; `tabs` deep in the block of the type its path is below.
    fn type_block(&mut self, t: usize, tabs: usize) {
        let g = self.g;
        let d = self.c.types[t].doc.clone();
        self.doc(tabs, &d);
        self.put(&"\t".repeat(tabs));
        let here = self.here();
        self.c.types[t].loc = here;
        self.written.insert(t);
        let path = self.c.types[t].path.clone();
        if tabs == 0 {
            self.path(t, false, true, true);
        } else {
            self.mark(&path[path.rfind('/').unwrap() + 1..], What::TypeHead(t), None, None);
            self.c.may.insert((Sym::Type(t), here));
        }
        self.put("\n");
        let by_path = self.by_path(t);
        if by_path != self.c.types[t].parent {
            self.put(&"\t".repeat(tabs + 1));
            self.put("parent_type = ");
            let p = self.c.types[t].parent.unwrap();
            self.heading = true;
            self.path(p, false, true, false);
            self.heading = false;
            self.put("\n");
        }
        for v in 0..self.c.vars.len() {
            let owner = self.c.vars[v].owner;
            let (is, below) = (owner == Some(t), owner.is_some_and(|o| o != t && self.c.ancestors(Some(t)).contains(&o)));
            if is && g.chance(1, 6) {
                self.put(&"\t".repeat(tabs + 1));
                self.put("var\n");
                self.in_block = true;
                self.var_line(tabs + 2, v, Some(t));
                self.in_block = false;
            } else if (is && g.chance(3, 4)) || (below && g.chance(1, 3)) {
                self.var_line(tabs + 1, v, Some(t));
            }
        }
        for p in 0..self.c.procs.len() {
            let mine: Vec<usize> = (0..self.c.procs[p].defs.len()).filter(|&d| self.c.procs[p].defs[d].ty == Some(t)).collect();
            if mine.is_empty() || !g.chance(1, 3) || (mine[0] != 0 && self.c.procs[p].defs[0].loc.1 == GONE) {
                continue;
            }
            for d in mine {
                if d == 0 && g.chance(1, 3) {
                    self.put(&"\t".repeat(tabs + 1));
                    self.put(if self.c.procs[p].verb { "verb\n" } else { "proc\n" });
                    self.in_block = true;
                    self.proc(tabs + 2, p, d);
                    self.in_block = false;
                } else {
                    self.proc(tabs + 1, p, d);
                }
            }
        }
        for u in t + 1..self.c.types.len() {
            let q = &self.c.types[u];
            let below = q.path.rfind('/').is_some_and(|i| q.path[..i] == path);
            if below && !self.written.contains(&u) && g.chance(1, 3) {
                let p = q.parent.unwrap();
                if self.c.types[p].builtin || self.written.contains(&p) {
                    self.type_block(u, tabs + 1);
                }
            }
        }
    }

    /// What a type descends from if nothing else is said.
    fn by_path(&self, t: usize) -> Option<usize> {
        let path = &self.c.types[t].path;
        self.c.types.iter().position(|x| x.path == path[..path.rfind('/').unwrap()]).or(Some(0))
    }

    fn var_line(&mut self, tabs: usize, v: usize, t: Option<usize>) {
        let decl = self.c.vars[v].owner == t;
        let name = self.c.vars[v].name.clone();
        if decl {
            let d = self.c.vars[v].doc.clone();
            self.doc(tabs, &d);
        }
        self.put(&"\t".repeat(tabs));
        let here = self.here();
        self.c.vars[v].at.insert(t, here);
        self.heading = true;
        if tabs == 0 {
            if let Some(t) = t {
                self.path(t, false, true, true);
            }
            self.put("/");
        }
        if decl && self.in_block {
            let ty = self.c.vars[v].ty;
            if let VType::List(_) = ty {
                self.put("list");
            }
            if let VType::Type(t) | VType::List(Some(t)) = ty {
                self.path(t, false, matches!(ty, VType::List(_)), false);
            }
            if ty != VType::None {
                self.put("/");
            }
        } else if decl {
            self.put("var");
            let ty = self.c.vars[v].ty;
            self.var_type(ty, false);
            self.put("/");
        }
        self.mark(&name, What::VarHead(v), None, None);
        self.heading = false;
        if !decl || self.g.chance(3, 4) {
            self.put(" = ");
            self.heading = true;
            self.value();
        }
        self.heading = false;
        self.put("\n");
    }

    fn proc(&mut self, tabs: usize, p: usize, d: usize) {
        let t = self.c.procs[p].defs[d].ty;
        let first = d == 0;
        if first {
            let doc = self.c.procs[p].doc.clone();
            self.doc(tabs, &doc);
        }
        self.put(&"\t".repeat(tabs));
        let here = self.here();
        self.c.procs[p].defs[d].loc = here;
        self.heading = true;
        if tabs == 0 {
            if let Some(t) = t {
                self.path(t, false, true, true);
            }
            self.put("/");
        }
        if first && !self.in_block {
            self.put(if self.c.procs[p].verb { "verb/" } else { "proc/" });
        }
        let name = self.c.procs[p].name.clone();
        self.mark(&name, What::ProcHead(p), None, None);
        self.put("(");
        let params = self.c.procs[p].defs[d].params.clone();
        let mut s = Scope { ty: t, locals: vec![], in_proc: true };
        for (i, (n, ty)) in params.into_iter().enumerate() {
            if i > 0 {
                self.put(", ");
            }
            match ty {
                VType::None => {
                    if self.g.chance(1, 4) {
                        self.put("var/");
                    }
                },
                _ => {
                    self.put("var");
                    self.var_type(ty, true);
                    self.put("/");
                },
            }
            self.put(&n);
            if self.g.chance(1, 4) {
                self.put(" = 3");
            }
            s.locals.push((n, ty, here));
        }
        self.heading = false;
        self.put(")\n");
        let n = self.g.usize(5);
        if !first && self.g.chance(1, 2) {
            self.put(&"\t".repeat(tabs + 1));
            self.mark("..", What::Parent(p, d), None, None);
            self.put("()\n");
        }
        self.block(&mut s, tabs + 1, n);
        if n == 0 {
            self.put(&"\t".repeat(tabs + 1));
            self.put("return\n");
        }
    }
}

pub fn code(g: &G) -> Code {
    let b = |path: &str, parent: Option<usize>| Type { path: path.into(), parent, builtin: true, loc: (0, 0), doc: None };
    let types = vec![b("/datum", None), b("/atom", Some(0)), b("/atom/movable", Some(1)), b("/obj", Some(2)), b("/mob", Some(2)), b("/turf", Some(1))];
    let nfiles = 1 + g.usize(3);
    let c = Code {
        types,
        vars: vec![],
        procs: vec![],
        macros: vec![],
        names: (0..nfiles).map(|i| format!("{}{}.dm", ["one", "two", "three"][i], g.pick(&["", "", "", " x", "é", "#1", "%20", "_q?a"]))).collect(),
        files: vec![String::new(); nfiles],
        marks: vec![],
        uses: vec![],
        may: BTreeSet::new(),
        sentinel: (0, 0),
    };
    let mut w = W { g, c, file: 0, line: 0, col: 0, call: None, heading: false, budget: 0, written: BTreeSet::new(), in_block: false };
    let mut docs = 0;
    let mut doc = || {
        docs += 1;
        g.chance(1, 4).then(|| format!("zdoc{}.", docs))
    };
    // types
    for _ in 0..1 + g.len(1, 6) {
        let at = if g.chance(1, 6) { None } else { Some(g.usize(w.c.types.len())) };
        let path = match at {
            Some(i) => format!("{}/{}", w.c.types[i].path, g.pick(NAMES)),
            None => format!("/{}", g.pick(NAMES)),
        };
        if w.c.types.iter().any(|t| t.path == path) {
            continue;
        }
        let mut parent = at.or(Some(0));
        if g.chance(1, 8) {
            parent = Some(g.usize(w.c.types.len()));
        }
        w.c.types.push(Type { path, parent, builtin: false, loc: (0, 0), doc: doc() });
    }
    let user: Vec<usize> = (0..w.c.types.len()).filter(|&i| !w.c.types[i].builtin).collect();
    // variables
    for _ in 0..2 + g.len(1, 8) {
        let owner = if g.chance(1, 4) { None } else if g.chance(1, 6) { Some(MOB) } else { Some(*g.pick(&user)) };
        let name = *g.pick(VARS);
        if w.c.vars.iter().any(|v| v.name == name && w.c.related(v.owner, owner)) {
            continue;
        }
        let ty = w.some_vtype();
        let v = Var { name: name.into(), owner, ty, at: BTreeMap::new(), doc: doc() };
        w.c.vars.push(v);
    }
    // procedures
    let params = |w: &W| -> Vec<(String, VType)> {
        let mut out: Vec<(String, VType)> = vec![];
        for _ in 0..g.usize(4) {
            let n = g.pick::<&str>(&["vx_a", "vxl", "vxp", "vxq", "vx_pq"]).to_string();
            if !out.iter().any(|p| p.0 == n) {
                out.push((n, w.some_vtype()));
            }
        }
        out
    };
    for _ in 0..2 + g.len(1, 6) {
        let owner = if g.chance(1, 4) { None } else if g.chance(1, 6) { Some(MOB) } else { Some(*g.pick(&user)) };
        let name = *g.pick(PROCS);
        if w.c.procs.iter().any(|v| v.name == name && w.c.related(v.owner, owner)) {
            continue;
        }
        let mut defs = vec![Def { ty: owner, params: params(&w), loc: (0, GONE) }];
        if let Some(o) = owner {
            for &t in &user {
                if w.c.ancestors(Some(t)).contains(&o) {
                    let n = if t == o { 0 } else { g.chance(1, 2) as usize } + if t != o && g.bool() { 0 } else { g.weighted(&[5, 1, 1]) };
                    for _ in 0..n {
                        defs.push(Def { ty: Some(t), params: params(&w), loc: (0, GONE) });
                    }
                }
            }
        }
        let p = Proc { name: name.into(), owner, verb: g.chance(1, 6), defs, doc: doc() };
        w.c.procs.push(p);
    }

    // the text
    // (a child's heading comes after its parent's)
    let mut lines = 0;
    let turn = |w: &mut W| {
        if w.file + 1 < w.c.files.len() && g.chance(1, 4) {
            w.file += 1;
            w.line = 0;
            w.col = 0;
        }
    };
    let _ = &mut lines;
    for i in 0..g.usize(3) {
        let n = if g.bool() { format!("MX{}", i) } else { format!("MX{}F", i) };
        let d = doc();
        w.doc(0, &d);
        let l = w.here();
        let text = if n.ends_with('F') { format!("#define {}(A) (A + 1)\n", n) } else { format!("#define {} 17\n", n) };
        w.put(&text);
        w.c.macros.push((n, l, d));
    }
    for &t in &user {
        if !w.written.contains(&t) {
            turn(&mut w);
            w.type_block(t, 0);
        }
    }
    for v in 0..w.c.vars.len() {
        let owner = w.c.vars[v].owner;
        if !w.c.vars[v].at.contains_key(&owner) {
            turn(&mut w);
            w.var_line(0, v, owner);
        }
    }
    for p in 0..w.c.procs.len() {
        for d in 0..w.c.procs[p].defs.len() {
            if w.c.procs[p].defs[d].loc.1 != GONE {
                continue;
            }
            let again = d > 0 && w.c.procs[p].defs[..d].iter().any(|x| x.ty == w.c.procs[p].defs[d].ty);
            if !again {
                turn(&mut w);
            }
            w.proc(0, p, d);
        }
    }
    // (uses of this tell when the table of uses is there)
    w.c.sentinel = (w.file, w.line);
    w.put("/var/sentinel = 1\n/proc/sentinels()\n\tsentinel = 2\n");
    w.c
}
