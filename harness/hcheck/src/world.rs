//! Generated programs: a type hierarchy, procedures on it, and calls between them, with the
//! resolution rules of the language as a reference.
use engine::*;
use std::collections::BTreeMap;

pub type Id = usize;

pub struct Ty {
    pub path: String,
    pub parent: Option<Id>,
    pub builtin: bool,
    /// value of `parent_type`, when written
    pub redirect: bool,
    /// variable lines declared on the type
    pub vars: Vec<String>,
}

#[derive(Clone)]
pub struct Param {
    pub name: String,
    pub ty: Option<Id>,
}

#[derive(Clone)]
pub enum St {
    /// one line of text, with the call sites on it
    Line(String, Vec<usize>),
    /// `head` followed by an indented block
    Nest(String, Vec<usize>, Vec<St>),
    /// statements without anything around them
    Seq(Vec<St>),
}

pub struct Def {
    pub ty: Id,
    pub name: String,
    pub decl: bool,
    pub fin: bool,
    pub params: Vec<Param>,
    pub sets: Vec<String>,
    pub body: Vec<St>,
    /// what follows the parameters
    pub ret: String,
    pub builtin: bool,
    pub line: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// `name()`
    Bare,
    /// `x.name()` with the static type of `x`
    On(Id),
    /// `..()`
    Parent,
    /// `.()`
    Dot,
    /// `global.name()`
    Global,
    /// `::name()`
    Scope,
    /// `new /type()`
    New(Id),
    /// not a call: a spot in the code to remember
    Mark,
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub key: Option<String>,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Site {
    pub caller: Id,
    pub kind: Kind,
    pub name: String,
    pub args: Vec<Arg>,
    pub spawned: bool,
    pub line: u32,
    /// the call is a whole statement by itself
    pub statement: bool,
}

#[derive(Default)]
pub struct World {
    pub types: Vec<Ty>,
    pub defs: Vec<Def>,
    pub sites: Vec<Site>,
    /// global variables by the type they are declared with
    pub globals: Vec<(String, Id)>,
    /// procedures returning an instance of a type
    /// lines on a type (or at top level), each with a mark
    pub lines: Vec<(Id, String, usize)>,
    pub untyped_globals: Vec<String>,
    pub makers: Vec<(String, Id)>,
    pub fields: Vec<(Id, String, Id)>,
    pub count: usize,
    /// statements may return a value
    pub may_return: bool,
    /// the statement just written returns a value, which means nothing in detached code
    returned: bool,
    /// statements may shift what an expression gives
    pub may_shift: bool,
    /// a short line of types with a web of calls among few procedures
    pub dense: bool,
    /// lines registered during rendering for named spots
    pub marks: BTreeMap<usize, u32>,
}

pub const ROOT: Id = 0;
pub const DATUM: Id = 1;

impl World {
    pub fn new() -> World {
        let mut w = World { may_return: true, ..World::default() };
        let mut add = |path: &str, parent: Option<Id>| w.types.push(Ty { path: path.into(), parent, builtin: true, redirect: false, vars: vec![] });
        add("", None);
        add("/datum", Some(0));
        add("/atom", Some(1));
        add("/atom/movable", Some(2));
        add("/obj", Some(3));
        add("/mob", Some(3));
        add("/turf", Some(2));
        for ty in [1, 2] {
            w.defs.push(Def { ty, name: "New".into(), decl: ty == 1, fin: false, params: if ty == 2 { vec![Param { name: "loc".into(), ty: None }] } else { vec![] }, sets: vec![], body: vec![], ret: String::new(), builtin: true, line: 0 });
        }
        w
    }
    /// User types below the built-in ones.
    pub fn gen_types(&mut self, g: &G, max: usize) {
        for _ in 0..2 + g.len(0, max) {
            let word = *g.pick(&["a", "b", "c", "item", "tool"]);
            // extend something that exists, usually one of our own types
            let base = if self.types.len() > 7 && g.chance(3, 4) { g.range(7, self.types.len() as i64 - 1) as usize } else { g.usize(7) };
            if base == ROOT && word == "item" {
                continue;
            }
            let path = format!("{}/{}", self.types[base].path, word);
            if self.types.iter().any(|t| t.path == path) {
                continue;
            }
            let mut parent = if base == ROOT { DATUM } else { base };
            let redirect = g.chance(1, 8);
            if redirect {
                parent = g.range(1, self.types.len() as i64 - 1) as usize;
            }
            self.types.push(Ty { path, parent: Some(parent), builtin: false, redirect, vars: vec![] });
        }
        self.never_empty();
    }
    /// A line of types, with a branch now and then.
    pub fn gen_line(&mut self, g: &G) {
        let mut last = *g.pick(&[DATUM, 4, 7]);
        for word in &["a", "b", "c", "d"][..g.range(3, 4) as usize] {
            let base = last.min(self.types.len());
            let (path, parent) = if base == 7 && self.types.len() == 7 { (format!("/{}", word), DATUM) } else { (format!("{}/{}", self.types[base].path, word), base) };
            self.types.push(Ty { path, parent: Some(parent), builtin: false, redirect: false, vars: vec![] });
            if !(self.types.len() > 8 && g.chance(1, 3)) {
                last = self.types.len() - 1;
            }
        }
    }
    fn never_empty(&mut self) {
        if self.types.len() == 7 {
            self.types.push(Ty { path: "/datum/a".into(), parent: Some(DATUM), builtin: false, redirect: false, vars: vec![] });
        }
    }
    pub fn user_types(&self) -> Vec<Id> {
        (7..self.types.len()).collect()
    }
    pub fn chain(&self, t: Id) -> Vec<Id> {
        let mut v = vec![t];
        while let Some(p) = self.types[*v.last().unwrap()].parent {
            v.push(p);
        }
        v
    }
    pub fn is_sub(&self, t: Id, of: Id) -> bool {
        self.chain(t).contains(&of)
    }
    /// The definition a call by name on a type runs.
    pub fn lookup(&self, ty: Id, name: &str) -> Option<Id> {
        self.chain(ty).into_iter().find_map(|t| (0..self.defs.len()).rev().find(|&d| self.defs[d].ty == t && self.defs[d].name == name))
    }
    /// The definition a call on an object of a type runs; global procedures are not members.
    pub fn member(&self, ty: Id, name: &str) -> Option<Id> {
        self.lookup(ty, name).filter(|&d| ty == ROOT || self.defs[d].ty != ROOT)
    }
    /// What `..()` runs.
    pub fn parent(&self, d: Id) -> Option<Id> {
        let def = &self.defs[d];
        (0..d).rev().find(|&e| self.defs[e].ty == def.ty && self.defs[e].name == def.name).or_else(|| self.types[def.ty].parent.filter(|&p| p != ROOT).and_then(|p| self.member(p, &def.name)))
    }
    pub fn ancestors(&self, d: Id) -> Vec<Id> {
        let mut v = vec![d];
        while let Some(p) = self.parent(*v.last().unwrap()) {
            v.push(p);
        }
        v
    }
    /// Is this the definition a call from outside reaches on its own type?
    pub fn visible(&self, d: Id) -> bool {
        self.lookup(self.defs[d].ty, &self.defs[d].name) == Some(d)
    }
    pub fn show(&self, d: Id) -> String {
        let def = &self.defs[d];
        let all: Vec<Id> = (0..self.defs.len()).filter(|&e| self.defs[e].ty == def.ty && self.defs[e].name == def.name).collect();
        let base = format!("{}/proc/{}", self.types[def.ty].path, def.name);
        if all.len() > 1 {
            format!("{}[{}/{}]", base, all.iter().position(|&e| e == d).unwrap(), all.len())
        } else {
            base
        }
    }
    pub fn show_ty(&self, t: Id) -> String {
        if t == ROOT {
            "(root)".into()
        } else {
            self.types[t].path.clone()
        }
    }
    /// The definition carrying the `proc/` keyword that governs `d`.
    pub fn declaration(&self, d: Id) -> Option<Id> {
        let def = &self.defs[d];
        self.chain(def.ty).into_iter().find_map(|t| (0..self.defs.len()).find(|&e| self.defs[e].ty == t && self.defs[e].name == def.name && self.defs[e].decl))
    }
    pub fn add_def(&mut self, ty: Id, name: &str, decl: bool) -> Id {
        self.defs.push(Def { ty, name: name.into(), decl, fin: false, params: vec![], sets: vec![], body: vec![], ret: String::new(), builtin: false, line: 0 });
        self.defs.len() - 1
    }
    /// Declared procedures and overrides; overrides may repeat on one type.
    pub fn gen_defs(&mut self, g: &G, names: &[&str], max: usize, repeats: bool) {
        for name in names {
            let user = self.user_types();
            let mut tops: Vec<Id> = vec![];
            for _ in 0..1 + g.usize(2) {
                let t = if g.chance(1, 5) { g.range(1, 6) as usize } else { *g.pick(&user) };
                // one declaration per line of descent
                if !tops.iter().any(|&o| self.is_sub(t, o) || self.is_sub(o, t)) {
                    tops.push(t);
                }
            }
            for &t in &tops {
                self.add_def(t, name, true);
            }
            for _ in 0..g.len(0, max) {
                let top = *g.pick(&tops);
                let below: Vec<Id> = (1..self.types.len()).filter(|&t| self.is_sub(t, top)).collect();
                let t = *g.pick(&below);
                if self.defs.iter().any(|d| d.ty == t && d.name == *name) && !(repeats && g.chance(1, 2)) {
                    continue;
                }
                self.add_def(t, name, false);
            }
        }
    }
    pub fn gen_globals(&mut self, g: &G, max: usize) {
        for i in 0..g.len(0, max) {
            self.add_def(ROOT, &format!("g{}", i), true);
        }
    }
    /// Global procedures of the same names as procedures of types, with which they have nothing to do.
    pub fn gen_namesakes(&mut self, g: &G, names: &[&str]) {
        for name in names {
            if g.chance(1, 6) && !self.defs.iter().any(|d| d.ty == ROOT && d.name == *name) {
                self.add_def(ROOT, name, true);
            }
        }
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.count += 1;
        format!("{}{}", p, self.count)
    }
    pub fn ty_decl(&self, t: Id) -> String {
        format!("var{}", self.types[t].path)
    }
    fn ty_prefix(&self, t: Id) -> String {
        self.types[t].path[1..].to_string()
    }

    /// An expression of static type `t` for use inside `d`, with the lines that must come before.
    /// Calls it needs become call sites of their own (their numbers are pushed on `extra`).
    pub fn value_of(&mut self, g: &G, d: Id, t: Id, pre: &mut Vec<St>, extra: &mut Vec<usize>, depth: usize) -> String {
        let self_ty = self.defs[d].ty;
        match g.usize(13) {
            0 | 1 => {
                let v = self.fresh("v");
                pre.push(St::Line(format!("{}/{}", self.ty_decl(t), v), vec![]));
                v
            },
            2 => {
                let v = self.fresh("q");
                self.defs[d].params.push(Param { name: v.clone(), ty: Some(t) });
                v
            },
            3 if self_ty == t => "src".into(),
            4 | 5 if self_ty != ROOT => {
                let chain: Vec<Id> = self.chain(self_ty).into_iter().filter(|&c| c != ROOT).collect();
                let at = *g.pick(&chain);
                let f = self.field(at, t);
                if g.bool() {
                    f
                } else {
                    format!("src.{}", f)
                }
            },
            6 => {
                let v = match self.globals.iter().find(|x| x.1 == t) {
                    Some(x) => x.0.clone(),
                    None => {
                        let v = self.fresh("gv");
                        self.globals.push((v.clone(), t));
                        v
                    },
                };
                if g.bool() {
                    v
                } else {
                    format!("global.{}", v)
                }
            },
            7 => {
                let v = self.fresh("l");
                pre.push(St::Line(format!("var/list/{}/{}", self.ty_prefix(t), v), vec![]));
                format!("{}[1]", v)
            },
            8 if depth < 2 => {
                let user = self.user_types();
                let via = *g.pick(&user);
                let up = *g.pick(&self.chain(via));
                let at = if up == ROOT { via } else { up };
                let f = self.field(at, t);
                let x = self.value_of(g, d, via, pre, extra, depth + 1);
                format!("{}{}{}", x, g.pick(&[".", ".", "?."]), f)
            },
            9 => {
                let name = match self.makers.iter().find(|x| x.1 == t) {
                    Some(x) => x.0.clone(),
                    None => {
                        let v = self.fresh("mk");
                        let m = self.add_def(ROOT, &v, true);
                        self.defs[m].sets.push(format!("set SpacemanDMM_return_type = {}", self.types[t].path));
                        self.makers.push((v.clone(), t));
                        v
                    },
                };
                self.sites.push(Site { caller: d, kind: Kind::Bare, name: name.clone(), args: vec![], spawned: false, line: 0, statement: false });
                extra.push(self.sites.len() - 1);
                format!("{}()", name)
            },
            10 if depth < 2 => {
                let x = self.value_of(g, d, t, pre, extra, depth + 1);
                match g.usize(3) {
                    0 => format!("({})", x),
                    1 => format!("(world.time ? {} : null)", x),
                    _ => format!("astype(world.time, {})", self.types[t].path),
                }
            },
            11 => {
                let v = self.fresh("m");
                pre.push(St::Line(format!("{}/{} = list()", self.ty_decl(t), v), vec![]));
                v
            },
            _ => {
                let v = self.fresh("w");
                pre.push(St::Line(format!("{}/{} = null", self.ty_decl(t), v), vec![]));
                v
            },
        }
    }
    pub fn field(&mut self, at: Id, t: Id) -> String {
        if let Some(x) = self.fields.iter().find(|x| x.0 == at && x.2 == t) {
            return x.1.clone();
        }
        let f = self.fresh("f");
        let line = format!("{}/{}", self.ty_decl(t), f);
        self.types[at].vars.push(line);
        self.fields.push((at, f.clone(), t));
        f
    }

    /// A call to write inside `d`: the text, after pushing what must come before it.
    pub fn call(&mut self, g: &G, d: Id, kind: Kind, name: &str, args: Vec<Arg>, pre: &mut Vec<St>, on_line: &mut Vec<usize>) -> String {
        let at: Vec<String> = args.iter().map(|a| match &a.key { Some(k) => format!("{} = {}", k, a.text), None => a.text.clone() }).collect();
        let at = at.join(", ");
        let text = match &kind {
            Kind::Bare => format!("{}({})", name, at),
            Kind::On(t) => {
                let x = self.value_of(g, d, *t, pre, on_line, 0);
                format!("{}{}{}({})", x, g.pick(&[".", ".", ".", "?."]), name, at)
            },
            Kind::Parent => format!("..({})", at),
            Kind::Dot => format!(".({})", at),
            Kind::Global => format!("global.{}({})", name, at),
            Kind::Scope => format!("::{}({})", name, at),
            Kind::New(t) => format!("new {}({})", self.types[*t].path, at),
            Kind::Mark => unreachable!(),
        };
        self.sites.push(Site { caller: d, kind, name: name.into(), args, spawned: false, line: 0, statement: false });
        on_line.push(self.sites.len() - 1);
        text
    }
    /// The definition a site runs (before any dispatch to overrides).
    pub fn callee(&self, s: &Site) -> Option<Id> {
        match &s.kind {
            Kind::Bare => self.lookup(self.defs[s.caller].ty, &s.name),
            Kind::On(t) => self.member(*t, &s.name),
            Kind::Parent => self.parent(s.caller),
            Kind::Dot => Some(s.caller),
            Kind::Global | Kind::Scope => self.lookup(ROOT, &s.name),
            Kind::New(t) => self.member(*t, "New"),
            Kind::Mark => None,
        }
    }
    /// A spot that is no call.
    pub fn mark(&mut self, d: Id, name: &str) -> usize {
        self.sites.push(Site { caller: d, kind: Kind::Mark, name: name.into(), args: vec![], spawned: false, line: 0, statement: false });
        self.sites.len() - 1
    }

    /// Put an expression into a statement that evaluates it.
    pub fn embed(&mut self, g: &G, x: String, sites: Vec<usize>) -> St {
        let v = self.fresh("e");
        let line = |s: String| St::Line(s, vec![]);
        if g.chance(1, 2) {
            let open = x.contains(':') || x.contains("++") || x.contains("--") || x.contains(' ') || x.ends_with('.');
            // Before a word or a colon, what ends with a dot or a name could go on.
            let x = if open { format!("({})", x) } else { x };
            let time = |b: St| St::Nest("if(world.time)".into(), vec![], vec![b]);
            return match g.usize(34) {
                0 => St::Line(format!("throw {}", x), sites),
                1 => St::Line(format!("del({})", x), sites),
                2 => time(St::Line(format!("CRASH({})", x), sites)),
                3 => St::Line(format!("var/{} = pick({}, 1)", v, x), sites),
                4 => St::Line(format!("var/{} = pick(1, 50;{})", v, x), sites),
                5 => St::Line(format!("var/{} = pick(({});1, 2)", v, x), sites),
                6 => St::Line(format!("var/{} = locate({}) in list()", v, x), sites),
                7 => St::Line(format!("var/{} = locate(/obj) in {}", v, x), sites),
                8 => St::Line(format!("var/{} = call({}, \"a\")(1)", v, x), sites),
                9 => St::Line(format!("var/{} = call(world, \"a\")(1, {})", v, x), sites),
                10 => St::Line(format!("world:bar({}, {})", g.range(0, 3), x), sites),
                11 => St::Line(format!("world?:bar(kk = {})", x), sites),
                12 => St::Line(format!("var/{} = \"[1]a[2]b[{}]\"", v, x), sites),
                13 => St::Seq(vec![St::Nest("if(world.fps)".into(), vec![], vec![line("world.time".into())]), St::Nest(format!("else if(world.time == {})", x), sites, vec![line("world.time".into())])]),
                14 => St::Nest("switch(world.time)".into(), vec![], vec![St::Nest(format!("if({})", g.pick(&["1, X", "X", "X to 5", "2 to X", "7, 8 to X"]).replace("X", &x)), sites, vec![line("world.time".into())])]),
                15 => St::Line(format!("var/{} = list(\"k\" = {}, 2)", v, x), sites),
                16 => St::Line(format!("var/{} = list(1, list({}))", v, x), sites),
                17 => St::Line(format!("var/{} = world.time ? 3 : {}", v, x), sites),
                18 => St::Line(format!("var/{} = {} ? 1 : 2", v, x), sites),
                19 => St::Line(format!("var/{} = args[{}]", v, x), sites),
                20 => St::Line(format!("var/{} = ({}) in list(1)", v, x), sites),
                21 => St::Line(format!("var/{} = 5 in list({})", v, x), sites),
                22 => St::Seq(vec![St::Nest("do".into(), vec![], vec![line("world.time".into())]), St::Line(format!("while({})", x), sites)]),
                23 => St::Nest(format!("for(var/{} = {}, world.time, world.fps)", v, x), sites, vec![line("world.time".into())]),
                24 => St::Nest(format!("for(var/{0} = 0, {0} < {1}, {0}++)", v, x), sites, vec![line("world.time".into())]),
                25 => St::Nest(format!("for(var/{0} = 0, {0} < 5, {0} += {1})", v, x), sites, vec![line("world.time".into())]),
                26 => St::Nest(format!("for(var/{} in {})", v, g.pick(&["X to 5", "1 to X", "1 to 5 step X", "(X) to 5 step 2"]).replace("X", &x)), sites, vec![line("world.time".into())]),
                27 => St::Nest(format!("spawn({})", x), sites, vec![line("world.time".into())]),
                28 => St::Line(format!("var/{} = new /list({})", v, x), sites),
                29 => St::Seq(vec![line(format!("var/{}", v)), St::Line(format!("var/{0}z = new {0}({1})", v, x), sites)]),
                30 => St::Line(format!("var/{0}a = 1, {0} = {1}", v, x), sites),
                31 => St::Line(format!("var/{} = {}", v, g.pick(&["!(X)", "-(X)", "1 << (X)", "(X) & 3", "null || (X) || 2", "world.time && (X)", "(X) == 4", "~(X)", "world.time ? (world.fps ? 1 : X) : 3", "\"[\"[X]\"]\"", "min(1, max((X), 3))", "list(X)[1]"]).replace("X", &x)), sites),
                32 if self.may_return => {
                    self.returned = true;
                    time(St::Line(format!("return {}", x), sites))
                },
                33 if self.may_shift => St::Line(format!("({}) << 2", x), sites),
                _ => St::Nest(format!("if(world.time && !({}))", x), sites, vec![line("world.time".into())]),
            };
        }
        match g.usize(16) {
            0 | 1 | 2 | 3 => {
                if let Some(&s) = sites.last() {
                    self.sites[s].statement = true;
                    if self.sites[s].kind != Kind::Mark && x.ends_with(')') && g.chance(1, 6) {
                        // something more of the value, which still goes nowhere
                        return St::Line(format!("{}{}", x, g.pick(&[":zz", "?:zz", ":zz:yy"])), sites);
                    }
                }
                St::Line(x, sites)
            },
            4 => St::Line(format!("var/{} = {}", v, x), sites),
            5 => St::Line(format!(". = {}", x), sites),
            6 => St::Line(format!("var/{} = list({}, 2)", v, x), sites),
            7 => St::Line(format!("var/{} = \"a[{}]b\"", v, x), sites),
            8 => St::Line(format!("var/{} = world.time ? ({}) : 3", v, x), sites),
            9 => St::Line(format!("var/{} = world.time || {}", v, x), sites),
            10 => St::Line(format!("var/{} = 1 + ({}) * 2", v, x), sites),
            11 => St::Nest(format!("if(world.time == {})", x), sites, vec![St::Line(format!("var/{} = 2", v), vec![])]),
            12 => St::Nest(format!("while({})", x), sites, vec![St::Line("break".into(), vec![])]),
            13 => St::Nest(format!("for(var/{} in {})", v, x), sites, vec![St::Line("continue".into(), vec![])]),
            14 => St::Line(format!("var/{} = max({}, 1)", v, x), sites),
            _ => St::Nest(format!("switch({})", x), sites, vec![St::Nest("if(1)".into(), vec![], vec![St::Line("world.time".into(), vec![])])]),
        }
    }
    /// Put statements into a block of some kind. The flag tells whether they run detached.
    pub fn wrap(&mut self, g: &G, sts: Vec<St>) -> (Vec<St>, bool) {
        let v = self.fresh("n");
        let line = |s: &str| St::Line(s.to_string(), vec![]);
        let sorts = if self.returned { 15 } else { 16 };
        match g.usize(sorts) {
            0 => (vec![St::Nest("if(world.time)".into(), vec![], sts)], false),
            1 => (vec![St::Nest("if(world.time)".into(), vec![], vec![line("world.time")]), St::Nest("else".into(), vec![], sts)], false),
            2 => (vec![St::Nest("if(world.time)".into(), vec![], vec![line("world.time")]), St::Nest("else if(world.fps)".into(), vec![], sts)], false),
            3 => (vec![St::Nest("while(world.time)".into(), vec![], sts)], false),
            4 => (vec![St::Nest("do".into(), vec![], sts), line("while(world.time)")], false),
            5 => (vec![St::Nest(format!("for(var/{} in list(1, 2))", v), vec![], sts)], false),
            6 => (vec![St::Nest(format!("for(var/{} in 1 to 5)", v), vec![], sts)], false),
            7 => (vec![St::Nest(format!("for(var/{0} = 1, {0} < 5, {0}++)", v), vec![], sts)], false),
            8 => (vec![St::Nest("for()".into(), vec![], sts)], false),
            9 => (vec![St::Nest("switch(world.time)".into(), vec![], vec![St::Nest("if(3)".into(), vec![], sts)])], false),
            10 => (vec![St::Nest("switch(world.time)".into(), vec![], vec![St::Nest("if(3)".into(), vec![], vec![line("world.time")]), St::Nest("else".into(), vec![], sts)])], false),
            11 => (vec![St::Nest("try".into(), vec![], sts), St::Nest("catch".into(), vec![], vec![line("world.time")])], false),
            12 => (vec![St::Nest("try".into(), vec![], vec![line("world.time")]), St::Nest(format!("catch(var/{})", v), vec![], sts)], false),
            13 => (vec![St::Nest(format!("{}:", v), vec![], sts)], false),
            14 => (vec![St::Nest(format!("for(var/{}, v{} in alist())", v, v), vec![], sts)], false),
            _ => (vec![St::Nest(if g.bool() { "spawn(1)".into() } else { "spawn".into() }, vec![], sts)], true),
        }
    }
    fn mark_spawned(&mut self, sts: &[St]) {
        for s in sts {
            match s {
                St::Line(_, k) => k.iter().for_each(|&i| self.sites[i].spawned = true),
                St::Nest(_, k, b) => {
                    k.iter().for_each(|&i| self.sites[i].spawned = true);
                    self.mark_spawned(b)
                },
                St::Seq(b) => self.mark_spawned(b),
            }
        }
    }
    /// One body element: a call somewhere in the code.
    pub fn element(&mut self, g: &G, d: Id, kind: Kind, name: &str, args: Vec<Arg>) -> Vec<St> {
        let mut pre = vec![];
        let mut sites = vec![];
        let x = self.call(g, d, kind, name, args, &mut pre, &mut sites);
        let st = self.embed(g, x, sites);
        pre.push(st);
        self.nest(g, pre)
    }
    pub fn nest(&mut self, g: &G, mut sts: Vec<St>) -> Vec<St> {
        for _ in 0..g.weighted(&[3, 2, 1]) {
            if g.chance(1, 5) {
                // something before it, at the same level
                let (mut before, _) = self.wrap(g, vec![St::Line("world.time".into(), vec![])]);
                before.extend(sts);
                sts = before;
            }
            let keep = sts.clone();
            let (s, spawned) = self.wrap(g, sts);
            if spawned {
                self.mark_spawned(&keep);
            }
            sts = s;
        }
        self.returned = false;
        sts
    }

    // ---- text

    fn emit(&mut self, out: &mut Vec<String>, sts: &[St], depth: usize) {
        for s in sts {
            match s {
                St::Line(t, k) => {
                    out.push(format!("{}{}", "\t".repeat(depth), t));
                    for &i in k {
                        self.sites[i].line = out.len() as u32;
                    }
                },
                St::Nest(t, k, b) => {
                    out.push(format!("{}{}", "\t".repeat(depth), t));
                    for &i in k {
                        self.sites[i].line = out.len() as u32;
                    }
                    if b.is_empty() {
                        out.push(format!("{}world.time", "\t".repeat(depth + 1)));
                    }
                    self.emit(out, b, depth + 1);
                },
                St::Seq(b) => self.emit(out, b, depth),
            }
        }
    }
    /// Write the program; types and procedures come in any order, except that definitions of one
    /// procedure on one type keep theirs.
    pub fn render(&mut self, g: &G) -> String {
        let mut out = vec![];
        let mut order: Vec<(u64, usize, bool)> = vec![];
        let mut last: BTreeMap<(Id, String), u64> = BTreeMap::new();
        for d in 0..self.defs.len() {
            if self.defs[d].builtin {
                continue;
            }
            let k = (self.defs[d].ty, self.defs[d].name.clone());
            let lo = last.get(&k).copied().unwrap_or(0);
            let at = lo + 1 + g.below(1000);
            last.insert(k, at);
            order.push((at, d, true));
        }
        for t in 0..self.types.len() {
            if !self.types[t].builtin || !self.types[t].vars.is_empty() || self.lines.iter().any(|l| l.0 == t) {
                order.push((g.below(2000), t, false));
            }
        }
        order.sort();
        for (name, t) in self.globals.clone() {
            out.push(format!("{}/{}", self.ty_decl(t), name));
        }
        for name in &self.untyped_globals {
            out.push(format!("var/{}", name));
        }
        for (_, i, is_def) in order {
            if !is_def {
                let mut own: Vec<(String, usize)> = self.lines.iter().filter(|l| l.0 == i).map(|l| (l.1.clone(), l.2)).collect();
                g.shuffle(&mut own);
                if i == ROOT {
                    for (l, m) in own {
                        out.push(l);
                        self.sites[m].line = out.len() as u32;
                    }
                    continue;
                }
                let ty = &self.types[i];
                out.push(ty.path.clone());
                for (l, m) in own {
                    out.push(format!("\t{}", l));
                    self.sites[m].line = out.len() as u32;
                }
                if ty.redirect {
                    out.push(format!("\tparent_type = {}", self.types[ty.parent.unwrap()].path));
                }
                for v in &ty.vars {
                    out.push(format!("\t{}", v));
                }
                continue;
            }
            let def = &self.defs[i];
            let params: Vec<String> = def.params.iter().map(|p| match p.ty { Some(t) => format!("{}/{}", self.ty_prefix(t), p.name), None => p.name.clone() }).collect();
            let head = format!("{}{}{}({}){}", if def.decl { "proc/" } else { "" }, if def.fin { "final/" } else { "" }, def.name, params.join(", "), def.ret);
            let mut depth = 1;
            let ty = self.types[def.ty].path.clone();
            if def.ty != ROOT && g.chance(1, 3) {
                out.push(ty);
                out.push(format!("\t{}", head));
                depth = 2;
            } else {
                out.push(format!("{}/{}", ty, head));
            }
            self.defs[i].line = out.len() as u32;
            for s in self.defs[i].sets.clone() {
                out.push(format!("{}{}", "\t".repeat(depth), s));
            }
            let body = self.defs[i].body.clone();
            if body.is_empty() && g.bool() {
                out.push(format!("{}return 1", "\t".repeat(depth)));
            }
            self.emit(&mut out, &body, depth);
            if !body.is_empty() && g.chance(1, 3) {
                out.push(format!("{}return", "\t".repeat(depth)));
            }
        }
        out.join("\n") + "\n"
    }
}

/// Run the real checker.
pub fn check(text: &str) -> dm::Context {
    dreamchecker::test_helpers::parse_a_file_for_test(text.to_string())
}

/// Diagnostics as (line, description), sorted.
pub fn diags(ctx: &dm::Context) -> Vec<(u32, String)> {
    let mut v: Vec<(u32, String)> = ctx.errors().iter().map(|e| (e.location().line, e.description().to_string())).collect();
    v.sort();
    v
}

/// Expected against reported diagnostics, both directions.
pub fn same(got: &[(u32, String)], want: &[(u32, String)], sig: &str) -> R {
    let (mut want, mut extra) = (want.to_vec(), vec![]);
    want.sort();
    for g in got {
        match want.iter().position(|w| w == g) {
            Some(i) => {
                want.remove(i);
            },
            None => extra.push(g.clone()),
        }
    }
    if let Some((l, m)) = extra.first() {
        return fail(&format!("{}:unexpected", sig), format!("line {}: reported {:?}, which does not apply", l, m));
    }
    if let Some((l, m)) = want.first() {
        return fail(&format!("{}:missing", sig), format!("line {}: {:?} should have been reported", l, m));
    }
    Ok(())
}
