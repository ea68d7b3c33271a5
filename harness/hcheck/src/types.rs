//! D08: the type a value is known to have.
use crate::world::*;
use engine::*;

/// What is known of a value.
#[derive(Clone, PartialEq, Debug)]
enum T {
    No,
    Ty(Id),
    List(Box<T>),
    /// built-in types which are not part of the generated hierarchy
    Other(&'static str),
}

/// What a procedure says it returns, in terms of its parameters.
#[derive(Clone, Debug)]
enum Te {
    Fixed(T),
    /// the type whose path is passed
    Path(usize),
    /// the type of what is passed, inside so many lists
    Of(usize, usize),
    Or(Box<Te>, Box<Te>),
    And(Box<Te>, Box<Te>),
    If(Box<Te>, Box<Te>, Box<Te>),
}

#[derive(Clone)]
struct Passed {
    text: String,
    ty: T,
    /// the path it is, when it is one
    path: Option<Id>,
}

#[derive(Clone)]
struct Maker {
    name: String,
    params: Vec<String>,
    te: Te,
}

struct Gen<'a> {
    g: &'a G,
    w: World,
    d: Id,
    pre: Vec<St>,
    /// blocks around the statement
    heads: Vec<(String, bool)>,
    makers: Vec<Maker>,
    rules: usize,
    calls: usize,
    ops: Vec<(Id, &'static str)>,
}

impl Gen<'_> {
    fn path(&self, t: &T) -> String {
        match t {
            T::No => String::new(),
            T::Ty(i) => self.w.types[*i].path[1..].to_string(),
            T::List(k) => {
                let k = self.path(k);
                if k.is_empty() { "list".into() } else { format!("list/{}", k) }
            },
            T::Other(p) => p[1..].to_string(),
        }
    }
    /// `path/name`, the type before a name.
    fn typed(&self, t: &T, name: &str) -> String {
        let p = self.path(t);
        if p.is_empty() { name.into() } else { format!("{}/{}", p, name) }
    }
    /// A variable declaration after `var/`.
    fn declare(&self, t: &T, name: &str) -> String {
        if let T::List(k) = t {
            if self.g.chance(1, 4) {
                return format!("{}[{}]", self.typed(k, name), self.g.pick(&["", "3"]));
            }
        }
        self.typed(t, name)
    }
    fn some_ty(&self) -> Id {
        if self.g.chance(1, 5) { self.g.range(1, 6) as usize } else { *self.g.pick(&self.w.user_types()) }
    }
    fn some(&self, depth: usize) -> T {
        match self.g.usize(10) {
            0 => T::No,
            1 => T::List(Box::new(T::No)),
            2 | 3 if depth < 2 => T::List(Box::new(self.some(depth + 1))),
            4 => T::Other(*self.g.pick(&["/icon", "/matrix", "/regex", "/sound", "/exception"])),
            _ => T::Ty(self.some_ty()),
        }
    }
    fn known(&self) -> T {
        loop {
            let t = self.some(0);
            if t != T::No {
                return t;
            }
        }
    }
    fn show(&self, t: &T) -> String {
        match t {
            T::No => unreachable!(),
            T::Ty(i) => self.w.types[*i].path.clone(),
            T::List(_) => "/list".into(),
            T::Other(p) => p.to_string(),
        }
    }
    fn above(&self, t: Id) -> Id {
        let c: Vec<Id> = self.w.chain(t).into_iter().filter(|&c| c != ROOT).collect();
        *self.g.pick(&c)
    }

    // ---- what procedures return

    fn eval(&self, te: &Te, args: &[Option<Passed>]) -> T {
        match te {
            Te::Fixed(t) => t.clone(),
            Te::Path(i) => match args.get(*i) {
                Some(Some(Passed { path: Some(p), .. })) => T::Ty(*p),
                _ => T::No,
            },
            Te::Of(i, n) => {
                let mut t = match args.get(*i) {
                    Some(Some(a)) => a.ty.clone(),
                    _ => T::No,
                };
                for _ in 0..*n {
                    t = match t {
                        T::List(k) => *k,
                        _ => T::No,
                    };
                }
                t
            },
            Te::Or(a, b) => match self.eval(a, args) {
                T::No => self.eval(b, args),
                t => t,
            },
            Te::And(a, b) => match self.eval(a, args) {
                T::No => T::No,
                _ => self.eval(b, args),
            },
            Te::If(c, a, b) => {
                if self.eval(c, args) != T::No {
                    self.eval(a, args)
                } else {
                    self.eval(b, args)
                }
            },
        }
    }
    fn write(&self, te: &Te, params: &[String], top: bool) -> String {
        let s = match te {
            Te::Fixed(T::No) => return "null".into(),
            Te::Fixed(t) => return format!("/{}", self.path(t)),
            Te::Path(i) => return params[*i].clone(),
            Te::Of(i, n) => return format!("{}{}.type", params[*i], "[_]".repeat(*n)),
            Te::Or(a, b) => format!("{} || {}", self.write(a, params, false), self.write(b, params, false)),
            Te::And(a, b) => format!("{} && {}", self.write(a, params, false), self.write(b, params, false)),
            Te::If(c, a, b) => format!("{} ? {} : {}", self.write(c, params, false), self.write(a, params, false), self.write(b, params, false)),
        };
        if top { s } else { format!("({})", s) }
    }
    /// Something a procedure may return: `want` for the arguments it adds.
    fn te(&mut self, want: &T, args: &mut Vec<Option<Passed>>, depth: usize) -> Te {
        let g = self.g;
        match g.usize(10) {
            0 | 1 => match want {
                T::Ty(i) => {
                    let p = self.path_arg(*i);
                    args.push(Some(p));
                    Te::Path(args.len() - 1)
                },
                T::No => {
                    // not a path at all, or nothing
                    let t = self.some(0);
                    let a = if g.bool() { None } else { Some(self.pass(&t, depth + 1)) };
                    args.push(a);
                    Te::Path(args.len() - 1)
                },
                _ => Te::Fixed(want.clone()),
            },
            2 | 3 => {
                let a = self.pass(want, depth + 1);
                args.push(Some(a));
                Te::Of(args.len() - 1, 0)
            },
            4 | 5 => {
                let n = 1 + g.usize(2);
                let mut t = want.clone();
                for _ in 0..n {
                    t = T::List(Box::new(t));
                }
                let a = self.pass(&t, depth + 1);
                args.push(Some(a));
                Te::Of(args.len() - 1, n)
            },
            6 if depth < 2 => {
                let other = self.some(0);
                if *want == T::No || g.bool() {
                    let a = self.te(&T::No, args, depth + 1);
                    Te::Or(Box::new(a), Box::new(self.te(want, args, depth + 1)))
                } else {
                    let a = self.te(want, args, depth + 1);
                    Te::Or(Box::new(a), Box::new(self.te(&other, args, depth + 1)))
                }
            },
            7 if depth < 2 => {
                let other = self.known();
                if *want == T::No && g.bool() {
                    let a = self.te(&T::No, args, depth + 1);
                    Te::And(Box::new(a), Box::new(self.te(&other, args, depth + 1)))
                } else {
                    let a = self.te(&other, args, depth + 1);
                    Te::And(Box::new(a), Box::new(self.te(want, args, depth + 1)))
                }
            },
            8 if depth < 2 => {
                let other = self.some(0);
                let yes = g.bool();
                let c = if yes { self.known() } else { T::No };
                let c = self.te(&c, args, depth + 1);
                let (x, y) = if yes { (want, &other) } else { (&other, want) };
                let x = self.te(x, args, depth + 1);
                let y = self.te(y, args, depth + 1);
                Te::If(Box::new(c), Box::new(x), Box::new(y))
            },
            _ => Te::Fixed(want.clone()),
        }
    }
    /// An argument that is the path of a type.
    fn path_arg(&mut self, i: Id) -> Passed {
        let g = self.g;
        let p = self.w.types[i].path.clone();
        let me = self.w.defs[self.d].ty;
        let (text, ty) = match g.usize(6) {
            0 if me == i => (g.pick(&["type", "__TYPE__"]).to_string(), T::No),
            1 => {
                let v = self.w.fresh("pv");
                let t = if g.bool() { T::No } else { self.known() };
                let decl = self.typed(&t, &v);
                self.pre.push(St::Line(format!("var/{} = {}", decl, p), vec![]));
                (v, t)
            },
            2 => {
                let v = self.w.fresh("pv");
                self.pre.push(St::Line(format!("var{}/{} = __IMPLIED_TYPE__", p, v), vec![]));
                (v, T::Ty(i))
            },
            3 => (format!("({})", p), T::No),
            _ => (p, T::No),
        };
        Passed { text, ty, path: Some(i) }
    }
    fn pass(&mut self, t: &T, depth: usize) -> Passed {
        let text = self.expr(t, depth);
        Passed { text, ty: t.clone(), path: None }
    }
    /// Write arguments: by position, then by name.
    fn arguments(&self, args: &[Option<Passed>], params: &[String]) -> String {
        let g = self.g;
        let first_gap = args.iter().position(|a| a.is_none()).unwrap_or(args.len());
        let by_pos = if g.bool() { first_gap } else { g.usize(first_gap + 1) };
        let mut v: Vec<String> = args[..by_pos].iter().map(|a| a.as_ref().unwrap().text.clone()).collect();
        let mut named: Vec<String> = (by_pos..args.len()).filter_map(|i| args[i].as_ref().map(|a| format!("{} = {}", params[i], a.text))).collect();
        g.shuffle(&mut named);
        v.extend(named);
        v.join(", ")
    }
    fn call(&mut self, want: &T, depth: usize) -> String {
        let g = self.g;
        self.calls += 1;
        let mut args = vec![];
        if g.chance(1, 4) {
            // a parameter that does not matter
            let t = self.some(0);
            let a = self.pass(&t, depth + 1);
            args.push(Some(a));
        }
        let te = self.te(want, &mut args, 0);
        let name = self.w.fresh("mk");
        let params: Vec<String> = (0..args.len()).map(|i| format!("p{}", (b'a' + i as u8) as char)).collect();
        // a plain type may also be written behind the parameters
        let written = match &te {
            Te::Fixed(t) if g.chance(1, 2) => match t {
                T::No => Some(g.pick(&["", " as num", " as text", " as null", " as anything"]).to_string()),
                T::Ty(2) => Some(g.pick(&[" as obj|turf", " as mob|area|obj", " as /atom"]).to_string()),
                T::Ty(3) => Some(g.pick(&[" as obj|mob", " as mob|obj", " as /atom/movable"]).to_string()),
                T::Ty(4) => Some(g.pick(&[" as obj", " as /obj"]).to_string()),
                T::Ty(5) => Some(g.pick(&[" as mob", " as /mob"]).to_string()),
                T::Ty(6) => Some(g.pick(&[" as turf", " as /turf"]).to_string()),
                t => Some(format!(" as /{}", self.path(t))),
            },
            _ => None,
        };
        let text = self.arguments(&args, &params);
        let (on, at) = if g.chance(2, 5) { self.receiver(depth) } else { (String::new(), ROOT) };
        let def = if at == ROOT { ROOT } else { self.above(at) };
        let new = |w: &mut World, ty: Id, decl: bool| {
            let m = w.add_def(ty, &name, decl);
            w.defs[m].params = params.iter().map(|p| Param { name: p.clone(), ty: None }).collect();
            m
        };
        let m = new(&mut self.w, def, true);
        match written {
            Some(s) => {
                self.w.defs[m].ret = s;
                if def != at && g.bool() {
                    new(&mut self.w, at, false);
                }
            },
            None => {
                let s = self.write(&te, &params, true);
                // what is set says more than what is declared
                if g.chance(1, 8) {
                    self.w.defs[m].ret = g.pick(&[" as num", " as mob", " as /datum"]).to_string();
                }
                self.w.defs[m].sets.push(format!("set SpacemanDMM_return_type = {}", s));
                if g.chance(1, 4) && at != def && at != ROOT {
                    // an override with a type of its own
                    self.w.defs[m].sets = vec!["set SpacemanDMM_return_type = /datum".into()];
                    let o = new(&mut self.w, at, false);
                    self.w.defs[o].sets.push(format!("set SpacemanDMM_return_type = {}", s));
                }
            },
        }
        if at == ROOT {
            self.makers.push(Maker { name: name.clone(), params, te });
        }
        format!("{}{}({})", on, name, text)
    }
    /// What stands before a member, and the type it is looked up on.
    fn receiver(&mut self, depth: usize) -> (String, Id) {
        let g = self.g;
        let me = self.w.defs[self.d].ty;
        if me != ROOT && g.chance(1, 3) {
            let p = if g.bool() { "" } else { "src." };
            return (p.into(), me);
        }
        let via = self.some_ty();
        let x = self.expr(&T::Ty(via), depth + 1);
        (format!("{}{}", x, g.pick(&[".", ".", "?."])), via)
    }

    // ---- values

    fn member(&mut self, at: Id, t: &T) -> String {
        let f = self.w.fresh("f");
        let decl = self.declare(t, &f);
        let line = format!("var/{}{}", self.g.pick(&["", "", "", "", "static/", "tmp/", "global/"]), decl);
        self.w.types[at].vars.push(line);
        f
    }
    fn local(&mut self, t: &T) -> String {
        let g = self.g;
        let v = self.w.fresh("v");
        let typed = self.typed(t, &v);
        let n = self.w.fresh("n");
        match g.usize(12) {
            0 => self.heads.push((format!("for(var/{} in list(1))", typed), false)),
            1 => self.heads.push((format!("for(var/{} in 1 to 2)", typed), false)),
            2 => self.heads.push((format!("for(var/{} = null, world.time, world.fps)", typed), false)),
            3 => self.heads.push((format!("for(var/{}, {} in list())", typed, n), false)),
            4 if *t == T::No => self.heads.push((format!("for(var/obj/{}, {} in list())", n, v), false)),
            5 => self.heads.push((format!("catch(var/{})", typed), true)),
            6 => self.pre.push(St::Line(format!("var/{}, {}", g.pick(&[n.clone(), format!("obj/{}", n)]), typed), vec![])),
            k => {
                let decl = self.declare(t, &v);
                let init = if k > 8 || decl.ends_with(']') { "" } else { g.pick(&[" = null", " = world.time", " = list()", " = usr"]) };
                self.pre.push(St::Line(format!("var/{}{}", decl, init), vec![]));
            },
        }
        // others of the same name, which this one hides, or which end before it
        if g.chance(1, 4) {
            let k = self.known();
            let other = self.typed(&k, &v);
            match g.usize(4) {
                0 if !other.ends_with(']') => self.w.untyped_globals.push(other),
                1 => {
                    let at = self.some_ty();
                    self.w.types[at].vars.push(format!("var/{}", other));
                },
                2 => self.pre.insert(0, St::Nest("if(world.time)".into(), vec![], vec![St::Line(format!("var/{}", other), vec![])])),
                _ => self.heads.push((format!("for(var/{} in list(1))", other), false)),
            }
        }
        v
    }
    fn expr(&mut self, t: &T, depth: usize) -> String {
        let g = self.g;
        self.rules += 1;
        let me = self.w.defs[self.d].ty;
        if depth > 2 {
            return self.local(t);
        }
        match g.usize(20) {
            0 => {
                let v = self.w.fresh("q");
                let name = self.typed(t, &v);
                self.w.defs[self.d].params.push(Param { name, ty: None });
                v
            },
            1 => {
                let v = self.w.fresh("gv");
                let decl = self.declare(t, &v);
                self.w.untyped_globals.push(decl);
                format!("{}{}", g.pick(&["", "global.", "::"]), v)
            },
            2 | 3 => {
                let (on, at) = self.receiver(depth);
                let at = self.above(at);
                let f = self.member(at, t);
                format!("{}{}", on, f)
            },
            4 => {
                let via = self.some_ty();
                let at = self.above(via);
                let f = self.member(at, t);
                format!("{}::{}", self.w.types[via].path, f)
            },
            5 if me != ROOT => {
                let at = self.above(me);
                let f = self.member(at, t);
                format!("{}::{}", g.pick(&["type", "__TYPE__", "src"]), f)
            },
            6 | 7 => {
                let l = self.expr(&T::List(Box::new(t.clone())), depth + 1);
                format!("{}{}", l, g.pick(&["[1]", "[\"k\"]", "?[1]", "[world.time]"]))
            },
            8 | 9 | 10 => self.call(t, depth),
            11 => {
                let x = self.expr(t, depth + 1);
                let y = self.expr(t, depth + 1);
                format!("(world.time ? {} : {})", x, y)
            },
            12 => {
                let v = self.local(&T::No);
                let x = self.expr(t, depth + 1);
                format!("({} = {})", v, x)
            },
            13 => {
                let x = self.expr(t, depth + 1);
                if *t == T::No || g.bool() { format!("({})", x) } else { format!("astype({})", x) }
            },
            14 if *t != T::No => {
                let T::Ty(i) = t else { return self.local(t) };
                let x = g.pick(&["world.time", "usr", "null"]).to_string();
                format!("astype({}, {})", x, self.w.types[*i].path)
            },
            15 | 16 => match t {
                T::No => match g.usize(10) {
                    8 | 9 => {
                        let i = g.pick(&["1", "\"k\"", "world.time"]).to_string();
                        match self.ops.iter().find(|o| o.1 == "operator[]").map(|o| o.0) {
                            Some(of) if g.bool() => format!("{}[{}]", self.expr(&T::Ty(of), depth + 1), i),
                            _ => format!("{}[{}]", g.pick(&["args", "args", "list(1)", "typesof(/obj)"]), i),
                        }
                    },
                    0 => {
                        let via = self.some_ty();
                        let x = self.expr(&T::Ty(via), depth + 1);
                        format!("({}:anything)", x)
                    },
                    1 => "(1 + 2)".into(),
                    2 => {
                        let k = self.known();
                        let x = self.expr(&k, depth + 1);
                        format!("(!{})", x)
                    },
                    3 => "max(1, 2)".into(),
                    4 => {
                        let m = self.w.fresh("mk");
                        self.w.add_def(ROOT, &m, true);
                        format!("{}()", m)
                    },
                    5 => "\"s[world.time]\"".into(),
                    6 => {
                        let x = self.expr(&T::List(Box::new(T::No)), depth + 1);
                        format!("({} {} 1)", x, g.pick(&["==", "in", "&&", "*"]))
                    },
                    _ => {
                        let via = self.some_ty();
                        let x = self.expr(&T::Ty(via), depth + 1);
                        format!("({}:anything(1))", x)
                    },
                },
                T::Ty(6) => "get_step(usr, 1)".into(),
                T::Ty(5) if g.bool() => "usr".into(),
                T::Ty(i) if *i == me => "src".into(),
                T::Other("/icon") => "icon('a.dmi')".into(),
                T::Other("/matrix") => "matrix()".into(),
                T::Other("/regex") => "regex(\"a\")".into(),
                T::List(k) if **k == T::No && g.bool() => g.pick(&["splittext(\"a\", \"b\")", "icon_states('a.dmi')", "typesof(/obj)", "flist(\"a\")"]).to_string(),
                T::List(k) if **k == T::Ty(2) => g.pick(&["view()", "range(1)", "oview(2)", "orange(1)", "bounds(usr)", "obounds(usr)"]).to_string(),
                T::List(k) if **k == T::Ty(5) => g.pick(&["viewers()", "hearers()", "oviewers(1)", "ohearers()"]).to_string(),
                T::List(k) if **k == T::Ty(6) => "block(1, 1, 1)".into(),
                T::List(_) => {
                    let o = self.some(0);
                    let x = self.expr(t, depth + 1);
                    let y = self.expr(&o, depth + 1);
                    format!("({} {} {})", x, g.pick(&["+", "-", "|", "&", "^"]), y)
                },
                t => self.local(t),
            },
            _ => self.local(t),
        }
    }
}

struct Due {
    mark: usize,
    text: String,
}

fn types(g: &G) -> R {
    let mut w = World::new();
    w.gen_types(g, 6);
    let mut x = Gen { g, w, d: 0, pre: vec![], heads: vec![], makers: vec![], rules: 0, calls: 0, ops: vec![] };
    for op in ["operator++", "operator--", "operator[]"] {
        if g.chance(1, 4) {
            let t = *g.pick(&x.w.user_types());
            x.w.add_def(t, op, true);
            x.ops.push((t, op));
        }
    }
    let mut dues: Vec<Due> = vec![];
    let mut asked: Vec<T> = vec![];
    for i in 0..1 + g.len(0, 3) {
        let ty = if g.chance(1, 4) { ROOT } else { *g.pick(&x.w.user_types()) };
        x.d = x.w.add_def(ty, &format!("work{}", i), true);
        for _ in 0..1 + g.len(0, 3) {
            x.pre.clear();
            x.heads.clear();
            let (e, t) = if !x.makers.is_empty() && g.chance(1, 4) {
                // one that is there, called with something else
                let m = g.pick(&x.makers).clone();
                let mut args = vec![];
                for _ in 0..m.params.len() {
                    args.push(match g.usize(4) {
                        0 => None,
                        1 => {
                            let i = x.some_ty();
                            Some(x.path_arg(i))
                        },
                        _ => {
                            let t = x.some(0);
                            Some(x.pass(&t, 2))
                        },
                    });
                }
                let t = x.eval(&m.te, &args);
                (format!("{}({})", m.name, x.arguments(&args, &m.params)), t)
            } else {
                let t = x.some(0);
                (x.expr(&t, 0), t)
            };
            let m = x.w.mark(x.d, "probe");
            asked.push(t.clone());
            let zz = x.w.fresh("zz");
            let has = |x: &Gen, op: &str| match &t {
                T::Ty(i) => x.ops.iter().any(|o| o.1 == op && x.w.is_sub(*i, o.0)),
                _ => false,
            };
            let mut whole = true;
            let (text, due) = match g.usize(8) {
                0 | 1 | 2 => (
                    format!("{}{}{}", e, g.pick(&[".", ".", "?."]), zz),
                    Some(match &t {
                        T::No => format!("field access requires static type: {:?}", zz),
                        t => format!("undefined field: {:?} on {}", zz, x.show(t)),
                    }),
                ),
                3 | 4 => (
                    format!("{}{}{}()", e, g.pick(&[".", ".", "?."]), zz),
                    Some(match &t {
                        T::No => format!("proc call requires static type: {:?}", zz),
                        t => format!("undefined proc: {:?} on {}", zz, x.show(t)),
                    }),
                ),
                5 => {
                    whole = false;
                    (
                        if g.bool() { format!("for(var/{} in {})", zz, e) } else { format!("for(var/{0}, {0}v in {1})", zz, e) },
                        match &t {
                            T::Ty(i) if x.w.is_sub(*i, 2) => None,
                            T::Ty(i) if *i == DATUM => Some("iterating over a /datum which might not be an /atom".into()),
                            T::Ty(_) | T::Other(_) => Some(format!("iterating over a {} which cannot be iterated", x.show(&t))),
                            _ => None,
                        },
                    )
                },
                6 => (
                    format!("{}[1]", e),
                    match &t {
                        T::Ty(_) if !has(&x, "operator[]") => Some(format!("invalid list access on {}", x.show(&t))),
                        _ => None,
                    },
                ),
                _ => {
                    let op = *g.pick(&["++", "--"]);
                    (
                        if g.bool() { format!("{}{}", e, op) } else { format!("{}{}", op, e) },
                        match &t {
                            T::No => None,
                            T::List(_) => Some(format!("Attempting operator{0} on a list which does not overload operator{0}", op)),
                            _ if has(&x, &format!("operator{}", op)) => None,
                            t => Some(format!("Attempting operator{0} on a {1} which does not overload operator{0}", op, x.show(t))),
                        },
                    )
                },
            };
            if matches!(t, T::Other(_)) && (text.ends_with("[1]") || text.ends_with("++") || text.ends_with("--") || text.starts_with("++") || text.starts_with("--")) {
                // what built-in types overload is their business
                continue;
            }
            // What the element is matters to a loop over it.
            let st = if matches!(&t, T::List(k) if **k != T::No) && text.ends_with("[1]") {
                St::Line(format!("var/{} = {}", zz, text), vec![m])
            } else if !whole {
                St::Nest(text, vec![m], vec![St::Line("world.time".into(), vec![])])
            } else {
                x.w.embed(g, text, vec![m])
            };
            let mut sts = std::mem::take(&mut x.pre);
            sts.push(st);
            let mut sts = x.w.nest(g, sts);
            for (h, catch) in std::mem::take(&mut x.heads) {
                sts = vec![St::Nest(h, vec![], sts)];
                if catch {
                    sts.insert(0, St::Nest("try".into(), vec![], vec![St::Line("world.time".into(), vec![])]));
                }
            }
            let d = x.d;
            x.w.defs[d].body.extend(sts);
            if let Some(text) = due {
                dues.push(Due { mark: m, text });
            }
        }
    }
    let (rules, called) = (x.rules, x.calls);
    let mut w = x.w;
    let text = w.render(g);
    g.note(&text);
    g.nontrivial(rules >= 4 && asked.iter().any(|t| *t != T::No));
    g.label_if(called > 0, "declared return types");
    g.label_if(asked.iter().any(|t| matches!(t, T::List(_))), "lists");
    g.label_if(asked.contains(&T::No), "no type known");
    let want: Vec<(u32, String)> = dues.iter().map(|d| (w.sites[d.mark].line, d.text.clone())).collect();
    same(&diags(&check(&text)), &want, "type")
}

pub fn d08() -> Prop {
    Prop {
        id: "D08",
        rule: "four steps of deriving a type, and a value whose type is known",
        assumptions: &["what an override without a return type of its own returns is left open", "conditionals give the type of both sides, which agree"],
        subs: vec![Sub { name: "types", quick: 60000, thorough: 400000, run: types }],
    }
}
