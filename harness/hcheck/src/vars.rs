//! D04: variable declarations and accesses.
use crate::world::*;
use engine::*;

const NAMES: &[&str] = &["x0", "x1", "x2", "x3"];

#[derive(Clone)]
struct Entry {
    ty: Id,
    name: String,
    decl: bool,
    flags: Vec<&'static str>,
    mark: usize,
}

/// Variables built in on /atom that programs also touch.
const BUILTIN: &[&str] = &["name", "dir"];

struct Vars {
    entries: Vec<Entry>,
}

impl Vars {
    /// The declaration in force for a name on a type: its owner and flags.
    fn decl(&self, w: &World, ty: Id, name: &str) -> Option<(Id, Vec<&'static str>)> {
        self.member(w, ty, name).or_else(|| self.member(w, ROOT, name))
    }
    /// The same among the variables of objects of the type, so without the global ones.
    fn member(&self, w: &World, ty: Id, name: &str) -> Option<(Id, Vec<&'static str>)> {
        for t in w.chain(ty).into_iter().filter(|&t| ty == ROOT || t != ROOT) {
            if let Some(e) = self.entries.iter().find(|e| e.ty == t && e.name == name && e.decl) {
                return Some((t, e.flags.clone()));
            }
            if t == 2 && BUILTIN.contains(&name) {
                return Some((t, vec![]));
            }
        }
        None
    }
}

fn any_name(g: &G) -> String {
    if g.chance(1, 8) {
        g.pick(BUILTIN).to_string()
    } else {
        g.pick(NAMES).to_string()
    }
}

/// Something to report: at a mark's line.
struct Due {
    mark: usize,
    text: String,
}

struct Body<'a> {
    g: &'a G,
    vars: &'a Vars,
    d: Id,
    due: Vec<Due>,
    shadowed: bool,
}

impl Body<'_> {
    /// An access of a variable; the expression.
    fn access(&mut self, w: &mut World, scope: &[String], pre: &mut Vec<St>, on: &mut Vec<usize>) -> String {
        let g = self.g;
        let name = any_name(g);
        let m = w.mark(self.d, "access");
        on.push(m);
        let ty = w.defs[self.d].ty;
        match g.usize(10) {
            0 | 1 | 2 | 3 => {
                if scope.contains(&name) {
                    self.shadowed = true;
                } else if self.vars.decl(w, ty, &name).is_none() {
                    self.due.push(Due { mark: m, text: format!("undefined var: {:?}", name) });
                }
                name
            },
            4 => {
                let dotted = g.bool();
                if self.vars.decl(w, ROOT, &name).is_none() {
                    let text = if dotted { format!("undefined field: {:?} on (global)", name) } else { format!("undefined global var: {:?}", name) };
                    self.due.push(Due { mark: m, text });
                }
                format!("{}{}", if dotted { "global." } else { "::" }, name)
            },
            5 => {
                let t = g.range(1, w.types.len() as i64 - 1) as usize;
                if self.vars.member(w, t, &name).is_none() {
                    self.due.push(Due { mark: m, text: format!("undefined field: {:?} on {}", name, w.show_ty(t)) });
                }
                format!("{}::{}", w.types[t].path, name)
            },
            k => {
                let t = g.range(1, w.types.len() as i64 - 1) as usize;
                let x = w.value_of(g, self.d, t, pre, on, 0);
                if k == 9 && g.chance(1, 3) {
                    return format!("{}:{}", x, name);
                }
                match self.vars.member(w, t, &name) {
                    None => self.due.push(Due { mark: m, text: format!("undefined field: {:?} on {}", name, w.show_ty(t)) }),
                    Some((_, flags)) => {
                        if flags.contains(&"SpacemanDMM_private") && t != ty {
                            self.due.push(Due { mark: m, text: format!("field {:?} on {} is declared as private", name, w.show_ty(t)) });
                        } else if flags.contains(&"SpacemanDMM_protected") && !w.is_sub(ty, t) {
                            self.due.push(Due { mark: m, text: format!("field {:?} on {} is declared as protected", name, w.show_ty(t)) });
                        }
                    },
                }
                format!("{}{}{}", x, g.pick(&[".", ".", "?."]), name)
            },
        }
    }
    fn block(&mut self, w: &mut World, scope: &mut Vec<String>, depth: usize) -> Vec<St> {
        let g = self.g;
        let mut out = vec![];
        for _ in 0..1 + g.weighted(&[3, 3, 2, 1]) {
            let mut pre = vec![];
            let mut on = vec![];
            match g.usize(10) {
                0 | 1 => {
                    let n = g.pick(NAMES).to_string();
                    let st = if g.bool() {
                        let x = self.access(w, scope, &mut pre, &mut on);
                        format!("var/{} = {}", n, x)
                    } else {
                        format!("var/{}", n)
                    };
                    out.extend(pre);
                    out.push(St::Line(st, on));
                    scope.push(n);
                },
                2 | 3 | 4 if depth < 3 => {
                    let x = self.access(w, scope, &mut pre, &mut on);
                    let n = g.pick(NAMES).to_string();
                    let mut inner = scope.clone();
                    let mut second = None;
                    let head = match g.usize(11) {
                        9 | 10 if scope.iter().any(|o| *o != n) => {
                            let others: Vec<&String> = scope.iter().filter(|o| **o != n).collect();
                            let key = g.pick(&others).to_string();
                            inner.push(n.clone());
                            format!("for({}, {} in list({}))", key, n, x)
                        },
                        0 => format!("if(world.time == {})", x),
                        1 => format!("while({})", x),
                        2 => {
                            inner.push(n.clone());
                            format!("for(var/{} in list({}))", n, x)
                        },
                        3 => {
                            inner.push(n.clone());
                            format!("for(var/{} = {}, world.time, world.time)", n, x)
                        },
                        4 => {
                            inner.push(n.clone());
                            format!("for(var/{} in 1 to world.time + {})", n, x)
                        },
                        5 => {
                            let k = g.pick(NAMES).to_string();
                            let k = if k == n { "vv".into() } else { k };
                            inner.push(n.clone());
                            inner.push(k.clone());
                            format!("for(var/{}, {} in list({}))", n, k, x)
                        },
                        6 => format!("spawn(world.time + {})", x),
                        7 => {
                            second = Some(("else".to_string(), None));
                            format!("if(world.time == {})", x)
                        },
                        _ => {
                            // the block of the try does not see what is caught
                            pre.push(St::Line(format!("world.time + {}", x), std::mem::take(&mut on)));
                            second = Some((format!("catch(var/{})", n), Some(n.clone())));
                            "try".to_string()
                        },
                    };
                    let b = self.block(w, &mut inner, depth + 1);
                    out.extend(pre);
                    out.push(St::Nest(head, on, b));
                    if let Some((h, intro)) = second {
                        let mut inner = scope.clone();
                        inner.extend(intro);
                        let b = self.block(w, &mut inner, depth + 1);
                        out.push(St::Nest(h, vec![], b));
                    }
                },
                5 | 6 => {
                    let x = self.access(w, scope, &mut pre, &mut on);
                    // paths are not assignable
                    let st = if x.contains("::") { format!(". = {}", x) } else { format!("{} {} 1", x, g.pick(&["=", "+=", "-="])) };
                    out.extend(pre);
                    out.push(St::Line(st, on));
                },
                7 | 8 => {
                    let x = self.access(w, scope, &mut pre, &mut on);
                    let st = w.embed(g, x, on);
                    out.extend(pre);
                    out.push(st);
                },
                _ => {
                    let x = self.access(w, scope, &mut pre, &mut on);
                    let v = w.fresh("e");
                    let st = match g.usize(6) {
                        0 => format!(". = {}", x),
                        1 => format!("var/{} = list({}, 2)", v, x),
                        2 => format!("var/{} = \"a[{}]b\"", v, x),
                        3 => format!("var/{} = (world.time ? ({}) : 2)", v, x),
                        4 => format!("world.time + {}", x),
                        _ => format!("var/{} = max(1, {})", v, x),
                    };
                    out.extend(pre);
                    out.push(St::Line(st, on));
                },
            }
        }
        out
    }
}

fn variables(g: &G) -> R {
    let mut w = World::new();
    w.may_return = false;
    w.gen_types(g, 7);
    // a caller per entry, only to hang marks on
    let mut vars = Vars { entries: vec![] };
    for _ in 0..g.len(1, 10) {
        let ty = if g.chance(1, 8) {
            ROOT
        } else if g.chance(1, 6) {
            g.range(1, 6) as usize
        } else {
            *g.pick(&w.user_types())
        };
        let name = if ty < 7 { g.pick(NAMES).to_string() } else { any_name(g) };
        if vars.entries.iter().any(|e| e.ty == ty && e.name == name) {
            continue;
        }
        let decl = ty == ROOT || g.chance(3, 5);
        let flags: Vec<&'static str> = match g.usize(8) {
            _ if !decl || ty == ROOT => vec![],
            0 => vec!["final"],
            1 => vec!["SpacemanDMM_final"],
            2 | 3 => vec!["SpacemanDMM_private"],
            4 => vec!["SpacemanDMM_protected"],
            5 => vec![*g.pick(&["SpacemanDMM_protected", "SpacemanDMM_private", "final", "SpacemanDMM_final"]), *g.pick(&["static", "tmp", "global"])],
            _ => vec![],
        };
        let mark = w.mark(0, "entry");
        vars.entries.push(Entry { ty, name, decl, flags, mark });
    }
    for e in &vars.entries {
        let text = if e.decl {
            let f: String = e.flags.iter().map(|f| format!("/{}", f)).collect();
            format!("var{}/{}{}", f, e.name, if g.bool() { " = 3" } else { ";" })
        } else {
            format!("{} = {}", e.name, g.pick(&["4", "\"s\"", "null"]))
        };
        w.lines.push((e.ty, text, e.mark));
    }
    let mut dues: Vec<Due> = vec![];
    let mut shadowed = false;
    for i in 0..g.len(0, 4) {
        let ty = match g.usize(6) {
            0 => ROOT,
            1 => g.range(1, 6) as usize,
            _ => *g.pick(&w.user_types()),
        };
        let d = w.add_def(ty, &format!("work{}", i), true);
        let mut scope = vec![];
        if g.bool() {
            let n = g.pick(NAMES).to_string();
            w.defs[d].params.push(Param { name: n.clone(), ty: None });
            scope.push(n);
        }
        let mut b = Body { g, vars: &vars, d, due: vec![], shadowed: false };
        let sts = b.block(&mut w, &mut scope, 0);
        dues.extend(b.due);
        shadowed |= b.shadowed;
        w.defs[d].body = sts;
    }
    let text = w.render(g);
    g.note(&text);

    let mut want: Vec<(u32, String)> = dues.iter().map(|d| (w.sites[d.mark].line, d.text.clone())).collect();
    let mut broken = 0;
    for e in &vars.entries {
        if e.ty == ROOT {
            continue;
        }
        let line = w.sites[e.mark].line;
        let path = &w.types[e.ty].path;
        if vars.member(&w, e.ty, &e.name).is_none() {
            want.push((line, format!("undefined var '{}' on type '{}'", e.name, path)));
            broken += 1;
        }
        for a in w.chain(e.ty).into_iter().skip(1).filter(|&a| a != ROOT) {
            let builtin = a == 2 && BUILTIN.contains(&e.name.as_str());
            let other = vars.entries.iter().find(|o| o.ty == a && o.name == e.name && o.decl);
            if !builtin && other.is_none() {
                continue;
            }
            let flags = other.map(|o| o.flags.clone()).unwrap_or_default();
            if e.decl {
                want.push((line, format!("{} redeclares var {:?}", path, e.name)));
                broken += 1;
            }
            if flags.iter().any(|f| f.ends_with("final")) {
                want.push((line, format!("{} overrides final var {:?}", path, e.name)));
                broken += 1;
            }
            if flags.contains(&"SpacemanDMM_private") {
                want.push((line, format!("{} overrides private var {:?}", path, e.name)));
                broken += 1;
            }
        }
    }
    g.nontrivial(vars.entries.len() >= 3 && w.sites.len() >= 6);
    g.label_if(broken > 0, "a declaration breaks a rule");
    g.label_if(dues.iter().any(|d| d.text.starts_with("undefined")), "undefined name");
    g.label_if(dues.iter().any(|d| d.text.starts_with("field")), "guarded field");
    g.label_if(shadowed, "local hides a field");
    let ctx = check(&text);
    same(&diags(&ctx), &want, "var")
}

pub fn d04() -> Prop {
    Prop {
        id: "D04",
        rule: "three variables and at least three accesses",
        assumptions: &["private and protected variables are guarded where they are reached through a reference of known type"],
        subs: vec![Sub { name: "variables", quick: 60000, thorough: 400000, run: variables }],
    }
}
