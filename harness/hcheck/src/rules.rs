//! D01: procedure directives, and private and protected procedures.
use crate::world::*;
use engine::*;

const NAMES: &[&str] = &["alpha", "beta", "gamma"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dir {
    CallParent,
    NotCallParent,
    NotOverride,
    Private,
    Protected,
    Redefine,
}
use Dir::*;

impl Dir {
    fn name(self) -> &'static str {
        match self {
            CallParent => "SpacemanDMM_should_call_parent",
            NotCallParent => "SpacemanDMM_should_not_call_parent",
            NotOverride => "SpacemanDMM_should_not_override",
            Private => "SpacemanDMM_private_proc",
            Protected => "SpacemanDMM_protected_proc",
            Redefine => "SpacemanDMM_can_be_redefined",
        }
    }
    fn can_be_disabled(self) -> bool {
        matches!(self, CallParent | NotCallParent)
    }
    fn at_definition(self) -> bool {
        matches!(self, Private | Protected)
    }
}
const ALL: &[Dir] = &[CallParent, NotCallParent, NotOverride, Private, Protected, Redefine];

/// One of the leading settings of a definition.
struct Set {
    def: Id,
    what: What,
}
enum What {
    Directive(Dir, bool),
    /// a directive whose value is neither true nor false
    Unclear(Dir),
    /// another setting, with the complaint due
    Plain(Option<String>),
}

/// A setting that is no directive, and what is wrong with it.
fn plain(g: &G) -> (String, Option<String>) {
    let (name, value, wrong) = match g.usize(6) {
        0 | 1 => {
            let name = *g.pick(&["background", "waitfor", "hidden", "instant", "popup_menu"]);
            let ok = g.chance(3, 4);
            let value = if ok { *g.pick(&["0", "1", "TRUE", "FALSE"]) } else { *g.pick(&["2", "null", "\"1\"", "-1", "1.5", "world.time", "1 + 0"]) };
            (name, value.to_string(), (!ok).then(|| format!("set {} must be 0/1/TRUE/FALSE", name)))
        },
        2 => {
            let name = *g.pick(&["name", "category", "desc"]);
            let ok = g.chance(3, 4);
            let value = if ok { *g.pick(&["\"x\"", "\"\"", "\"a [world.time] b\""]) } else { *g.pick(&["2", "null", "1.5", "'a.dmi'", "/datum"]) };
            let ok = ok || (name == "category" && value == "null");
            (name, value.to_string(), (!ok).then(|| format!("set {} must have a string value", name)))
        },
        3 | 4 => {
            let n = g.pick(&[0, 1, 50, 99, 100, 101, 1000, -1]).to_owned();
            let other = g.chance(1, 5);
            let value = if other { g.pick(&["\"5\"", "null", "world.time", "4.5"]).to_string() } else { n.to_string() };
            ("invisibility", value, (other || !(0..=100).contains(&n)).then(|| "set invisibility must be 0-100".to_string()))
        },
        5 if g.bool() => {
            let name = *g.pick(&["SpacemanDMM_private", "SpacemanDMM_Private_proc", "SpacemanDMM_"]);
            (name, "1".to_string(), Some(format!("unknown linter setting {:?}", name)))
        },
        _ => {
            let name = *g.pick(&["backgrounds", "Name", "invisible", "spacemandmm_private_proc", "wait_for"]);
            (name, "1".to_string(), Some(format!("unknown setting {:?}", name)))
        },
    };
    (format!("set {} = {}", name, value), wrong)
}

/// Directives in force per definition, and the complaints about the settings themselves
/// (by definition and position among its settings).
struct Force {
    on: Vec<(Id, Dir, bool)>,
}
impl Force {
    fn get(&self, d: Id, dir: Dir) -> Option<bool> {
        self.on.iter().find(|x| x.0 == d && x.1 == dir).map(|x| x.2)
    }
    /// Nearest definition, from `d` towards the ancestors, that says something.
    fn nearest(&self, w: &World, d: Id, dir: Dir) -> Option<(Id, bool)> {
        w.ancestors(d).into_iter().find_map(|a| self.get(a, dir).map(|v| (a, v)))
    }
}

fn directives(g: &G) -> R {
    let mut w = World::new();
    w.gen_types(g, 7);
    let n = 1 + g.usize(NAMES.len());
    w.gen_defs(g, &NAMES[..n], 6, true);
    w.gen_globals(g, 2);
    w.gen_namesakes(g, &NAMES[..n]);
    if w.lookup(ROOT, "g0").is_some() && g.chance(1, 8) {
        w.add_def(ROOT, "g0", false);
    }
    if g.chance(1, 3) {
        let t = *g.pick(&w.user_types());
        w.add_def(t, "New", false);
    }
    // directives
    let mut sets: Vec<Set> = vec![];
    let dense = g.bool();
    let users: Vec<Id> = (0..w.defs.len()).filter(|&d| !w.defs[d].builtin).collect();
    for &d in &users {
        let decl = w.defs[d].decl;
        for _ in 0..(if decl { g.weighted(&[1, 3, 2]) } else { g.weighted(&[if dense { 3 } else { 9 }, 2, 1]) }) {
            let dir = *g.pick(ALL);
            if dir.at_definition() && !decl && !g.chance(1, 4) {
                continue;
            }
            if g.chance(1, 5) {
                let (text, due) = plain(g);
                w.defs[d].sets.push(text);
                sets.push(Set { def: d, what: What::Plain(due) });
            }
            let on = if dir.can_be_disabled() { g.chance(2, 3) } else { g.chance(9, 10) };
            if g.chance(1, 30) {
                w.defs[d].sets.push(format!("set {} = {}", dir.name(), g.pick(&["2", "-1", "null", "\"1\"", "1.5", "world.time", "(1 + 0)", "true"])));
                sets.push(Set { def: d, what: What::Unclear(dir) });
                continue;
            }
            w.defs[d].sets.push(format!("set {} {} {}", dir.name(), "=", g.pick(if on { &["1", "TRUE"] } else { &["0", "FALSE"] })));
            sets.push(Set { def: d, what: What::Directive(dir, on) });
        }
        if decl && w.defs[d].ty != ROOT && g.chance(1, 8) {
            w.defs[d].fin = true;
        }
    }
    // bodies
    let mut late: Vec<(Id, Dir, usize)> = vec![];
    let mut calls_parent = vec![false; w.defs.len()];
    for &d in &users {
        for _ in 0..g.weighted(&[2, 3, 2, 1]) {
            let (kind, name): (Kind, String) = match g.usize(10) {
                0 | 1 | 2 if w.parent(d).is_some() => (Kind::Parent, String::new()),
                3 => (Kind::Dot, String::new()),
                4 | 5 | 6 => {
                    let m = *g.pick(NAMES);
                    let have: Vec<Id> = (1..w.types.len()).filter(|&t| w.member(t, m).is_some()).collect();
                    if have.is_empty() {
                        continue;
                    }
                    (Kind::On(*g.pick(&have)), m.to_string())
                },
                7 => {
                    let t = g.range(1, w.types.len() as i64 - 1) as usize;
                    (Kind::New(t), "New".into())
                },
                8 if w.lookup(ROOT, "g0").is_some() => (if g.bool() { Kind::Global } else { Kind::Bare }, "g0".into()),
                _ => {
                    let m = *g.pick(NAMES);
                    if w.lookup(w.defs[d].ty, m).is_none() {
                        continue;
                    }
                    (Kind::Bare, m.to_string())
                },
            };
            if kind == Kind::Parent {
                calls_parent[d] = true;
            }
            let e = w.element(g, d, kind, &name, vec![]);
            w.defs[d].body.extend(e);
        }
        if !w.defs[d].body.is_empty() && g.chance(1, 12) {
            let dir = *g.pick(ALL);
            // a setting that comes too late has no effect
            let i = w.mark(d, "late");
            let st = vec![St::Line(format!("set {} = 1", dir.name()), vec![i])];
            let st = if g.bool() { st } else { w.wrap(g, st).0 };
            w.defs[d].body.extend(st);
            late.push((d, dir, i));
        }
    }
    calls_parent.resize(w.defs.len(), false);
    let text = w.render(g);
    g.note(&text);

    // ---- what applies
    let mut want: Vec<(u32, String)> = vec![];
    for (_, _, i) in &late {
        want.push((w.sites[*i].line, "set statement not at the top of the proc".into()));
    }
    let mut unclear: Vec<u32> = vec![];
    let mut force = Force { on: vec![] };
    for d in 0..w.defs.len() {
        if w.defs[d].builtin {
            continue;
        }
        let own_decl_final = (0..w.defs.len()).any(|e| w.defs[e].ty == w.defs[d].ty && w.defs[e].name == w.defs[d].name && w.defs[e].decl && w.defs[e].fin);
        if own_decl_final {
            force.on.push((d, NotOverride, true));
        }
        for (k, s) in sets.iter().filter(|s| s.def == d).enumerate() {
            let line = w.defs[d].line + 1 + k as u32;
            let (dir, on) = match &s.what {
                What::Directive(dir, on) => (*dir, *on),
                What::Unclear(dir) if dir.at_definition() && w.declaration(d).is_some_and(|e| e != d) => (*dir, true),
                What::Unclear(_) => {
                    // the value is quoted in the checker's own terms
                    unclear.push(line);
                    continue;
                },
                What::Plain(due) => {
                    want.extend(due.clone().map(|due| (line, due)));
                    continue;
                },
            };
            if dir.at_definition() && w.declaration(d).is_some_and(|e| e != d) {
                want.push((line, format!("Can't define procs {} outside their initial definition", dir.name())));
            } else if w.defs[d].ty == ROOT {
                want.push((line, format!("{} sets {}, which cannot be set on global procs", w.show(d), dir.name())));
            } else if !on && !dir.can_be_disabled() {
                want.push((line, format!("{} sets {} false, but it cannot be disabled.", w.show(d), dir.name())));
            } else if force.get(d, dir).is_some() {
                want.push((line, format!("{} sets {} twice", w.show(d), dir.name())));
            } else {
                force.on.push((d, dir, on));
            }
        }
    }
    let mut enforced = 0;
    for d in 0..w.defs.len() {
        let Some(parent) = w.parent(d) else { continue };
        if w.defs[d].builtin {
            continue;
        }
        let line = w.defs[d].line;
        let before = want.len();
        if let Some((p, true)) = force.nearest(&w, d, Private) {
            if p != d {
                want.push((line, format!("proc overrides private parent, prohibited by {}", w.show(p))));
            }
        }
        if let Some((p, true)) = force.nearest(&w, d, NotOverride) {
            if p != d {
                want.push((line, format!("proc overrides parent, prohibited by {}", w.show(p))));
            }
        }
        if calls_parent[d] {
            // only the direct parent's word counts; the definition itself can opt out
            if force.get(d, NotCallParent) != Some(false) && force.get(parent, NotCallParent) == Some(true) {
                want.push((line, format!("proc calls parent, prohibited by {}", w.show(parent))));
            }
        } else if let Some((p, true)) = force.nearest(&w, d, CallParent) {
            want.push((line, format!("proc never calls parent, required by {}", w.show(p))));
        }
        if !w.defs[parent].builtin && w.defs[parent].ty == w.defs[d].ty && force.nearest(&w, d, Redefine).is_none() {
            want.push((line, format!("redefining proc {}/{}", if w.defs[d].ty == ROOT { "(global)".into() } else { w.show_ty(w.defs[d].ty) }, w.defs[d].name)));
        }
        enforced += want.len() - before;
    }
    let mut guarded = 0;
    for s in &w.sites {
        let Some(callee) = w.callee(s) else { continue };
        let from = w.defs[s.caller].ty;
        let private = match force.nearest(&w, callee, Private) {
            Some((p, true)) => Some(p),
            _ => None,
        };
        if let Some(p) = private {
            guarded += 1;
            let wrong_receiver = matches!(s.kind, Kind::On(t) if t != w.defs[p].ty);
            if wrong_receiver || from != w.defs[p].ty {
                want.push((s.line, format!("{} attempting to call private proc {}, types do not match", w.show(s.caller), w.show(p))));
            }
            if wrong_receiver {
                continue;
            }
        }
        if let Kind::On(_) = s.kind {
            if let Some((p, true)) = force.nearest(&w, callee, Protected) {
                guarded += 1;
                if !w.is_sub(from, w.defs[p].ty) {
                    want.push((s.line, format!("{} attempting to call protected proc {}", w.show(s.caller), w.show(p))));
                }
            }
        }
    }
    g.nontrivial(w.defs.len() >= 6 && !force.on.is_empty());
    g.label_if(enforced > 0, "a directive is broken");
    g.label_if(guarded > 0, "guarded call");
    g.label_if(force.on.iter().any(|x| !x.2), "directive switched off");
    g.label_if(w.types.iter().any(|t| t.redirect), "parent_type set");
    let ctx = check(&text);
    let mut got = diags(&ctx);
    for line in unclear {
        let i = got.iter().position(|d| d.0 == line && d.1.starts_with("invalid value for set "));
        ensure!(i.is_some(), "directive:value", "line {}: a value neither true nor false is not reported", line);
        got.remove(i.unwrap());
    }
    same(&got, &want, "directive")
}

pub fn d01() -> Prop {
    Prop {
        id: "D01",
        rule: "at least four procedures and one directive in force",
        assumptions: &[
            "private and protected apply where the receiver's static type is known",
        ],
        subs: vec![Sub { name: "directives", quick: 60000, thorough: 400000, run: directives }],
    }
}
