//! D02 and D03: what is reachable through calls.
use crate::world::*;
use engine::*;
use std::collections::BTreeSet;

const NAMES: &[&str] = &["alpha", "beta", "gamma"];

/// A program with calls; the bodies also get the spots `op` writes.
fn program(g: &G, op: impl Fn(&G, &mut World, Id) -> Option<Vec<St>>) -> World {
    let mut w = World::new();
    w.dense = g.chance(1, 3);
    if w.dense {
        w.gen_line(g);
        w.gen_defs(g, &NAMES[..2 + g.usize(2)], 8, g.chance(1, 6));
        w.gen_globals(g, 2);
    } else {
        w.gen_types(g, 6);
        let n = 1 + g.usize(NAMES.len());
        w.gen_defs(g, &NAMES[..n], 5, g.chance(1, 4));
        w.gen_globals(g, 5);
    }
    w.gen_namesakes(g, NAMES);
    for _ in 0..if w.dense { 0 } else { g.weighted(&[3, 1, 1]) } {
        let t = *g.pick(&w.user_types());
        if !w.defs.iter().any(|d| d.ty == t && d.name == "New") {
            w.add_def(t, "New", false);
        }
    }
    let users: Vec<Id> = (0..w.defs.len()).filter(|&d| !w.defs[d].builtin).collect();
    for &d in &users {
        for _ in 0..g.weighted(&[3, 4, 3, 1]) {
            let sort = if w.dense { *g.pick(&[0, 0, 2, 3, 7, 9, 9, 9]) } else { g.usize(12) };
            let (kind, name): (Kind, String) = match sort {
                0 | 1 if w.parent(d).is_some() => (Kind::Parent, String::new()),
                2 => (Kind::Dot, String::new()),
                3 | 4 | 5 => {
                    let m = *g.pick(NAMES);
                    let have: Vec<Id> = (1..w.types.len()).filter(|&t| w.member(t, m).is_some()).collect();
                    if have.is_empty() {
                        continue;
                    }
                    (Kind::On(*g.pick(&have)), m.to_string())
                },
                6 => {
                    let t = g.range(1, w.types.len() as i64 - 1) as usize;
                    (if g.chance(1, 4) { Kind::On(t) } else { Kind::New(t) }, "New".into())
                },
                7 | 8 => {
                    let m = format!("g{}", g.usize(5));
                    if w.lookup(ROOT, &m).is_none() {
                        continue;
                    }
                    (if g.chance(1, 3) { g.pick(&[Kind::Global, Kind::Scope]).clone() } else { Kind::Bare }, m)
                },
                _ => {
                    let m = *g.pick(NAMES);
                    if w.lookup(w.defs[d].ty, m).is_none() {
                        continue;
                    }
                    (Kind::Bare, m.to_string())
                },
            };
            let e = w.element(g, d, kind, &name, vec![]);
            w.defs[d].body.extend(e);
        }
        while let Some(e) = op(g, &mut w, d) {
            if g.bool() {
                w.defs[d].body.extend(e);
            } else {
                w.defs[d].body.splice(0..0, e);
            }
        }
    }
    w
}

/// Definitions that fall under a directive that covers overrides.
fn covered(w: &World, set: &BTreeSet<Id>) -> BTreeSet<Id> {
    (0..w.defs.len()).filter(|&d| w.ancestors(d).iter().any(|a| set.contains(a))).collect()
}

fn sleep_op(g: &G, w: &mut World, d: Id) -> Option<Vec<St>> {
    if !g.chance(1, if w.dense { 12 } else { 4 }) {
        return None;
    }
    let mut pre = vec![];
    let client = |w: &mut World, pre: &mut Vec<St>| {
        let c = w.fresh("c");
        pre.push(St::Line(format!("var/client/{}", c), vec![]));
        c
    };
    let decoy = g.chance(1, 4);
    let x = if decoy {
        match g.usize(6) {
            0 => "\"[world.time] sleep(1)\"".into(),
            1 => "winset(usr, \"a\", \"b\")".into(),
            2 => "world.time".into(),
            3 => format!("{}.Click()", client(w, &mut pre)),
            4 => "usr:sleep(1)".to_string(),
            _ => "prob(50)".into(),
        }
    } else {
        match g.usize(10) {
            0 | 1 => "sleep(1)".into(),
            2 => "alert(\"x\")".into(),
            3 => "shell(\"x\")".into(),
            4 => "winexists(usr, \"x\")".into(),
            5 => "winget(usr, \"a\", \"b\")".into(),
            6 => g.pick(&["input(\"x\")", "(input(\"x\") as text)", "(input(\"x\") in list(1))"]).to_string(),
            7 => format!("{}.SoundQuery()", client(w, &mut pre)),
            8 => format!("{}.MeasureText(\"x\")", client(w, &mut pre)),
            _ => g.pick(&["world.Import()", "world.Export(\"x\")"]).to_string(),
        }
    };
    let m = w.mark(d, if decoy { "decoy" } else { "sleep" });
    let st = w.embed(g, x, vec![m]);
    pre.push(st);
    Some(w.nest(g, pre))
}

type State = (Id, Id, bool);

fn sleeping(g: &G) -> R {
    let mut w = program(g, sleep_op);
    let mut must: BTreeSet<Id> = BTreeSet::new();
    let mut exempt: BTreeSet<Id> = BTreeSet::new();
    let mut wait: BTreeSet<Id> = BTreeSet::new();
    let decls: Vec<Id> = (0..w.defs.len()).filter(|&d| w.defs[d].decl && !w.defs[d].builtin).collect();
    for &d in &decls {
        match if w.dense { g.weighted(&[7, 2, 0]) } else { g.weighted(&[5, 4, 1]) } {
            1 => {
                w.defs[d].sets.push(format!("set SpacemanDMM_should_not_sleep = {}", g.pick(&["1", "TRUE"])));
                must.insert(d);
            },
            2 => {
                w.defs[d].sets.push("set SpacemanDMM_allowed_to_sleep = TRUE".into());
                exempt.insert(d);
            },
            _ => {},
        }
    }
    let roots = covered(&w, &must);
    for d in 0..w.defs.len() {
        if !w.defs[d].builtin && !roots.contains(&d) && g.chance(1, 8) {
            let off = g.chance(3, 4);
            w.defs[d].sets.push(format!("set waitfor = {}", g.pick(if off { &["0", "FALSE"] } else { &["1", "TRUE"] })));
            if off {
                wait.insert(d);
            }
        }
    }
    let text = w.render(g);
    g.note(&text);

    // ---- what is reachable
    let sleeps: BTreeSet<Id> = w.sites.iter().filter(|s| s.name == "sleep" && !s.spawned).map(|s| s.caller).collect();
    let step = |d: Id, recv: Id| -> Vec<State> {
        w.sites
            .iter()
            .filter(|s| s.caller == d && !s.spawned)
            .filter_map(|s| {
                let e = w.callee(s)?;
                Some(match s.kind {
                    Kind::Bare => (e, recv, false),
                    Kind::Parent | Kind::Dot => (e, recv, true),
                    Kind::Global | Kind::Scope => (e, ROOT, true),
                    Kind::New(t) => (e, t, true),
                    Kind::On(t) => (e, t, false),
                    Kind::Mark => unreachable!(),
                })
            })
            .collect()
    };
    let stops = |d: Id| wait.contains(&d) || exempt.contains(&d) || roots.contains(&d);
    let reach = |root: Id| -> BTreeSet<Id> {
        let mut seen: BTreeSet<State> = BTreeSet::new();
        let mut todo = step(root, w.defs[root].ty);
        let mut found = BTreeSet::new();
        while let Some((d, recv, exact)) = todo.pop() {
            if stops(d) || !seen.insert((d, recv, exact)) {
                continue;
            }
            if sleeps.contains(&d) {
                found.insert(d);
                continue;
            }
            if !exact && w.defs[d].ty != ROOT {
                for t in 0..w.types.len() {
                    if w.is_sub(t, recv) {
                        if let Some(c) = w.lookup(t, &w.defs[d].name).filter(|&c| w.defs[c].ty == t) {
                            todo.push((c, t, true));
                        }
                    }
                }
            }
            todo.extend(step(d, recv));
        }
        found
    };
    let mut expected: BTreeSet<Id> = BTreeSet::new();
    let mut shared = false;
    for &r in &roots {
        for s in reach(r) {
            shared |= !expected.insert(s);
        }
    }
    g.nontrivial(!roots.is_empty() && !sleeps.is_empty() && w.sites.len() >= 4);
    g.label_if(!expected.is_empty(), "a sleeper is reachable");
    g.label_if(shared, "two procedures reach one sleeper");
    g.label_if(roots.iter().any(|r| sleeps.contains(r)), "sleeps itself");
    g.label_if(!wait.is_empty() || !exempt.is_empty(), "stops present");
    g.label_if(roots.len() > must.len(), "inherited requirement");

    let ctx = check(&text);
    let mut direct: BTreeSet<Id> = BTreeSet::new();
    let mut named: BTreeSet<Id> = BTreeSet::new();
    for (line, desc) in diags(&ctx) {
        let Some(d) = (0..w.defs.len()).find(|&d| !w.defs[d].builtin && w.defs[d].line == line) else {
            return fail("sleep:elsewhere", format!("line {}: {}", line, desc));
        };
        if desc.starts_with("redefining proc ") {
            continue;
        }
        ensure!(desc.starts_with(&format!("{} ", w.show(d))), "sleep:text", "line {}: {}", line, desc);
        ensure!(roots.contains(&d), "sleep:not-required", "{} is not required not to sleep, but: {}", w.show(d), desc);
        if desc.ends_with("calls blocking built-in(s)") {
            ensure!(direct.insert(d), "sleep:twice", "{}", desc);
            continue;
        }
        ensure!(
            desc.contains(" sets SpacemanDMM_should_not_sleep but calls blocking proc ") || desc.contains(" which has override child proc that sleeps ") || desc.contains(" sets SpacemanDMM_should_not_sleep but has override child proc that sleeps "),
            "sleep:text",
            "{}",
            desc
        );
        let last = desc.rsplit(' ').next().unwrap();
        let Some(s) = (0..w.defs.len()).find(|&s| w.show(s) == last) else {
            return fail("sleep:text", desc);
        };
        ensure!(reach(d).contains(&s), "sleep:unreachable", "{:?}: a sleep in {} cannot be reached from {}", desc, w.show(s), w.show(d));
        named.insert(s);
    }
    for &r in &roots {
        ensure_eq!(direct.contains(&r), sleeps.contains(&r), "sleep:direct", "report that {} itself sleeps", w.show(r));
    }
    for &s in &expected {
        ensure!(named.contains(&s), "sleep:missed", "the sleep in {} can be reached from {}, and is not reported", w.show(s), roots.iter().filter(|&&r| reach(r).contains(&s)).map(|&r| w.show(r)).collect::<Vec<_>>().join(", "));
    }
    Ok(())
}

pub fn d02() -> Prop {
    Prop {
        id: "D02",
        rule: "a procedure that must not sleep, a sleeping operation, and at least four calls or operations",
        assumptions: &["a sleeping procedure several others lead to is reported once, under one of them"],
        subs: vec![Sub { name: "sleeping", quick: 60000, thorough: 400000, run: sleeping }],
    }
}

/// An operation with or without effects outside the procedure.
fn effect(g: &G, w: &mut World, d: Id) -> Option<Vec<St>> {
    if !g.chance(1, 3) {
        return None;
    }
    let ty = w.defs[d].ty;
    let mut pre = vec![];
    let impure = g.bool();
    let line = |s: String| St::Line(s, vec![]);
    // the thing written to
    let user = *g.pick(&w.user_types());
    let shape = g.usize(8);
    let target = |g: &G, w: &mut World, pre: &mut Vec<St>| -> String {
        if impure {
            match g.usize(9) {
                0 => {
                    let v = w.fresh("p");
                    w.defs[d].params.push(Param { name: format!("{}{}", v, g.pick(&["", " = 3", " as num"])), ty: None });
                    v
                },
                1 if ty != ROOT => {
                    let f = w.fresh("h");
                    let at = *g.pick(&w.chain(ty).into_iter().filter(|&c| c != ROOT).collect::<Vec<_>>());
                    w.types[at].vars.push(format!("var/{}", f));
                    f
                },
                2 | 3 => {
                    let v = w.fresh("u");
                    w.untyped_globals.push(v.clone());
                    if g.bool() {
                        v
                    } else {
                        format!("global.{}", v)
                    }
                },
                4 if shape < 3 => "args[1]".into(),
                5 if ty != ROOT => {
                    let f = w.fresh("h");
                    let at = *g.pick(&w.chain(ty).into_iter().filter(|&c| c != ROOT).collect::<Vec<_>>());
                    w.types[at].vars.push(format!("var/{}", f));
                    format!("src.{}", f)
                },
                6 => {
                    // a field of what a parameter refers to
                    let v = w.fresh("p");
                    w.defs[d].params.push(Param { name: v.clone(), ty: Some(user) });
                    let f = w.fresh("h");
                    w.types[user].vars.push(format!("var/{}", f));
                    format!("{}{}{}", v, g.pick(&[".", "?."]), f)
                },
                7 => {
                    let v = w.fresh("u");
                    w.globals.push((v.clone(), user));
                    let f = w.fresh("h");
                    w.types[user].vars.push(format!("var/{}", f));
                    format!("{}.{}", v, f)
                },
                _ => {
                    let v = w.fresh("u");
                    w.untyped_globals.push(format!("list/{}", v));
                    format!("{}[{}]", v, g.pick(&["1", "\"k\""]))
                },
            }
        } else {
            match g.usize(5) {
                0 => ".".into(),
                1 => {
                    let v = w.fresh("x");
                    pre.push(line(format!("var/list/{} = list()", v)));
                    format!("{}[2]", v)
                },
                2 => {
                    let v = w.fresh("x");
                    pre.push(line(format!("{}/{} = new", w.ty_decl(user), v)));
                    // the constructor is a call of its own
                    let m = w.sites.len();
                    w.sites.push(Site { caller: d, kind: Kind::New(user), name: "New".into(), args: vec![], spawned: false, line: 0, statement: false });
                    if let Some(St::Line(_, k)) = pre.last_mut() {
                        k.push(m)
                    }
                    let f = w.fresh("h");
                    w.types[user].vars.push(format!("var/{}", f));
                    format!("{}.{}", v, f)
                },
                _ => {
                    let v = w.fresh("x");
                    pre.push(line(format!("var/{} = 4", v)));
                    v
                },
            }
        }
    };
    let x = match shape {
        0 | 1 => format!("{} = {}", target(g, w, &mut pre), g.range(0, 9)),
        2 => format!("{} {} {}", target(g, w, &mut pre), g.pick(&["+=", "-=", "|=", "*=", "||=", "&&=", "<<=", "%%="]), g.range(0, 9)),
        3 => format!("{}{}", target(g, w, &mut pre), g.pick(&["++", "--"])),
        4 => format!("{}{}", g.pick(&["++", "--"]), target(g, w, &mut pre)),
        5 => {
            // output, or a shift that only looks like it
            if impure {
                g.pick(&["world << \"x\"", "usr << \"x\"", "world.log << 5"]).to_string()
            } else {
                format!("{} << 2", target(g, w, &mut pre))
            }
        },
        _ => {
            if impure {
                format!("{} = {}", target(g, w, &mut pre), g.range(0, 9))
            } else {
                let t = w.fresh("p");
                w.defs[d].params.push(Param { name: t.clone(), ty: None });
                g.pick(&["TT == 5", "TT + 1", "-TT", "!TT", "max(TT, 2)", "list(TT)", "(TT ? 1 : 2)", "(TT in list(1))"]).replace("TT", &t)
            }
        },
    };
    let m = w.mark(d, if impure { "impure" } else { "pure" });
    let assign = x.contains('=') && !x.contains("==");
    // an expression statement, or the value used in another one
    let st = if x.contains("<<") && !x.contains("<<=") || assign {
        line_or(g, w, x, m, assign)
    } else {
        w.embed(g, x, vec![m])
    };
    pre.push(st);
    Some(w.nest(g, pre))
}

fn line_or(g: &G, w: &mut World, x: String, m: usize, assign: bool) -> St {
    if assign && g.chance(1, 3) {
        let v = w.fresh("e");
        return match g.usize(4) {
            0 => St::Line(format!("var/{} = max(({}), 1)", v, x), vec![m]),
            1 => St::Nest(format!("while(world.time == ({}))", x), vec![m], vec![St::Line("break".into(), vec![])]),
            2 => St::Line(format!("var/{} = world.time ? ({}) : 3", v, x), vec![m]),
            _ => St::Line(format!("var/{} = \"a[{}]b\"", v, x), vec![m]),
        };
    }
    St::Line(x, vec![m])
}

fn purity(g: &G) -> R {
    let mut w = program(g, effect);
    let mut must: BTreeSet<Id> = BTreeSet::new();
    let decls: Vec<Id> = (0..w.defs.len()).filter(|&d| w.defs[d].decl && !w.defs[d].builtin).collect();
    for &d in &decls {
        if g.chance(2, 5) {
            w.defs[d].sets.push(format!("set SpacemanDMM_should_be_pure = {}", g.pick(&["1", "TRUE"])));
            must.insert(d);
        }
    }
    let text = w.render(g);
    g.note(&text);

    let roots = covered(&w, &must);
    let impure: BTreeSet<Id> = w.sites.iter().filter(|s| s.name == "impure" && s.kind == Kind::Mark).map(|s| s.caller).collect();
    // impure overrides count against what they override, constructors aside
    let overrides = |d: Id| -> Vec<Id> { (0..w.defs.len()).filter(|&c| c != d && impure.contains(&c) && w.defs[c].name != "New" && w.ancestors(c).contains(&d)).collect() };
    let calls = |d: Id| -> Vec<Id> { w.sites.iter().filter(|s| s.caller == d).filter_map(|s| w.callee(s)).collect() };
    let mut want: BTreeSet<(u32, String)> = BTreeSet::new();
    for &r in &roots {
        if w.defs[r].builtin {
            continue;
        }
        let line = w.defs[r].line;
        if impure.contains(&r) {
            want.insert((line, format!("{} does impure operations", w.show(r))));
        }
        let mut seen: BTreeSet<Id> = BTreeSet::new();
        let mut todo = calls(r);
        while let Some(d) = todo.pop() {
            if !seen.insert(d) {
                continue;
            }
            if impure.contains(&d) {
                want.insert((line, format!("{} sets SpacemanDMM_should_be_pure but calls a {} that does impure operations", w.show(r), w.show(d))));
            } else {
                for c in overrides(d) {
                    // on our own object, only overrides at or below our type can run
                    if w.is_sub(w.defs[r].ty, w.defs[d].ty) && !w.is_sub(w.defs[c].ty, w.defs[r].ty) {
                        continue;
                    }
                    want.insert((line, format!("{} calls {} which has override child proc that does impure operations {}", w.show(r), w.show(d), w.show(c))));
                }
            }
            todo.extend(calls(d));
        }
    }
    let transitive = want.iter().any(|x| x.1.contains(" calls "));
    for s in &w.sites {
        if s.kind == Kind::Bare && s.statement && w.callee(s).is_some_and(|d| roots.contains(&d)) {
            want.insert((s.line, format!("call to pure proc {} discards return value", s.name)));
        }
    }
    g.nontrivial(!roots.is_empty() && !impure.is_empty() && w.sites.len() >= 4);
    g.label_if(!want.is_empty(), "a report is due");
    g.label_if(transitive, "through a call");
    g.label_if(want.iter().any(|x| x.1.contains("override child")), "through an override");
    g.label_if(want.iter().any(|x| x.1.contains("discards")), "discarded value");
    let ctx = check(&text);
    let got: Vec<(u32, String)> = diags(&ctx).into_iter().filter(|x| !x.1.starts_with("redefining proc ")).collect();
    same(&got, &want.into_iter().collect::<Vec<_>>(), "pure")
}

pub fn d03() -> Prop {
    Prop {
        id: "D03",
        rule: "a procedure that must be pure, an operation with effects, and at least four calls or operations",
        assumptions: &["writes through a local variable are not followed to what it refers to"],
        subs: vec![Sub { name: "purity", quick: 60000, thorough: 400000, run: purity }],
    }
}
