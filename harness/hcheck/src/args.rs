//! D07: calls against the parameters of what they run.
use crate::world::*;
use engine::*;

const NAMES: &[&str] = &["alpha", "beta", "g0"];
const PARAMS: &[&str] = &["a", "b", "c", "d"];

fn value(g: &G) -> String {
    g.pick(&["1", "\"s\"", "world.time", "null", "list(1, 2)", "(world.time == 2)", "args[1]"]).to_string()
}

fn arguments(g: &G, known: &[String]) -> Vec<Arg> {
    let mut v: Vec<Arg> = vec![];
    for _ in 0..g.weighted(&[2, 3, 3, 2, 1]) {
        let key = if g.chance(3, 5) {
            let k = if !known.is_empty() && g.chance(3, 4) { g.pick(known).clone() } else { g.pick(PARAMS).to_string() };
            if v.iter().any(|a: &Arg| a.key.as_deref().is_some_and(|o| o.trim_matches('"') == k)) {
                continue;
            }
            Some(if g.chance(1, 6) { format!("\"{}\"", k) } else { k })
        } else {
            None
        };
        v.push(Arg { key, text: value(g) });
    }
    if g.chance(2, 3) {
        v.sort_by_key(|a| a.key.is_some());
    }
    v
}

fn name_ty(w: &World, t: Id) -> String {
    if t == ROOT { "(global)".into() } else { w.types[t].path.clone() }
}

fn calls(g: &G) -> R {
    let mut w = World::new();
    w.may_shift = true;
    w.gen_types(g, 7);
    let n = 1 + g.usize(NAMES.len());
    // sometimes types' procedures have the name of a built-in one
    let built_in = if g.chance(1, 5) { Some(*g.pick(&["animate", "animate", "flick", "view", "walk"])) } else { None };
    w.gen_defs(g, &NAMES[..n], 9, built_in.is_none() && g.chance(1, 3));
    if let Some(b) = built_in {
        w.gen_defs(g, &[b], 4, false);
    }
    w.gen_globals(g, 2);
    w.gen_namesakes(g, &NAMES[..n]);
    if g.chance(1, 3) {
        let t = *g.pick(&w.user_types());
        w.add_def(t, "New", false);
    }
    let users: Vec<Id> = (0..w.defs.len()).filter(|&d| !w.defs[d].builtin).collect();
    for &d in &users {
        // often those of the parent, a little changed
        let mut names: Vec<String> = match w.parent(d) {
            Some(p) if !w.defs[p].builtin && g.chance(2, 3) => {
                let mut v: Vec<String> = w.defs[p].params.iter().map(|p| p.name.clone()).collect();
                if g.chance(1, 3) && !v.is_empty() {
                    v.remove(g.usize(v.len()));
                }
                v
            },
            _ => vec![],
        };
        for _ in 0..g.weighted(&[3, 2, 2]) {
            let k = g.pick(PARAMS).to_string();
            if !names.contains(&k) {
                let i = g.usize(names.len() + 1);
                names.insert(i, k);
            }
        }
        w.defs[d].params = names.into_iter().map(|name| Param { name, ty: None }).collect();
    }
    for _ in 0..g.len(1, 12) {
        let d = *g.pick(&users);
        let any = |g: &G| match built_in {
            Some(b) if g.chance(1, 3) => b.to_string(),
            _ => g.pick(if g.chance(1, 8) { &["g1", "gone"] } else { &NAMES[..n] }).to_string(),
        };
        let from = w.defs[d].ty;
        let (kind, name): (Kind, String) = match g.usize(12) {
            0 => (Kind::Parent, String::new()),
            1 => (Kind::Dot, String::new()),
            2 => {
                let t = g.range(1, w.types.len() as i64 - 1) as usize;
                // what the built-in New() takes is not the point here
                if w.defs[w.lookup(t, "New").unwrap()].builtin {
                    continue;
                }
                (Kind::New(t), "New".into())
            },
            3 => (if g.bool() { Kind::Global } else { Kind::Scope }, any(g)),
            4 | 5 | 6 | 7 => {
                let m = any(g);
                let have: Vec<Id> = (1..w.types.len()).filter(|&t| w.member(t, &m).is_some()).collect();
                if have.is_empty() || g.chance(1, 10) {
                    (Kind::On(g.range(1, w.types.len() as i64 - 1) as usize), m)
                } else {
                    (Kind::On(*g.pick(&have)), m)
                }
            },
            _ => {
                let m = any(g);
                if w.lookup(from, &m).is_none() && !g.chance(1, 4) {
                    continue;
                }
                (Kind::Bare, m)
            },
        };
        if built_in == Some(name.as_str()) && (matches!(kind, Kind::Global | Kind::Scope) || matches!(kind, Kind::Bare) && w.lookup(from, &name).is_none()) {
            continue; // the built-in procedure
        }
        let site = Site { caller: d, kind: kind.clone(), name: name.clone(), args: vec![], spawned: false, line: 0, statement: false };
        let known: Vec<String> = w.callee(&site).map(|c| w.defs[c].params.iter().map(|p| p.name.clone()).collect()).unwrap_or_default();
        let a = arguments(g, &known);
        let e = w.element(g, d, kind, &name, a);
        w.defs[d].body.extend(e);
    }
    let text = w.render(g);
    g.note(&text);

    let mut want: Vec<(u32, String)> = vec![];
    // (type called on, name) -> keys
    let mut used: Vec<(Id, String, Id, Vec<String>)> = vec![];
    let mut keyed = 0;
    let mut undefined = 0;
    for s in w.sites.iter().filter(|s| s.kind != Kind::Mark) {
        let from = w.defs[s.caller].ty;
        let Some(callee) = w.callee(s) else {
            undefined += 1;
            want.push((
                s.line,
                match &s.kind {
                    Kind::Bare => format!("undefined proc: {:?} on {}", s.name, name_ty(&w, from)),
                    Kind::On(t) => format!("undefined proc: {:?} on {}", s.name, name_ty(&w, *t)),
                    Kind::Global => format!("undefined proc: {:?} on (global)", s.name),
                    Kind::Scope => format!("undefined global proc: {:?}", s.name),
                    Kind::Parent => format!("proc has no parent: {}", w.show(s.caller)),
                    _ => unreachable!(),
                },
            ));
            continue;
        };
        let mut after = false;
        for a in &s.args {
            let Some(k) = &a.key else {
                if after {
                    want.push((s.line, format!("proc called with non-kwargs after kwargs: {}()", w.defs[callee].name)));
                }
                continue;
            };
            after = true;
            keyed += 1;
            let k = k.trim_matches('"').to_string();
            if !w.defs[callee].params.iter().any(|p| p.name == k) {
                want.push((s.line, format!("bad keyword argument {:?} to {}", k, w.show(callee))));
                continue;
            }
            // calls which may be dispatched to an override
            let on = match &s.kind {
                Kind::Bare => from,
                Kind::On(t) => *t,
                _ => continue,
            };
            if w.defs[callee].ty == ROOT {
                continue;
            }
            match used.iter_mut().find(|u| u.0 == on && u.1 == s.name) {
                Some(u) => u.3.push(k),
                None => used.push((on, s.name.clone(), callee, vec![k])),
            }
        }
    }
    for (on, name, callee, keys) in &used {
        let mut n = 0;
        for t in 1..w.types.len() {
            if t == *on || !w.is_sub(t, *on) {
                continue;
            }
            let Some(d) = w.lookup(t, name) else { continue };
            if w.defs[d].ty == t && keys.iter().any(|k| !w.defs[d].params.iter().any(|p| p.name == *k)) {
                n += 1;
            }
        }
        let what = format!("{}/proc/{}", name_ty(&w, *on), name);
        match n {
            0 => {},
            1 => want.push((w.defs[*callee].line, format!("an override of {} is missing keyword args", what))),
            _ => want.push((w.defs[*callee].line, format!("{} overrides of {} are missing keyword args", n, what))),
        }
    }
    for d in 0..w.defs.len() {
        if let Some(p) = w.parent(d) {
            if !w.defs[p].builtin && w.defs[p].ty == w.defs[d].ty {
                want.push((w.defs[d].line, format!("redefining proc {}/{}", w.show_ty(w.defs[d].ty), w.defs[d].name)));
            }
        }
    }
    g.nontrivial(w.defs.len() >= 6 && w.sites.len() >= 4);
    g.label_if(keyed > 0, "keyword argument");
    g.label_if(undefined > 0, "undefined procedure");
    g.label_if(want.iter().any(|x| x.1.contains("missing keyword")), "override lacks a keyword");
    same(&diags(&check(&text)), &want, "call")
}

pub fn d07() -> Prop {
    Prop {
        id: "D07",
        rule: "at least four procedures and four calls",
        assumptions: &["keyword arguments of built-in procedures are not exercised", "receivers have a known static type"],
        subs: vec![Sub { name: "calls", quick: 60000, thorough: 400000, run: calls }],
    }
}
