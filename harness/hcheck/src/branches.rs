//! D05: unreachable code and constant conditions.
use crate::world::{check, diags};
use engine::*;

/// A condition: its text, its value when it is a constant, and what must be said about it.
#[derive(Clone)]
struct Cond {
    text: String,
    /// What it always is.
    value: Option<bool>,
    /// Whether the checker has to notice.
    noticed: bool,
    /// "static term" or "constant evalutation" where the condition has one of these forms.
    form: Option<&'static str>,
    /// Made of constants only.
    constant: bool,
}

fn literal(g: &G) -> (String, bool) {
    let (s, v) = *g.pick(&[
        ("0", false),
        ("1", true),
        ("7", true),
        ("0.5", true),
        ("0.0", false),
        ("\"\"", false),
        ("\"a\"", true),
        ("null", false),
        ("/obj", true),
        ("5", true),
    ]);
    (s.to_string(), v)
}

fn opaque(g: &G) -> String {
    g.pick(&["a", "b > 3", "prob(50)", "world.time", "!a", "a == b", "f()", "(a + 1)", "istype(a, /obj)", "a ? b : 3"]).to_string()
}

fn cond(g: &G) -> Cond {
    let free = |text: String| Cond { text, value: None, noticed: false, form: None, constant: false };
    if !g.chance(1, 6) {
        return free(opaque(g));
    }
    const STATIC: &str = "control flow condition is a static term";
    const CONST: &str = "control flow condition is a constant evalutation";
    let sure = |text: String, v: bool, form: Option<&'static str>, constant: bool| Cond { text, value: Some(v), noticed: true, form, constant };
    let (l, lv) = literal(g);
    let (r, rv) = literal(g);
    match g.usize(9) {
        0 | 1 => sure(l, lv, Some(STATIC), true),
        2 => sure(format!("!{}", l), !lv, None, true),
        3 => sure(format!("{} && {}", l, r), lv && rv, Some(CONST), true),
        4 => sure(format!("{} || {}", l, r), lv || rv, Some(CONST), true),
        5 => {
            let (x, y) = (g.range(0, 3), g.range(0, 3));
            let (op, v) = *g.pick(&[("<", x < y), ("<=", x <= y), (">", x > y), (">=", x >= y), ("==", x == y), ("!=", x != y)]);
            Cond { text: format!("{} {} {}", x, op, y), value: Some(v), noticed: false, form: Some(CONST), constant: true }
        },
        6 => sure("list(a)".into(), true, None, false),
        7 => sure(format!("{} && !{} && {}", l, r, l), lv && !rv && lv, None, true),
        _ => {
            let f = g.bool();
            let (o, v) = if f { ("&& 0", false) } else { ("|| 1", true) };
            Cond { text: format!("a {}", o), value: Some(v), noticed: false, form: None, constant: false }
        },
    }
}

#[derive(Clone)]
enum Kind {
    Plain(String),
    Return(String),
    Crash,
    Throw,
    Break(Option<String>),
    Continue(Option<String>),
    If(Vec<(Cond, Vec<S>)>, Option<Vec<S>>),
    While(Cond, Vec<S>),
    DoWhile(Cond, Vec<S>),
    Forever(String, Vec<S>),
    For(String, Cond, String, Vec<S>),
    ForIn(String, Vec<S>),
    /// header, whether the body runs at all (when constant), whether the checker has to notice
    Range(String, Option<bool>, bool, Vec<S>),
    Switch(String, Option<&'static str>, Vec<(String, Vec<S>)>, Option<Vec<S>>),
    Try(Vec<S>, Vec<S>),
    Spawn(Vec<S>),
    Goto(String),
    Label(String),
    Labelled(String, Vec<S>),
}
use Kind::*;

#[derive(Clone)]
struct S {
    kind: Kind,
    id: usize,
}

#[derive(Clone, Default)]
struct Ctx {
    /// labels of the enclosing loops
    loops: Vec<Option<String>>,
    /// labels a goto may name
    labels: Vec<String>,
    in_spawn: bool,
    depth: usize,
}

struct Gen<'a> {
    g: &'a G,
    count: usize,
    names: usize,
}

impl Gen<'_> {
    fn s(&mut self, kind: Kind) -> S {
        self.count += 1;
        S { kind, id: self.count }
    }
    fn name(&mut self) -> String {
        self.names += 1;
        format!("lab{}", self.names)
    }
    fn block(&mut self, ctx: &Ctx) -> Vec<S> {
        let g = self.g;
        let mut ctx = ctx.clone();
        ctx.depth += 1;
        let n = 1 + g.weighted(&[6, 4, 2, 1]);
        // labels of this block, known to all of it
        let mut slots: Vec<Option<String>> = vec![];
        for _ in 0..n {
            slots.push(if g.chance(1, 12) { Some(self.name()) } else { None });
        }
        ctx.labels.extend(slots.iter().flatten().cloned());
        let mut out = vec![];
        for slot in slots {
            match slot {
                Some(l) => out.push(self.s(Label(l))),
                None => self.statement(&ctx, &mut out),
            }
        }
        out
    }
    fn simple(&mut self) -> S {
        let t = self.g.pick(&["f()", "a = 3", "b++", "world.log << a", "var/q"]).to_string();
        let t = if t == "var/q" {
            self.names += 1;
            format!("var/q{} = 2", self.names)
        } else {
            t
        };
        self.s(Plain(t))
    }
    fn statement(&mut self, ctx: &Ctx, out: &mut Vec<S>) {
        let g = self.g;
        let deep = ctx.depth >= 4;
        let s = match g.weighted(&[5, 5, 2, 1, 3, 3, 6, 2, 3, 1, 2, 2, 4, 3, 2, 1, 2]) {
            1 => {
                let t = if ctx.in_spawn { "return" } else { *g.pick(&["return", "return", "return 3", "return a"]) };
                self.s(Return(t.into()))
            },
            2 => self.s(Crash),
            3 => self.s(Throw),
            k @ (4 | 5) if !ctx.loops.is_empty() => {
                let named: Vec<String> = ctx.loops.iter().flatten().cloned().collect();
                let l = if !named.is_empty() && g.bool() { Some(g.pick(&named).clone()) } else { None };
                self.s(if k == 4 { Break(l) } else { Continue(l) })
            },
            6 if !deep => {
                let mut arms = vec![];
                for _ in 0..1 + g.weighted(&[16, 8, 4, 1, 1, 1]) {
                    let c = cond(g);
                    arms.push((c, self.block(ctx)));
                }
                let e = if g.chance(3, 5) { Some(self.block(ctx)) } else { None };
                self.s(If(arms, e))
            },
            k @ 7..=12 if !deep => {
                let mut inner = ctx.clone();
                let label = if g.chance(1, 4) { Some(self.name()) } else { None };
                inner.loops.push(label.clone());
                let b = self.block(&inner);
                let kind = match k {
                    7 => While(cond(g), b),
                    8 => DoWhile(cond(g), b),
                    9 => Forever(g.pick(&["for()", "for(;;)"]).to_string(), b),
                    10 => {
                        let c = cond(g);
                        For(g.pick(&["a = 1", "var/i = 0", ""]).to_string(), c, g.pick(&["a++", "a += 2", ""]).to_string(), b)
                    },
                    11 => ForIn(g.pick(&["for(var/i in b)", "for(a in list(1, 2))", "for(var/k, v in b)", "for(var/obj/o in world)"]).to_string(), b),
                    _ => self.range(b),
                };
                match label {
                    None => self.s(kind),
                    Some(l) if g.bool() => {
                        let s = self.s(Label(l));
                        out.push(s);
                        self.s(kind)
                    },
                    Some(l) => {
                        let s = self.s(kind);
                        let mut b = vec![s];
                        if g.chance(1, 4) {
                            b.push(self.simple());
                        }
                        self.s(Labelled(l, b))
                    },
                }
            },
            13 if !deep => {
                let mut cases = vec![];
                for i in 0..1 + g.weighted(&[8, 8, 8, 1, 1, 1, 1, 1]) {
                    let c = match g.usize(3) {
                        0 => format!("if({})", i),
                        1 => format!("if({} to {})", i * 5 + 10, i * 5 + 12),
                        _ => format!("if({}, \"s{}\")", i + 100, i),
                    };
                    cases.push((c, self.block(ctx)));
                }
                let e = if g.chance(2, 3) { Some(self.block(ctx)) } else { None };
                let (on, form) = if g.chance(1, 8) {
                    (literal(g).0, Some("control flow condition is a static term"))
                } else {
                    (opaque(g), None)
                };
                self.s(Switch(on, form, cases, e))
            },
            14 if !deep => {
                let t = self.block(ctx);
                let c = self.block(ctx);
                self.s(Try(t, c))
            },
            15 if !deep => {
                let inner = Ctx { in_spawn: true, depth: ctx.depth, ..Ctx::default() };
                let b = self.block(&inner);
                self.s(Spawn(b))
            },
            16 if !ctx.labels.is_empty() => {
                let l = g.pick(&ctx.labels).clone();
                self.s(Goto(l))
            },
            _ => self.simple(),
        };
        out.push(s);
    }
    fn range(&mut self, b: Vec<S>) -> Kind {
        let g = self.g;
        let num = |g: &G| if g.chance(1, 6) { -g.range(1, 4) } else { g.range(0, 4) };
        let (s, e) = (num(g), num(g));
        let mut value = Some(s <= e);
        let mut noticed = s >= 0 && e >= 0;
        let mut head = format!("{} to {}", s, e);
        if g.chance(1, 8) {
            head = if g.bool() { format!("{} to b", s) } else { format!("a to {}", e) };
            value = None;
            noticed = false;
        }
        match g.usize(6) {
            0 => {
                let k = g.range(1, 3);
                head += &format!(" step {}", k);
            },
            1 => {
                let k = g.range(1, 3);
                head += &format!(" step -{}", k);
                value = value.map(|_| s >= e);
            },
            2 if g.bool() => {
                head += g.pick(&[" step a", " step a + 1"]);
                value = None;
                noticed = false;
            },
            _ => {},
        }
        let var = g.pick(&["for(var/i in ", "for(var/i = ", "for(a in ", "for(a = "]).to_string();
        Range(format!("{}{})", var, head), value, noticed && value == Some(false), b)
    }
}

// ---- rendering

#[derive(Default)]
struct Text {
    lines: Vec<String>,
    /// line of each statement
    at: Vec<u32>,
    /// lines of the conditions of the arms of each `if`, and of the `else`
    arms: Vec<Vec<u32>>,
}

fn emit(t: &mut Text, g: &G, block: &[S], depth: usize) {
    let pad = "\t".repeat(depth);
    for s in block {
        let here = t.lines.len() as u32 + 1;
        t.at[s.id] = here;
        let nest = |t: &mut Text, head: String, b: &[S]| {
            t.lines.push(format!("{}{}", pad, head));
            emit(t, g, b, depth + 1);
        };
        let opt = |l: &Option<String>| l.as_ref().map(|l| format!(" {}", l)).unwrap_or_default();
        match &s.kind {
            Plain(x) | Return(x) => t.lines.push(format!("{}{}", pad, x)),
            Crash => t.lines.push(format!("{}{}", pad, g.pick(&["CRASH(\"x\")", "CRASH()"]))),
            Throw => t.lines.push(format!("{}throw a", pad)),
            Break(l) => t.lines.push(format!("{}break{}", pad, opt(l))),
            Continue(l) => t.lines.push(format!("{}continue{}", pad, opt(l))),
            Goto(l) => t.lines.push(format!("{}goto {}", pad, l)),
            Label(l) => t.lines.push(format!("{}{}:", pad, l)),
            Labelled(l, b) => nest(t, format!("{}:", l), b),
            If(arms, e) => {
                let mut first = true;
                let mut at = vec![];
                for (c, b) in arms {
                    at.push(t.lines.len() as u32 + 1);
                    nest(t, format!("{}if({})", if first { "" } else { "else " }, c.text), b);
                    first = false;
                }
                if let Some(b) = e {
                    nest(t, "else".into(), b);
                }
                t.arms[s.id] = at;
            },
            While(c, b) => nest(t, format!("while({})", c.text), b),
            DoWhile(c, b) => {
                nest(t, "do".into(), b);
                t.lines.push(format!("{}while({})", pad, c.text));
            },
            Forever(h, b) | ForIn(h, b) | Range(h, _, _, b) => nest(t, h.clone(), b),
            For(i, c, n, b) => nest(t, format!("for({}; {}; {})", i, c.text, n), b),
            Switch(on, _, cases, e) => {
                t.lines.push(format!("{}switch({})", pad, on));
                for (h, b) in cases {
                    t.lines.push(format!("{}\t{}", pad, h));
                    emit(t, g, b, depth + 2);
                }
                if let Some(b) = e {
                    t.lines.push(format!("{}\telse", pad));
                    emit(t, g, b, depth + 2);
                }
            },
            Try(a, b) => {
                nest(t, "try".into(), a);
                nest(t, g.pick(&["catch(var/e0)", "catch", "catch()"]).to_string(), b);
            },
            Spawn(b) => nest(t, g.pick(&["spawn(3)", "spawn()", "spawn"]).to_string(), b),
        }
    }
}

// ---- reachability: an explicit graph of where control can go

#[derive(Default)]
struct Graph {
    next: Vec<Vec<usize>>,
    /// (label, node)
    labels: Vec<(String, usize)>,
    node: Vec<usize>,
    /// nodes of the conditions of arms, and of `else`, by statement
    arms: Vec<Vec<usize>>,
    /// node of the condition of a do-while, of the body of a range loop
    part: Vec<usize>,
}

#[derive(Clone, Default)]
struct Way {
    /// (label, after, again)
    loops: Vec<(Option<String>, usize, usize)>,
    catch: Option<usize>,
}

impl Graph {
    fn add(&mut self, next: Vec<usize>) -> usize {
        self.next.push(next);
        self.next.len() - 1
    }
    fn label(&mut self, l: &str) -> usize {
        if let Some(x) = self.labels.iter().find(|x| x.0 == l) {
            return x.1;
        }
        let n = self.add(vec![]);
        self.labels.push((l.to_string(), n));
        n
    }
    fn block(&mut self, b: &[S], after: usize, way: &Way) -> usize {
        let mut k = after;
        for (i, s) in b.iter().enumerate().rev() {
            let label = match (i, i.checked_sub(1).map(|i| &b[i].kind)) {
                (_, Some(Label(l))) => Some(l.clone()),
                _ => None,
            };
            k = self.statement(s, k, way, label);
        }
        k
    }
    fn branch(&mut self, c: &Cond, yes: usize, no: usize) -> usize {
        let to = match c.value {
            Some(true) => vec![yes],
            Some(false) => vec![no],
            None => vec![yes, no],
        };
        self.add(to)
    }
    fn statement(&mut self, s: &S, after: usize, way: &Way, label: Option<String>) -> usize {
        let n = self.add(vec![]);
        self.node[s.id] = n;
        if let Some(c) = way.catch {
            self.next[n].push(c);
        }
        let inside = |again: usize, leave: usize| {
            let mut w = way.clone();
            w.loops.push((label.clone(), leave, again));
            w
        };
        let target = |l: &Option<String>| match l {
            None => way.loops.last().cloned(),
            Some(_) => way.loops.iter().rev().find(|x| x.0 == *l).cloned(),
        };
        let to: Vec<usize> = match &s.kind {
            Plain(_) => vec![after],
            Return(_) | Crash | Throw => vec![],
            Break(l) => vec![target(l).unwrap().1],
            Continue(l) => vec![target(l).unwrap().2],
            Goto(l) => vec![self.label(l)],
            Label(l) => {
                let x = self.label(l);
                self.next[x].push(n);
                vec![after]
            },
            Labelled(l, b) => {
                // the label names the loop which comes first
                let rest = self.block(&b[1..], after, way);
                let first = self.statement(&b[0], rest, way, Some(l.clone()));
                vec![first]
            },
            If(arms, e) => {
                let mut no = match e {
                    Some(b) => self.block(b, after, way),
                    None => after,
                };
                let mut at = vec![no];
                for (c, b) in arms.iter().rev() {
                    let yes = self.block(b, after, way);
                    no = self.branch(c, yes, no);
                    at.push(no);
                }
                at.reverse();
                self.arms[s.id] = at;
                vec![no]
            },
            While(c, b) | For(_, c, _, b) => {
                let head = self.branch(c, 0, after);
                let body = self.block(b, head, &inside(head, after));
                for x in self.next[head].iter_mut() {
                    if *x == 0 {
                        *x = body;
                    }
                }
                // `for(;;)` with an empty condition never occurs: conditions are never empty
                vec![head]
            },
            DoWhile(c, b) => {
                let head = self.branch(c, 0, after);
                let body = self.block(b, head, &inside(head, after));
                for x in self.next[head].iter_mut() {
                    if *x == 0 {
                        *x = body;
                    }
                }
                self.part[s.id] = head;
                vec![body]
            },
            Forever(_, b) => {
                let head = self.add(vec![]);
                let body = self.block(b, head, &inside(head, after));
                self.next[head].push(body);
                vec![head]
            },
            ForIn(_, b) => {
                let head = self.add(vec![after]);
                let body = self.block(b, head, &inside(head, after));
                self.next[head].push(body);
                vec![head]
            },
            Range(_, runs, _, b) => {
                let again = self.add(vec![after]);
                let body = self.block(b, again, &inside(again, after));
                self.next[again].push(body);
                match runs {
                    Some(true) => vec![body],
                    Some(false) => vec![after],
                    None => vec![body, after],
                }
            },
            Switch(_, _, cases, e) => {
                let mut to = vec![];
                for (_, b) in cases {
                    to.push(self.block(b, after, way));
                }
                to.push(match e {
                    Some(b) => self.block(b, after, way),
                    None => after,
                });
                to
            },
            Try(a, b) => {
                let c = self.block(b, after, way);
                let mut w = way.clone();
                w.catch = Some(c);
                vec![c, self.block(a, after, &w)]
            },
            Spawn(b) => {
                let end = self.add(vec![]);
                vec![after, self.block(b, end, &Way::default())]
            },
        };
        self.next[n].extend(to);
        n
    }
    fn reachable(&self, from: usize) -> Vec<bool> {
        let mut seen = vec![false; self.next.len()];
        let mut todo = vec![from];
        while let Some(n) = todo.pop() {
            if !std::mem::replace(&mut seen[n], true) {
                todo.extend(&self.next[n]);
            }
        }
        seen
    }
}

// ---- what has to be reported

fn jumps(b: &[S]) -> bool {
    b.iter().any(|s| match &s.kind {
        Break(_) | Continue(_) | Goto(_) | Label(_) | Labelled(..) => true,
        Plain(_) | Return(_) | Crash | Throw => false,
        If(arms, e) => arms.iter().any(|a| jumps(&a.1)) || e.as_ref().is_some_and(|b| jumps(b)),
        Switch(_, _, cases, e) => cases.iter().any(|a| jumps(&a.1)) || e.as_ref().is_some_and(|b| jumps(b)),
        While(_, b) | DoWhile(_, b) | Forever(_, b) | For(_, _, _, b) | ForIn(_, b) | Range(_, _, _, b) | Spawn(b) => jumps(b),
        Try(a, b) => jumps(a) || jumps(b),
    })
}

/// Every way through the statement returns, visibly.
fn certain(s: &S) -> bool {
    let all = |b: &Vec<S>| !jumps(b) && b.iter().any(certain);
    match &s.kind {
        Return(_) | Crash => true,
        If(arms, Some(e)) => arms.iter().all(|a| all(&a.1)) && all(e),
        Switch(_, _, cases, Some(e)) => cases.iter().all(|a| all(&a.1)) && all(e),
        DoWhile(_, b) => all(b),
        Range(_, Some(true), _, b) => literal_range(s) && all(b),
        _ => false,
    }
}

/// Both ends are plain literals, and so is the step.
fn literal_range(s: &S) -> bool {
    match &s.kind {
        Range(h, Some(_), _, _) => !h.split(" step ").next().unwrap().contains('-'),
        _ => false,
    }
}

const DEAD: &str = "possible unreachable code here";
const DO: &str = "do while terminates without ever reaching condition";
const RANGE: &str = "for range loop body is never reached due to invalid range";
const ARM: &str = "unreachable if block, preceeding if/elseif condition(s) are always true";
const ELSE: &str = "unreachable else block, preceeding if/elseif condition(s) are always true";

struct Expect<'a> {
    t: &'a Text,
    gr: &'a Graph,
    live: &'a [bool],
    got: &'a mut Vec<(u32, String)>,
    missing: Option<(u32, String)>,
    wrong: Option<(u32, String)>,
    reported: usize,
}

impl Expect<'_> {
    fn take(&mut self, line: u32, text: &str) -> bool {
        match self.got.iter().position(|x| x.0 == line && x.1 == text) {
            Some(i) => {
                self.got.remove(i);
                true
            },
            None => false,
        }
    }
    /// The diagnostic may be there if `may`, and has to be if `must`.
    fn one(&mut self, line: u32, text: &str, must: bool, may: bool) -> bool {
        let there = self.take(line, text);
        if there && !may {
            self.wrong.get_or_insert((line, text.to_string()));
        }
        if !there && must {
            self.missing.get_or_insert((line, text.to_string()));
        }
        there
    }
    fn cond(&mut self, line: u32, c: &Cond, what: &str, forms: bool) {
        if forms {
            for f in ["control flow condition is a static term", "control flow condition is a constant evalutation"] {
                self.one(line, f, c.form == Some(f), c.constant);
            }
        }
        for v in [true, false] {
            let text = format!("{} condition is always {}", what, v);
            self.one(line, &text, c.noticed && c.value == Some(v), c.value == Some(v));
        }
    }
    fn block(&mut self, b: &[S]) {
        let mut sure = false;
        for (i, s) in b.iter().enumerate() {
            let line = self.t.at[s.id];
            let dead = !self.live[self.gr.node[s.id]];
            if matches!(s.kind, Label(_) | Labelled(..)) {
                sure = false;
            }
            let told = self.one(line, DEAD, sure, dead);
            if told {
                self.reported += 1;
                // what follows in this block is not looked at
                return;
            }
            let part = self.gr.part[s.id];
            match &s.kind {
                Plain(_) | Return(_) | Crash | Throw | Break(_) | Continue(_) | Goto(_) | Label(_) => {},
                If(arms, e) => {
                    let at = self.t.arms[s.id].clone();
                    let mut truth = false;
                    for (k, (c, b)) in arms.iter().enumerate() {
                        self.cond(at[k], c, "if", true);
                        let dead = !self.live[self.gr.arms[s.id][k]];
                        self.one(at[k], ARM, truth, dead);
                        self.block(b);
                        truth |= c.noticed && c.value == Some(true);
                    }
                    if let Some(b) = e {
                        let dead = !self.live[self.gr.arms[s.id][arms.len()]];
                        self.one(self.t.at[b[0].id], ELSE, truth, dead);
                        self.block(b);
                    }
                },
                While(_, b) | Forever(_, b) | ForIn(_, b) | Labelled(_, b) | Spawn(b) => self.block(b),
                DoWhile(_, b) => {
                    let dead = !self.live[part];
                    self.block(b);
                    if self.one(line, DO, certain(s), dead) {
                        self.reported += 1;
                    }
                },
                For(_, c, _, b) => {
                    self.cond(line, c, "loop", true);
                    self.block(b);
                },
                Range(_, runs, noticed, b) => {
                    self.block(b);
                    self.one(line, RANGE, *noticed, *runs == Some(false));
                },
                Switch(_, form, cases, e) => {
                    let text = "control flow condition is a static term";
                    self.one(line, text, *form == Some(text), form.is_some());
                    for (_, b) in cases {
                        self.block(b);
                    }
                    if let Some(b) = e {
                        self.block(b);
                    }
                },
                Try(a, b) => {
                    self.block(a);
                    self.block(b);
                },
            }
            // a break or continue before makes the checker careful
            sure = certain(s) && !jumps(&b[..i]);
        }
    }
}

fn branches(g: &G) -> R {
    let mut gen = Gen { g, count: 0, names: 0 };
    let mut procs = vec![];
    for _ in 0..g.len(1, 3) {
        procs.push(gen.block(&Ctx::default()));
    }
    let n = gen.count + 1;
    let mut t = Text { at: vec![0; n], arms: vec![vec![]; n], ..Text::default() };
    t.lines.push("/proc/f()".into());
    t.lines.push("\treturn 1".into());
    for (i, b) in procs.iter().enumerate() {
        t.lines.push(format!("/proc/p{}(a, b)", i));
        emit(&mut t, g, b, 1);
    }
    let text = t.lines.join("\n") + "\n";
    g.note(&text);
    let mut got = diags(&check(&text));
    let mut dead = 0;
    for b in &procs {
        let mut gr = Graph { node: vec![0; n], arms: vec![vec![]; n], part: vec![0; n], ..Graph::default() };
        gr.add(vec![]);
        let end = gr.add(vec![]);
        let start = gr.block(b, end, &Way::default());
        let live = gr.reachable(start);
        let mut e = Expect { t: &t, gr: &gr, live: &live, got: &mut got, missing: None, wrong: None, reported: 0 };
        e.block(b);
        dead += e.reported;
        if let Some((l, m)) = e.wrong {
            return fail("branch:wrong", format!("line {}: reported {:?}, which is not so", l, m));
        }
        if let Some((l, m)) = e.missing {
            return fail("branch:missing", format!("line {}: {:?} should have been reported", l, m));
        }
    }
    g.nontrivial(n >= 8 && t.lines.len() >= 12);
    g.label_if(dead > 0, "unreachable code reported");
    g.label_if(text.contains("goto"), "goto");
    g.label_if(text.contains("break lab") || text.contains("continue lab"), "labelled jump");
    if let Some((l, m)) = got.first() {
        return fail("branch:unexpected", format!("line {}: reported {:?}", l, m));
    }
    Ok(())
}

pub fn d05() -> Prop {
    Prop {
        id: "D05",
        rule: "at least seven statements on twelve lines",
        assumptions: &[
            "goto names a label of the same or an enclosing block",
            "code which cannot be reached only because of break, continue, goto, throw or an endless loop need not be reported",
        ],
        subs: vec![Sub { name: "branches", quick: 60000, thorough: 600000, run: branches }],
    }
}
