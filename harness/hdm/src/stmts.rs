//! Statement model, layouts, and C10: procedure bodies parse into exactly the statements written.
use crate::model::*;
use dm::ast::*;
use dm::Context;
use engine::*;

#[derive(Clone, Debug)]
pub struct VarS {
    pub flags: Vec<&'static str>,
    pub path: Vec<String>,
    pub name: String,
    pub suffix: Vec<Option<E>>,
    pub value: Option<E>,
}

#[derive(Clone, Debug)]
pub enum C {
    Exact(E),
    Range(E, E),
}

pub type Blk = Vec<S>;
type VT = Option<(Vec<&'static str>, Vec<String>)>;

#[derive(Clone, Debug)]
pub enum S {
    Expr(E),
    Return(Option<E>),
    Throw(E),
    While(E, Blk),
    DoWhile(Blk, E),
    If(Vec<(E, Blk)>, Option<Blk>),
    ForInf(Blk),
    ForLoop { comma: bool, init: Option<Box<S>>, test: Option<E>, inc: Option<E>, two: bool, blk: Blk },
    ForList { vt: VT, name: String, ty: Vec<&'static str>, list: Option<E>, blk: Blk },
    ForKV { vt: VT, key: String, ty: Vec<&'static str>, val: String, list: E, blk: Blk },
    ForRange { vt: VT, name: String, eq: bool, start: E, end: E, step: Option<E>, blk: Blk },
    Var(Vec<VarS>),
    Set(String, bool, E),
    Spawn(bool, Option<E>, Blk),
    Switch(E, Vec<(Vec<C>, Blk)>, Option<Blk>),
    Try(Blk, Vec<String>, Blk),
    Continue(Option<String>),
    Break(Option<String>),
    Goto(String),
    Label(String, Blk),
    Del(E),
    Crash(Option<E>),
}

// ---- s-expressions of the model

fn flag_text(f: &[&'static str]) -> String {
    let mut v: Vec<&str> = f.iter().map(|x| if *x == "global" { "static" } else { *x }).collect();
    v.sort();
    v.dedup();
    v.join("+")
}
fn vt_text(vt: &VT) -> String {
    match vt {
        None => "novar".into(),
        Some((f, p)) => format!("var<{}>{}", flag_text(f), p.iter().map(|x| format!("/{}", x)).collect::<String>()),
    }
}
fn opt(e: &Option<E>) -> String {
    e.as_ref().map_or("-".into(), sx)
}
pub fn var_sx(v: &VarS) -> String {
    let mut p = v.path.clone();
    if !v.suffix.is_empty() {
        p.insert(0, "list".into());
    }
    let val = match &v.value {
        Some(e) => sx(e),
        None => {
            let args: Vec<E> = v.suffix.iter().flatten().cloned().collect();
            if args.is_empty() {
                "-".into()
            } else {
                format!("(new /list{})", args.iter().map(|a| format!(" {}", sx(a))).collect::<String>())
            }
        },
    };
    format!("{} {} = {}", vt_text(&Some((v.flags.clone(), p))), v.name, val)
}
fn as_text(t: &[&'static str]) -> String {
    if t.is_empty() {
        "-".into()
    } else {
        type_bits(t)
    }
}

pub fn blk_sx(b: &Blk) -> String {
    format!("{{{}}}", b.iter().map(|s| format!("{}; ", s_sx(s))).collect::<String>())
}

pub fn s_sx(s: &S) -> String {
    match s {
        S::Expr(e) => sx(e),
        S::Return(e) => format!("return {}", opt(e)),
        S::Throw(e) => format!("throw {}", sx(e)),
        S::While(e, b) => format!("while {} {}", sx(e), blk_sx(b)),
        S::DoWhile(b, e) => format!("do {} while {}", blk_sx(b), sx(e)),
        S::If(arms, els) => format!("if{} else {}", arms.iter().map(|(e, b)| format!(" {} {}", sx(e), blk_sx(b))).collect::<String>(), els.as_ref().map_or("-".into(), blk_sx)),
        S::ForInf(b) => format!("for {}", blk_sx(b)),
        S::ForLoop { init, test, inc, blk, .. } => format!("forloop [{}] [{}] [{}] {}", init.as_ref().map_or("-".into(), |s| s_sx(s)), opt(test), opt(inc), blk_sx(blk)),
        S::ForList { vt, name, ty, list, blk } => format!("forlist {} {} as {} in {} {}", vt_text(vt), name, as_text(ty), opt(list), blk_sx(blk)),
        S::ForKV { vt, key, ty, val, list, blk } => format!("forkv {} {} as {} , {} in {} {}", vt_text(vt), key, as_text(ty), val, sx(list), blk_sx(blk)),
        S::ForRange { vt, name, start, end, step, blk, .. } => format!("forrange {} {} {} to {} step {} {}", vt_text(vt), name, sx(start), sx(end), opt(step), blk_sx(blk)),
        S::Var(vs) => format!("vars({})", vs.iter().map(|v| format!("{}, ", var_sx(v))).collect::<String>()),
        S::Set(n, is_in, e) => format!("set {} {} {}", n, if *is_in { "in" } else { "=" }, sx(e)),
        S::Spawn(_, e, b) => format!("spawn {} {}", opt(e), blk_sx(b)),
        S::Switch(e, cs, d) => format!(
            "switch {} [{}] default {}",
            sx(e),
            cs.iter()
                .map(|(c, b)| format!(
                    "({}) {} ",
                    c.iter()
                        .map(|c| match c {
                            C::Exact(e) => format!("{},", sx(e)),
                            C::Range(a, b) => format!("{} to {},", sx(a), sx(b)),
                        })
                        .collect::<String>(),
                    blk_sx(b)
                ))
                .collect::<String>(),
            d.as_ref().map_or("-".into(), blk_sx)
        ),
        S::Try(a, p, b) => format!("try {} catch({}) {}", blk_sx(a), p.join(","), blk_sx(b)),
        S::Continue(l) => format!("continue {}", l.as_deref().unwrap_or("-")),
        S::Break(l) => format!("break {}", l.as_deref().unwrap_or("-")),
        S::Goto(l) => format!("goto {}", l),
        S::Label(n, b) => format!("label {} {}", n, blk_sx(b)),
        S::Del(e) => format!("del {}", sx(e)),
        S::Crash(e) => format!("crash {}", opt(e)),
    }
}

// ---- s-expressions of parsed code

pub fn p_var_type(v: &VarType) -> String {
    let mut f = vec![];
    if v.flags.is_static() {
        f.push("static");
    }
    if v.flags.is_const() {
        f.push("const");
    }
    if v.flags.is_tmp() {
        f.push("tmp");
    }
    if v.flags.is_final() {
        f.push("final");
    }
    if v.flags.is_private() {
        f.push("SpacemanDMM_private");
    }
    if v.flags.is_protected() {
        f.push("SpacemanDMM_protected");
    }
    f.sort();
    format!("var<{}>{}", f.join("+"), v.type_path.iter().map(|x| format!("/{}", x)).collect::<String>())
}
fn p_ovt(v: &Option<VarType>) -> String {
    v.as_ref().map_or("novar".into(), p_var_type)
}
fn p_var(v: &VarStatement, s: &mut Seen) -> String {
    let val = v.value.as_ref().map_or("-".into(), |e| p_expr(e, s));
    format!("{} {} = {}", p_var_type(&v.var_type), v.name, val)
}
fn p_o(e: Option<&Expression>, s: &mut Seen) -> String {
    e.map_or("-".into(), |e| p_expr(e, s))
}
fn p_as(t: &Option<InputType>) -> String {
    t.map_or("-".into(), bits_text)
}

pub fn p_blk(b: &Block, s: &mut Seen) -> String {
    let mut o = String::from("{");
    for st in b.iter() {
        s.stmts.push(st.location);
        o.push_str(&p_stmt(&st.elem, s));
        o.push_str("; ");
    }
    o.push('}');
    o
}

pub fn p_stmt(st: &Statement, s: &mut Seen) -> String {
    match st {
        Statement::Expr(e) => p_expr(e, s),
        Statement::Return(e) => format!("return {}", p_o(e.as_ref(), s)),
        Statement::Throw(e) => format!("throw {}", p_expr(e, s)),
        Statement::While { condition, block } => {
            let c = p_expr(condition, s);
            format!("while {} {}", c, p_blk(block, s))
        },
        Statement::DoWhile { block, condition } => {
            let b = p_blk(block, s);
            format!("do {} while {}", b, p_expr(&condition.elem, s))
        },
        Statement::If { arms, else_arm } => {
            let mut o = String::from("if");
            for (e, b) in arms {
                o.push_str(&format!(" {}", p_expr(&e.elem, s)));
                o.push_str(&format!(" {}", p_blk(b, s)));
            }
            let e = else_arm.as_ref().map_or("-".into(), |b| p_blk(b, s));
            format!("{} else {}", o, e)
        },
        Statement::ForInfinite { block } => format!("for {}", p_blk(block, s)),
        Statement::ForLoop { init, test, inc, block } => {
            let a = init.as_ref().map_or("-".into(), |x| p_stmt(x, s));
            let b = p_o(test.as_deref(), s);
            let c = inc.as_ref().map_or("-".into(), |x| p_stmt(x, s));
            format!("forloop [{}] [{}] [{}] {}", a, b, c, p_blk(block, s))
        },
        Statement::ForList(f) => {
            let l = p_o(f.in_list.as_ref(), s);
            format!("forlist {} {} as {} in {} {}", p_ovt(&f.var_type), f.name, p_as(&f.input_type), l, p_blk(&f.block, s))
        },
        Statement::ForKeyValue(f) => {
            let l = p_o(f.in_list.as_ref(), s);
            format!("forkv {} {} as {} , {} in {} {}", p_ovt(&f.var_type), f.key, p_as(&f.key_input_type), f.value, l, p_blk(&f.block, s))
        },
        Statement::ForRange(f) => {
            let a = p_expr(&f.start, s);
            let b = p_expr(&f.end, s);
            let c = p_o(f.step.as_ref(), s);
            format!("forrange {} {} {} to {} step {} {}", p_ovt(&f.var_type), f.name, a, b, c, p_blk(&f.block, s))
        },
        Statement::Var(v) => format!("vars({}, )", p_var(v, s)),
        Statement::Vars(vs) => {
            let mut o = String::new();
            for v in vs {
                o.push_str(&p_var(v, s));
                o.push_str(", ");
            }
            format!("vars({})", o)
        },
        Statement::Setting { name, mode, value } => format!("set {} {} {}", name, if *mode == SettingMode::In { "in" } else { "=" }, p_expr(value, s)),
        Statement::Spawn { delay, block } => {
            let d = p_o(delay.as_ref(), s);
            format!("spawn {} {}", d, p_blk(block, s))
        },
        Statement::Switch { input, cases, default } => {
            let i = p_expr(input, s);
            let mut o = String::new();
            for (cs, b) in cases.iter() {
                o.push('(');
                for c in cs.elem.iter() {
                    match c {
                        Case::Exact(e) => o.push_str(&format!("{},", p_expr(e, s))),
                        Case::Range(a, b) => {
                            let a = p_expr(a, s);
                            o.push_str(&format!("{} to {},", a, p_expr(b, s)))
                        },
                    }
                }
                o.push_str(") ");
                o.push_str(&p_blk(b, s));
                o.push(' ');
            }
            let d = default.as_ref().map_or("-".into(), |b| p_blk(b, s));
            format!("switch {} [{}] default {}", i, o, d)
        },
        Statement::TryCatch { try_block, catch_params, catch_block } => {
            let a = p_blk(try_block, s);
            let p: Vec<String> = catch_params.iter().map(|p| p.iter().map(|i| i.to_string()).collect::<Vec<_>>().join("/")).collect();
            format!("try {} catch({}) {}", a, p.join(","), p_blk(catch_block, s))
        },
        Statement::Continue(l) => format!("continue {}", l.as_ref().map_or("-", |x| x.as_str())),
        Statement::Break(l) => format!("break {}", l.as_ref().map_or("-", |x| x.as_str())),
        Statement::Goto(l) => format!("goto {}", l),
        Statement::Label { name, block } => format!("label {} {}", name, p_blk(block, s)),
        Statement::Del(e) => format!("del {}", p_expr(e, s)),
        Statement::Crash(e) => format!("crash {}", p_o(e.as_ref(), s)),
    }
}

// ---- generation

fn vt(g: &G) -> VT {
    if g.chance(1, 3) {
        return None;
    }
    Some((if g.chance(1, 10) { vec!["const"] } else { vec![] }, (0..g.usize(3)).map(|_| g.pick(&["obj", "mob", "item", "list"]).to_string()).collect()))
}

pub fn gen_var(g: &G, names: &Names, ed: usize) -> VarS {
    let mut flags = vec![];
    if g.chance(1, 6) {
        flags.push(*g.pick(&["static", "const", "global"]));
        if g.chance(1, 3) {
            flags.push("const");
        }
    }
    let path = (0..g.weighted(&[4, 3, 2, 1])).map(|_| g.pick(&["obj", "mob", "item", "list", "datum"]).to_string()).collect();
    let suffix = if g.chance(1, 6) { (0..1 + g.usize(2)).map(|_| if g.bool() { Some(gen(g, names, ed)) } else { None }).collect() } else { vec![] };
    VarS { flags, path, name: names.fresh(), suffix, value: if g.chance(2, 3) { Some(gen(g, names, ed)) } else { None } }
}

pub fn gen_blk(g: &G, names: &Names, depth: usize, max: usize) -> Blk {
    let n = g.weighted(&[1, 4, 3, 2, 1]).min(max);
    (0..n).map(|_| gen_s(g, names, depth)).collect()
}

fn label(g: &G) -> String {
    g.pick(&["lab", "outer", "Done_1"]).to_string()
}

pub fn gen_s(g: &G, names: &Names, depth: usize) -> S {
    let ed = g.weighted(&[5, 4, 1]);
    let e = |g: &G| gen(g, names, ed);
    if depth == 0 || g.chance(1, 4) {
        return match g.weighted(&[6, 3, 1, 5, 1, 1, 1, 1, 1, 1]) {
            0 => S::Expr(gen(g, names, ed + 1)),
            1 => S::Return(if g.bool() { Some(e(g)) } else { None }),
            2 => S::Throw(e(g)),
            3 => S::Var((0..g.weighted(&[0, 4, 1, 1])).map(|_| gen_var(g, names, ed)).collect()),
            4 => S::Set(g.pick(&["name", "src", "waitfor", "category"]).to_string(), g.bool(), e(g)),
            5 => S::Continue(if g.bool() { Some(label(g)) } else { None }),
            6 => S::Break(if g.bool() { Some(label(g)) } else { None }),
            7 => S::Goto(label(g)),
            8 => S::Del(e(g)),
            _ => S::Crash(if g.bool() { Some(e(g)) } else { None }),
        };
    }
    let d = depth - 1;
    let b = |g: &G| gen_blk(g, names, d, 4);
    match g.weighted(&[5, 2, 1, 1, 3, 3, 2, 3, 1, 3, 1, 1]) {
        0 => {
            let n = 1 + g.weighted(&[5, 2, 1]);
            S::If((0..n).map(|_| (e(g), b(g))).collect(), if g.bool() { Some(b(g)) } else { None })
        },
        1 => S::While(e(g), b(g)),
        2 => S::DoWhile(b(g), e(g)),
        3 => S::ForInf(b(g)),
        4 => {
            let comma = g.bool();
            let init = match g.usize(3) {
                0 => None,
                1 => Some(Box::new(S::Expr(e(g)))),
                _ => {
                    let mut v = gen_var(g, names, ed);
                    v.suffix.clear();
                    Some(Box::new(S::Var(vec![v])))
                },
            };
            let two = g.chance(1, 4);
            let inc = if two || g.chance(1, 4) { None } else { Some(e(g)) };
            let test = if g.chance(1, 4) { None } else { Some(e(g)) };
            S::ForLoop { comma, init, test, inc, two, blk: b(g) }
        },
        5 => {
            let vt = vt(g);
            S::ForList { vt, name: names.fresh(), ty: if g.chance(1, 4) { input_types(g) } else { vec![] }, list: if g.chance(1, 6) { None } else { Some(e(g)) }, blk: b(g) }
        },
        6 => S::ForKV { vt: vt(g), key: names.fresh(), ty: if g.chance(1, 3) { input_types(g) } else { vec![] }, val: names.fresh(), list: e(g), blk: b(g) },
        7 => S::ForRange { vt: vt(g), name: names.fresh(), eq: g.bool(), start: e(g), end: e(g), step: if g.bool() { Some(e(g)) } else { None }, blk: b(g) },
        8 => {
            let parens = g.bool();
            S::Spawn(parens, if parens && g.bool() { Some(e(g)) } else { None }, b(g))
        },
        9 => {
            let n = g.weighted(&[1, 3, 2, 1]);
            let cs: Vec<_> = (0..n)
                .map(|_| {
                    let cases = (0..1 + g.weighted(&[4, 2, 1])).map(|_| if g.chance(1, 3) { C::Range(e(g), e(g)) } else { C::Exact(e(g)) }).collect();
                    (cases, b(g))
                })
                .collect();
            let d = if cs.is_empty() || g.bool() { Some(b(g)) } else { None };
            S::Switch(e(g), cs, d)
        },
        10 => S::Try(b(g), if g.bool() { vec![g.pick(&["var/exception/e", "e", "var/e"]).to_string()] } else { vec![] }, b(g)),
        _ => S::Label(label(g), b(g)),
    }
}

// ---- layout

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctx {
    Line(usize),
    One,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Any,
    Indent,
    BraceMulti,
    BraceOne,
}

pub struct W<'a> {
    pub g: &'a G,
    pub text: String,
    pub unit: String,
    pub style: Style,
    pub noise: bool,
    pub redundant: u64,
    pub line: u32,
    pub col: u16,
    pub starts: Vec<(u32, u16)>,
    pub used: std::collections::BTreeSet<&'static str>,
}

impl<'a> W<'a> {
    pub fn new(g: &'a G, style: Style, unit: &str, noise: bool) -> W<'a> {
        W { g, text: String::new(), unit: unit.into(), style, noise, redundant: 3, line: 1, col: 1, starts: vec![], used: Default::default() }
    }
    pub fn put(&mut self, s: &str) {
        self.text.push_str(s);
        for c in s.bytes() {
            if c == b'\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
    }
    fn exprs(&mut self, f: impl FnOnce(&mut Rend)) {
        let mut r = Rend::new(self.g, self.redundant);
        f(&mut r);
        let s = join_multi(self.g, &r.out, self.noise);
        self.put(&s);
    }
    pub fn e(&mut self, e: &E, max: u8) {
        self.exprs(|r| r.expr(e, max, false));
    }
    /// text, then an expression that may be set off by a space
    fn sp(&mut self) {
        self.put(" ");
    }
    pub fn newline(&mut self, depth: usize) {
        if self.noise {
            match self.g.weighted(&[10, 1, 1, 1]) {
                0 => {},
                1 => self.put(" "),
                2 => self.put(" // trailing ; { } ("),
                _ => self.put(" /* trailing */"),
            }
        }
        self.put("\n");
        if self.noise && self.g.chance(1, 8) {
            for _ in 0..1 + self.g.usize(2) {
                for _ in 0..self.g.usize(6) {
                    self.put(if self.g.bool() { " " } else { "\t" });
                }
                match self.g.usize(4) {
                    0 => {},
                    1 => self.put("// comment { ( \""),
                    2 => self.put("/* block { */"),
                    _ => self.put("/* two\n\t\t\tlines */"),
                }
                self.put("\n");
            }
        }
        let u = self.unit.clone();
        for _ in 0..depth {
            self.put(&u);
        }
    }
    pub fn stmts(&mut self, b: &Blk, ctx: Ctx) {
        for s in b {
            if let Ctx::Line(d) = ctx {
                self.newline(d);
            } else {
                self.put(" ");
            }
            self.s(s, ctx);
            match ctx {
                Ctx::One => self.put(";"),
                Ctx::Line(_) => {
                    if self.noise && self.g.chance(1, 10) {
                        self.put(";");
                    }
                },
            }
        }
    }
    fn simple(s: &S) -> bool {
        matches!(s, S::Expr(_) | S::Return(_) | S::Throw(_) | S::Var(_) | S::Set(..) | S::Continue(_) | S::Break(_) | S::Goto(_) | S::Del(_) | S::Crash(_))
    }
    /// Pick a style for a block in this context.
    pub fn choose(&mut self, ctx: Ctx) -> Style {
        match ctx {
            Ctx::One => Style::BraceOne,
            Ctx::Line(d) => {
                let multi_ok = self.unit.len() == 1 || d >= 1;
                let st = match self.style {
                    Style::Any => *self.g.pick(&[Style::Indent, Style::BraceMulti, Style::BraceOne, Style::Indent]),
                    s => s,
                };
                let st = if st == Style::BraceMulti && !multi_ok { Style::Indent } else { st };
                self.used.insert(match st {
                    Style::Indent => "indent",
                    Style::BraceMulti => "braces over lines",
                    _ => "braces on one line",
                });
                st
            },
        }
    }
    /// The brace opening a block over several lines, after the header or below it.
    pub fn lbrace(&mut self, d: usize) {
        if self.g.chance(1, 4) {
            self.used.insert("brace on its own line");
            self.newline(d);
            self.put("{");
        } else {
            self.put(" {");
        }
    }
    /// A block after its header. Gives whether the text ends in a closing brace or semicolon on the same line.
    pub fn block(&mut self, b: &Blk, ctx: Ctx, inline: bool) -> bool {
        let g = self.g;
        if b.is_empty() {
            return match ctx {
                Ctx::One => {
                    if g.bool() {
                        self.put(" {}");
                    } else {
                        self.put(";");
                    }
                    true
                },
                Ctx::Line(_) => match (g.usize(3), self.style) {
                    (0, _) | (_, Style::Indent) => false,
                    (1, _) => {
                        self.put(";");
                        true
                    },
                    _ => {
                        self.put(" {}");
                        true
                    },
                },
            };
        }
        if b.len() == 1 && inline && Self::simple(&b[0]) && g.chance(1, 3) {
            self.used.insert("one statement on the header line");
            self.sp();
            self.s(&b[0], ctx);
            return match ctx {
                Ctx::One => {
                    self.put(";");
                    true
                },
                Ctx::Line(_) => {
                    if g.chance(1, 4) {
                        self.put(";");
                        true
                    } else {
                        false
                    }
                },
            };
        }
        match self.choose(ctx) {
            Style::BraceOne => {
                self.put(if g.bool() { " {" } else { "{" });
                self.stmts(b, Ctx::One);
                self.put("}");
                true
            },
            Style::BraceMulti => {
                let Ctx::Line(d) = ctx else { unreachable!() };
                self.lbrace(d);
                self.stmts(b, Ctx::Line(d + 1));
                self.newline(d);
                self.put("}");
                true
            },
            _ => {
                let Ctx::Line(d) = ctx else { unreachable!() };
                self.stmts(b, Ctx::Line(d + 1));
                false
            },
        }
    }
    /// The word continuing a compound statement (else, while, catch).
    fn cont(&mut self, word: &str, ctx: Ctx, closed: bool) {
        match ctx {
            Ctx::One => self.sp(),
            Ctx::Line(d) => {
                if closed && self.g.bool() {
                    self.sp();
                } else {
                    self.newline(d);
                }
            },
        }
        self.put(word);
    }
    fn vt(&mut self, vt: &VT, name: &str) {
        if let Some((f, p)) = vt {
            self.put("var/");
            for x in f.iter().map(|x| x.to_string()).chain(p.iter().cloned()) {
                self.put(&x);
                self.put("/");
            }
        }
        self.put(name);
    }
    pub fn var_tail(&mut self, v: &VarS, max: u8) {
        for x in v.flags.iter().map(|x| x.to_string()).chain(v.path.iter().cloned()) {
            self.put(&x);
            self.put("/");
        }
        self.put(&v.name);
        for s in &v.suffix {
            self.put("[");
            if let Some(e) = s {
                self.e(e, IN);
            }
            self.put("]");
        }
        if let Some(e) = &v.value {
            self.put(if self.g.bool() { " = " } else { "= " });
            self.e(e, max);
        }
    }
    fn as_types(&mut self, ty: &[&'static str]) {
        if !ty.is_empty() {
            self.put(&format!(" as {}", ty.join("|")));
        }
    }
    fn open(&mut self, kw: &str) {
        self.put(kw);
        self.put(if self.g.chance(1, 4) { " (" } else { "(" });
    }
    pub fn s(&mut self, s: &S, ctx: Ctx) {
        self.starts.push((self.line, self.col));
        let g = self.g;
        match s {
            S::Expr(e) => self.e(e, IN),
            S::Return(e) => {
                self.put("return");
                if let Some(e) = e {
                    self.sp();
                    self.e(e, IN);
                }
            },
            S::Throw(e) => {
                self.put("throw ");
                self.e(e, IN);
            },
            S::While(e, b) => {
                self.open("while");
                self.e(e, IN);
                self.put(")");
                self.block(b, ctx, true);
            },
            S::DoWhile(b, e) => {
                self.put("do");
                let c = self.block(b, ctx, true);
                self.cont("while", ctx, c);
                self.put("(");
                self.e(e, IN);
                self.put(")");
            },
            S::If(arms, els) => {
                let mut c = false;
                for (i, (e, b)) in arms.iter().enumerate() {
                    if i == 0 {
                        self.open("if");
                    } else {
                        self.cont("else if", ctx, c);
                        self.put("(");
                    }
                    self.e(e, IN);
                    self.put(")");
                    c = self.block(b, ctx, true);
                }
                if let Some(b) = els {
                    self.cont("else", ctx, c);
                    self.block(b, ctx, true);
                }
            },
            S::ForInf(b) => {
                self.open("for");
                self.put(")");
                self.block(b, ctx, true);
            },
            S::ForLoop { comma, init, test, inc, two, blk } => {
                let sep = if *comma { "," } else { ";" };
                self.open("for");
                match init.as_deref() {
                    Some(S::Expr(e)) => self.e(e, ASSIGN),
                    Some(S::Var(v)) => {
                        self.put("var/");
                        self.var_tail(&v[0], ASSIGN);
                    },
                    _ => {},
                }
                self.put(sep);
                if let Some(t) = test {
                    self.sp();
                    self.e(t, ASSIGN);
                }
                if !*two {
                    self.put(sep);
                    if let Some(i) = inc {
                        self.sp();
                        self.e(i, ASSIGN);
                    }
                }
                self.put(")");
                self.block(blk, ctx, true);
            },
            S::ForList { vt, name, ty, list, blk } => {
                self.open("for");
                self.vt(vt, name);
                self.as_types(ty);
                if let Some(l) = list {
                    self.put(" in ");
                    self.e(l, ASSIGN);
                }
                self.put(")");
                self.block(blk, ctx, true);
            },
            S::ForKV { vt, key, ty, val, list, blk } => {
                self.open("for");
                self.vt(vt, key);
                self.as_types(ty);
                self.put(if g.bool() { ", " } else { "," });
                self.put(val);
                self.put(" in ");
                self.e(list, ASSIGN);
                self.put(")");
                self.block(blk, ctx, true);
            },
            S::ForRange { vt, name, eq, start, end, step, blk } => {
                self.open("for");
                self.vt(vt, name);
                self.put(if *eq { " = " } else { " in " });
                self.e(start, ASSIGN);
                self.put(" to ");
                self.e(end, ASSIGN);
                if let Some(s) = step {
                    self.put(" step ");
                    self.e(s, ASSIGN);
                }
                self.put(")");
                self.block(blk, ctx, true);
            },
            S::Var(vs) => {
                self.put("var/");
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        self.put(", ");
                    }
                    self.var_tail(v, ASSIGN);
                }
            },
            S::Set(n, is_in, e) => {
                self.put(&format!("set {} {} ", n, if *is_in { "in" } else { "=" }));
                self.e(e, ASSIGN);
            },
            S::Spawn(parens, e, b) => {
                self.put("spawn");
                if *parens {
                    self.put("(");
                    if let Some(e) = e {
                        self.e(e, IN);
                    }
                    self.put(")");
                }
                self.block(b, ctx, *parens);
            },
            S::Switch(e, cs, d) => {
                self.open("switch");
                self.e(e, IN);
                self.put(")");
                let st = self.choose(ctx);
                let inner = match (st, ctx) {
                    (Style::BraceOne, _) => {
                        self.put("{");
                        Ctx::One
                    },
                    (Style::BraceMulti, Ctx::Line(d)) => {
                        self.lbrace(d);
                        Ctx::Line(d + 1)
                    },
                    (_, Ctx::Line(d)) => Ctx::Line(d + 1),
                    _ => unreachable!(),
                };
                for (cases, b) in cs {
                    if let Ctx::Line(d) = inner {
                        self.newline(d);
                    } else {
                        self.sp();
                    }
                    self.open("if");
                    for (i, c) in cases.iter().enumerate() {
                        if i > 0 {
                            self.put(", ");
                        }
                        match c {
                            C::Exact(e) => self.e(e, ASSIGN),
                            C::Range(a, b) => {
                                self.e(a, ASSIGN);
                                self.put(" to ");
                                self.e(b, ASSIGN);
                            },
                        }
                    }
                    self.put(")");
                    self.block(b, inner, true);
                }
                if let Some(b) = d {
                    if let Ctx::Line(d) = inner {
                        self.newline(d);
                    } else {
                        self.sp();
                    }
                    self.put("else");
                    self.block(b, inner, true);
                }
                match (st, ctx) {
                    (Style::BraceOne, _) => self.put("}"),
                    (Style::BraceMulti, Ctx::Line(d)) => {
                        self.newline(d);
                        self.put("}");
                    },
                    _ => {},
                }
            },
            S::Try(a, p, b) => {
                self.put("try");
                let c = self.block(a, ctx, true);
                self.cont("catch", ctx, c);
                if !p.is_empty() {
                    self.put(&format!("({})", p.join(", ")));
                }
                self.block(b, ctx, !p.is_empty());
            },
            S::Continue(l) | S::Break(l) => {
                self.put(if matches!(s, S::Continue(_)) { "continue" } else { "break" });
                if let Some(l) = l {
                    self.sp();
                    self.put(l);
                }
            },
            S::Goto(l) => self.put(&format!("goto {}", l)),
            S::Label(n, b) => {
                self.put(&format!("{}: ", n));
                self.block(b, ctx, true);
            },
            S::Del(e) => {
                self.put("del ");
                self.e(e, IN);
            },
            S::Crash(e) => {
                self.put("CRASH(");
                if let Some(e) = e {
                    self.e(e, IN);
                }
                self.put(")");
            },
        }
    }
}

pub fn parse_program(text: &str) -> (Context, dm::objtree::ObjectTree) {
    let ctx = Context::default();
    let tree = {
        let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), text);
        let ind = dm::indents::IndentProcessor::new(&ctx, pp);
        let mut parser = dm::parser::Parser::new(&ctx, ind);
        parser.enable_procs();
        parser.parse_object_tree()
    };
    (ctx, tree)
}

pub fn diags(ctx: &Context) -> Vec<String> {
    ctx.errors().iter().map(|e| format!("{}:{}: {}", e.location().line, e.location().column, e.description())).collect()
}

fn pick_unit(g: &G) -> &'static str {
    *g.pick(&["\t", "    ", "  ", " ", "\t\t"])
}

fn bodies(g: &G) -> R {
    let names = Names::new();
    let depth = 1 + g.len(0, 3);
    let b = gen_blk(g, &names, depth, 4);
    let want = blk_sx(&b);
    g.nontrivial(want.matches('{').count() >= 2 && b.len() >= 1);
    for l in ["if ", "while ", "do ", "for {", "forloop", "forlist", "forkv", "forrange", "vars(", "set ", "spawn ", "switch ", "try ", "continue ", "break ", "goto ", "label ", "del ", "crash ", "return ", "throw "] {
        g.label_if(want.contains(l), l);
    }
    let mut w = W::new(g, Style::Any, pick_unit(g), g.bool());
    w.put("/proc/p()");
    // a first statement on the same line would make `as(mob)` the return type
    w.block(&b, Ctx::Line(0), !want.contains("as:"));
    w.put("\n/proc/q()\n");
    if w.text.len() > 20000 {
        return g.discard();
    }
    g.note(&w.text);
    let used: Vec<&str> = w.used.iter().copied().collect();
    for u in &used {
        g.label(u);
    }
    let (ctx, tree) = parse_program(&w.text);
    let ds = diags(&ctx);
    ensure!(ds.is_empty(), "diagnostics", "well-formed procedure body gives {:?}", ds);
    let Some(p) = tree.root().get_proc("p") else {
        return fail("missing", "procedure missing");
    };
    ensure!(tree.root().get_proc("q").is_some(), "next", "the procedure after it is missing");
    let Some(code) = &p.get().code else {
        return fail("no-code", "no body");
    };
    let mut seen = Seen::new();
    let got = p_blk(code, &mut seen);
    ensure!(got == want, "statements", "\n  parsed as {}\n  should be {}", got, want);
    let locs: Vec<(u32, u16)> = seen.stmts.iter().map(|l| (l.line, l.column)).collect();
    ensure!(locs == w.starts, "location", "statement locations\n  reported {:?}\n   written {:?}", locs, w.starts);
    let pos = positions(&w.text);
    for (name, loc) in &seen.idents {
        if let Some(&(line, col)) = pos.get(name) {
            ensure!(loc.line == line && loc.column == col, "ident-location", "{} located at {}:{}, written at {}:{}", name, loc.line, loc.column, line, col);
        }
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "a case counts when the body has at least one statement and at least one nested block",
        assumptions: &[
            "local declarations carry only static, global and const flags and no `as` clause (the others are diagnosed as having no effect)",
            "a block written with braces over several lines directly at column one uses a one-character indentation unit",
        ],
        subs: vec![Sub { name: "bodies", quick: 120000, thorough: 3000000, run: bodies }],
    }
}
