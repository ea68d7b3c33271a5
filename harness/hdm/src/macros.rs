//! C06 and C08: macro expansion against a reference expander, and the recorded history.
use crate::prep::*;
use dm::lexer::*;
use dm::preprocessor::*;
use dm::{Context, FileId, Location};
use engine::*;
use interval_tree::range;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Int(i64),
    Str(String),
    P(&'static str),
    /// `"text[`, `]text[`, `]text"`
    IB(String),
    IP(String),
    IE(String),
    Nl,
    /// stringified argument (only in expansions)
    Strd(Vec<T>),
    /// in macro bodies
    Paste,
    Hash,
}

impl T {
    fn text(&self) -> String {
        match self {
            T::Id(s) => s.clone(),
            T::Int(i) => i.to_string(),
            T::Str(s) => format!("\"{}\"", s),
            T::P(p) => p.to_string(),
            T::IB(s) => format!("\"{}[", s),
            T::IP(s) => format!("]{}[", s),
            T::IE(s) => format!("]{}\"", s),
            T::Nl => "\n".into(),
            T::Paste => "##".into(),
            T::Hash => "#".into(),
            T::Strd(_) => "<strd>".into(),
        }
    }
}

fn tok_matches(e: &T, t: &Token) -> bool {
    match (e, t) {
        (T::Strd(ts), Token::String(s)) => {
            // the text of the argument: reads back as the same tokens
            let ctx = Context::default();
            let got: Vec<Token> = Lexer::new(&ctx, FileId::default(), s.as_bytes().to_vec()).map(|t| t.token).filter(|t| !is_nl(t)).collect();
            let want: Vec<&T> = ts.iter().filter(|t| **t != T::Nl).collect();
            ctx.errors().is_empty() && got.len() == want.len() && got.iter().zip(want).all(|(a, b)| tok_matches(b, a))
        },
        (T::Id(a), Token::Ident(b, _)) => a.as_str() == b.as_str(),
        (T::Int(a), Token::Int(b)) => *a == *b as i64,
        (T::Str(a), Token::String(b)) => a == b,
        (T::P(a), Token::Punct(p)) => *a == p.to_string(),
        (T::IB(a), Token::InterpStringBegin(b)) => a == b,
        (T::IP(a), Token::InterpStringPart(b)) => a == b,
        (T::IE(a), Token::InterpStringEnd(b)) => a == b,
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    /// None: object-like
    params: Option<Vec<String>>,
    variadic: bool,
    /// the variadic parameter is written as a bare `...`
    bare: bool,
    body: Vec<T>,
    /// serial number, for telling definitions apart
    id: usize,
}

/// (file, line, column)
pub type Pos = (u16, u32, u16);

#[derive(Clone, Debug)]
pub struct InTok {
    t: T,
    at: Pos,
    depth: u32,
}

#[derive(Default, Clone)]
pub struct Live {
    macros: BTreeMap<String, Vec<(M, Pos)>>,
}

pub enum Overrun {
    Deep,
    Long,
}

impl Live {
    fn get(&self, n: &str) -> Option<&M> {
        self.macros.get(n).and_then(|v| v.last()).map(|x| &x.0)
    }
    /// Textual replacement with rescanning.
    fn expand(&self, input: Vec<InTok>, file: &str, out: &mut Vec<InTok>, diags: &mut Vec<(Pos, String)>) -> Result<(), Overrun> {
        let mut q: VecDeque<InTok> = input.into();
        let mut steps = 0;
        while let Some(it) = q.pop_front() {
            steps += 1;
            if steps > 4000 || q.len() > 4000 {
                return Err(Overrun::Long);
            }
            let T::Id(ref name) = it.t else {
                out.push(it);
                continue;
            };
            if name == "__LINE__" {
                out.push(InTok { t: T::Int(it.at.1 as i64), ..it });
                continue;
            }
            if name == "__FILE__" {
                out.push(InTok { t: T::Str(file.to_owned()), ..it });
                continue;
            }
            let Some(m) = self.get(name) else {
                out.push(it);
                continue;
            };
            if it.depth >= 28 {
                return Err(Overrun::Deep);
            }
            let mut last_depth = it.depth;
            let body: Vec<T> = match &m.params {
                None => m.body.clone(),
                Some(ps) => {
                    if q.front().map(|x| &x.t) != Some(&T::P("(")) {
                        out.push(it);
                        continue;
                    }
                    q.pop_front();
                    let mut args: Vec<Vec<T>> = vec![vec![]];
                    let mut depth = 0;
                    loop {
                        let x = q.pop_front().expect("generated calls are closed");
                        last_depth = x.depth;
                        match &x.t {
                            T::P(")") if depth == 0 => break,
                            T::P(",") if depth == 0 => {
                                args.push(vec![]);
                                continue;
                            },
                            T::P("(") => depth += 1,
                            T::P(")") => depth -= 1,
                            T::Nl => continue,
                            _ => {},
                        }
                        args.last_mut().unwrap().push(x.t);
                    }
                    let fixed = ps.len() - m.variadic as usize;
                    let ok = if m.variadic { args.len() >= fixed.max(1) } else { args.len() == ps.len() };
                    if !ok {
                        diags.push((it.at, "wrong number of arguments to macro call".into()));
                        continue;
                    }
                    let mut vals: BTreeMap<&str, Vec<T>> = BTreeMap::new();
                    for i in 0..fixed {
                        vals.insert(&ps[i], args[i].clone());
                    }
                    if m.variadic {
                        let mut rest: Vec<T> = vec![];
                        for (k, a) in args.iter().enumerate().skip(fixed) {
                            if k > fixed {
                                rest.push(T::P(","));
                            }
                            rest.extend(a.iter().cloned());
                        }
                        vals.insert(&ps[fixed], rest);
                    }
                    // split the body into chains of operands joined by ##
                    let mut res: Vec<T> = vec![];
                    let mut i = 0;
                    while i < m.body.len() {
                        if m.body[i] == T::Hash {
                            let T::Id(p) = &m.body[i + 1] else { panic!() };
                            res.push(T::Strd(vals[p.as_str()].clone()));
                            i += 2;
                            continue;
                        }
                        let subst = |t: &T| match t {
                            T::Id(n) => vals.get(n.as_str()).cloned().unwrap_or_else(|| vec![t.clone()]),
                            t => vec![t.clone()],
                        };
                        let mut acc = subst(&m.body[i]);
                        i += 1;
                        while i < m.body.len() && m.body[i] == T::Paste {
                            let mut r: VecDeque<T> = subst(&m.body[i + 1]).into();
                            i += 2;
                            if let (Some(T::Id(a)), Some(b)) = (acc.last(), r.front()) {
                                let joined = match b {
                                    T::Id(b) => Some(format!("{}{}", a, b)),
                                    T::Int(b) => Some(format!("{}{}", a, b)),
                                    _ => None,
                                };
                                if let Some(j) = joined {
                                    acc.pop();
                                    r.pop_front();
                                    acc.push(T::Id(j));
                                }
                            }
                            acc.extend(r);
                        }
                        res.extend(acc);
                    }
                    res
                },
            };
            for t in body.into_iter().rev() {
                q.push_front(InTok { t, at: it.at, depth: last_depth + 1 });
            }
        }
        Ok(())
    }
}

// ---- generation

const OBJ: &[&str] = &["A", "B", "C", "D"];
const FUN: &[&str] = &["F", "G", "H", "K"];
const VAR: &[&str] = &["x", "y", "z", "q1"];
const PARAMS: &[&str] = &["p", "q", "r", "A", "x"];

fn word(g: &G) -> T {
    match g.weighted(&[5, 4, 3, 1, 2, 1, 1]) {
        0 => T::Id(g.pick(VAR).to_string()),
        1 => T::Id(g.pick(OBJ).to_string()),
        2 => T::Int(g.range(0, 99)),
        3 => T::Str(g.pick(&["s", "", "A F(x)", "a, b)", "p"]).to_string()),
        4 => T::Id(g.pick(FUN).to_string()),
        5 => T::Id("__LINE__".into()),
        _ => T::P(g.pick(&["+", "-", "*", ";", ".", "=", "?", "[", "]", "/", "<"])),
    }
}

/// Tokens with balanced parentheses; `min` is the lowest macro index that may be named.
fn gen_toks(g: &G, depth: usize, max: usize, out: &mut Vec<T>, arg: bool) {
    let n = g.usize(max + 1);
    for _ in 0..n {
        match g.weighted(&[8, if depth > 0 { 6 } else { 0 }, if depth > 0 { 2 } else { 0 }, if depth > 0 { 1 } else { 0 }, if arg { 1 } else { 0 }]) {
            0 => out.push(word(g)),
            1 => {
                // a call; usually with a plausible number of arguments
                out.push(T::Id(g.pick(FUN).to_string()));
                out.push(T::P("("));
                let n = g.weighted(&[4, 4, 2, 1]);
                for i in 0..=n {
                    if i > 0 {
                        out.push(T::P(","));
                    }
                    gen_toks(g, depth - 1, 3, out, true);
                }
                out.push(T::P(")"));
            },
            2 => {
                out.push(T::P("("));
                gen_toks(g, depth - 1, 3, out, arg);
                if arg && g.bool() {
                    out.push(T::P(","));
                    out.push(word(g));
                }
                out.push(T::P(")"));
            },
            3 => {
                out.push(T::IB(g.pick(&["", "a ", "(,"]).to_string()));
                out.push(word_plain(g));
                if g.bool() {
                    out.push(T::IP(g.pick(&["", "b)", " p "]).to_string()));
                    out.push(word_plain(g));
                }
                out.push(T::IE(g.pick(&["", " c", ")"]).to_string()));
            },
            _ => out.push(T::Nl),
        }
    }
}
fn word_plain(g: &G) -> T {
    match g.usize(3) {
        0 => T::Id(g.pick(VAR).to_string()),
        1 => T::Id(g.pick(OBJ).to_string()),
        _ => T::Int(g.range(0, 9)),
    }
}

fn index(n: &str) -> usize {
    FUN.iter().position(|x| *x == n).or_else(|| OBJ.iter().position(|x| *x == n).map(|i| i + FUN.len())).unwrap_or(99)
}

/// Keep macro use acyclic: a body only names macros with a higher index.
fn acyclic(name: &str, body: &mut Vec<T>, params: &[String]) {
    let me = index(name);
    for t in body.iter_mut() {
        if let T::Id(n) = t {
            if index(n) <= me && !params.contains(n) {
                *t = T::Id("v".into());
            }
        }
    }
}

fn gen_macro(g: &G, name: &str, id: usize) -> M {
    let fun = if FUN.contains(&name) { !g.chance(1, 8) } else { g.chance(1, 12) };
    let mut body = vec![];
    if !fun {
        gen_toks(g, 1, 4, &mut body, false);
        acyclic(name, &mut body, &[]);
        // `#define A (x)` needs a space, which the writer provides
        return M { params: None, variadic: false, bare: false, body, id };
    }
    let mut ps: Vec<String> = PARAMS.iter().map(|x| x.to_string()).collect();
    g.shuffle(&mut ps);
    ps.truncate(1 + g.weighted(&[4, 4, 2, 1]));
    let variadic = g.chance(1, 4);
    let bare = variadic && g.bool();
    if bare {
        *ps.last_mut().unwrap() = "__VA_ARGS__".into();
    }
    let n = g.usize(6);
    for _ in 0..n {
        let operand = |g: &G| if g.chance(2, 3) { T::Id(g.pick(&ps).clone()) } else { T::Id(g.pick(&["x", "v", "A", "_w"]).to_string()) };
        match g.weighted(&[6, 3, 2, 2]) {
            0 => body.push(T::Id(g.pick(&ps).clone())),
            1 => gen_toks(g, 1, 3, &mut body, false),
            2 => {
                body.push(operand(g));
                for _ in 0..1 + g.weighted(&[4, 1]) {
                    body.push(T::Paste);
                    body.push(if g.chance(1, 6) { T::Int(g.range(0, 9)) } else { operand(g) });
                    if matches!(body.last(), Some(T::Int(_))) {
                        break;
                    }
                }
            },
            _ => {
                body.push(T::Hash);
                body.push(T::Id(g.pick(&ps).clone()));
            },
        }
    }
    acyclic(name, &mut body, &ps);
    M { params: Some(ps), variadic, bare, body, id }
}

#[derive(Clone, Debug)]
enum Ln {
    Def(String, M),
    Undef(String),
    Use(Vec<T>),
}

fn gen_line(g: &G, id: usize) -> Ln {
    let name = |g: &G| if g.bool() { g.pick(FUN).to_string() } else { g.pick(OBJ).to_string() };
    match g.weighted(&[5, 2, 5]) {
        0 => {
            let n = name(g);
            let m = gen_macro(g, &n, id);
            Ln::Def(n, m)
        },
        1 => Ln::Undef(name(g)),
        _ => {
            let mut ts = vec![];
            gen_toks(g, 2, 5, &mut ts, false);
            Ln::Use(ts)
        },
    }
}

pub struct Wr<'a> {
    g: &'a G,
    pub text: String,
    line: u32,
    col: u16,
}

impl<'a> Wr<'a> {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
        self.text.push_str(s);
    }
    fn pos(&self, file: u16) -> Pos {
        (file, self.line, self.col)
    }
    /// Write tokens separated by blanks; gives their positions.
    fn toks(&mut self, ts: &[T], file: u16) -> Vec<InTok> {
        let mut out: Vec<InTok> = vec![];
        for (i, t) in ts.iter().enumerate() {
            if i > 0 {
                let glue = match (&ts[i - 1], t) {
                    (T::Id(_), T::P("(")) | (T::P("("), _) | (_, T::P(")" | ",")) | (T::Hash, _) | (_, T::Paste) | (T::Paste, _) => self.g.bool(),
                    (T::Nl, _) | (_, T::Nl) => true,
                    _ => false,
                };
                if !glue {
                    self.put(" ");
                } else if ts[i - 1] == T::Nl && self.g.bool() {
                    self.put("\t");
                }
            }
            let at = self.pos(file);
            self.put(&t.text());
            out.push(InTok { t: t.clone(), at, depth: 0 });
        }
        out
    }
    fn define(&mut self, n: &str, m: &M, file: u16) -> Pos {
        self.put("#define ");
        let at = self.pos(file);
        self.put(n);
        if let Some(ps) = &m.params {
            self.put("(");
            for (i, p) in ps.iter().enumerate() {
                if i > 0 {
                    self.put(",");
                    if self.g.bool() {
                        self.put(" ");
                    }
                }
                let last = i + 1 == ps.len();
                if last && m.bare {
                    self.put("...");
                } else {
                    self.put(p);
                    if last && m.variadic {
                        self.put("...");
                    }
                }
            }
            self.put(")");
        }
        if !m.body.is_empty() {
            self.put(" ");
            let mut b = m.body.clone();
            b.retain(|t| *t != T::Nl);
            self.toks(&b, file);
        }
        at
    }
}

/// What one file of directives and uses does, by the reference.
#[derive(Default)]
struct Outcome {
    out: Vec<InTok>,
    diags: Vec<(Pos, String)>,
}

/// Write and interpret the lines. `seen` is told the live state before and after each line.
fn run_lines(w: &mut Wr, lines: &[Ln], file: u16, fname: &str, live: &mut Live, o: &mut Outcome, seen: &mut dyn FnMut(Pos, &Live)) -> Result<(), Overrun> {
    for l in lines {
        seen(w.pos(file), live);
        match l {
            Ln::Def(n, m) => {
                let at = w.define(n, m, file);
                let mut m = m.clone();
                m.body.retain(|t| *t != T::Nl);
                if live.get(n).is_some() {
                    o.diags.push((at, format!("macro redefined: {}", n)));
                }
                live.macros.entry(n.clone()).or_default().push((m, at));
            },
            Ln::Undef(n) => {
                w.put("#undef ");
                let at = w.pos(file);
                if live.get(n).is_none() {
                    o.diags.push((at, format!("macro undefined while not defined: {}", n)));
                } else {
                    live.macros.get_mut(n).unwrap().pop();
                }
                w.put(n);
            },
            Ln::Use(ts) => {
                let mut ts = ts.clone();
                // a function macro's name ending a line must not swallow the next line
                ts.push(T::Nl);
                let mut it = w.toks(&ts[..ts.len() - 1], file);
                it.push(InTok { t: T::Nl, at: w.pos(file), depth: 0 });
                live.expand(it, fname, &mut o.out, &mut o.diags)?;
            },
        }
        w.put("\n");
    }
    Ok(())
}

fn show(o: &[InTok]) -> String {
    o.iter().map(|t| format!("{}@{}:{}", match &t.t { T::Strd(ts) => format!("#({})", ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ")), t => t.text() }, t.at.1, t.at.2)).collect::<Vec<_>>().join(" ")
}
fn show_got(o: &[LocatedToken]) -> String {
    o.iter().map(|t| format!("{}@{}:{}", canon(&t.token), t.location.line, t.location.column)).collect::<Vec<_>>().join(" ")
}

fn cmp_tokens(want: &[InTok], got: &[LocatedToken], text: &str, file: impl Fn(FileId) -> u16) -> R {
    let want: Vec<InTok> = want.iter().filter(|t| t.t != T::Nl).cloned().collect();
    let got: Vec<LocatedToken> = got.iter().filter(|t| !is_nl(&t.token)).cloned().collect();
    let same = want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| tok_matches(&a.t, &b.token));
    ensure!(same, "expansion", "expansion of\n{}\n   got: {}\n  want: {}", text, show_got(&got), show(&want));
    for (a, b) in want.iter().zip(&got) {
        let l = b.location;
        ensure!((file(l.file), l.line, l.column) == a.at, "location", "{} should be at {:?} but is at {:?} in\n{}\n   got: {}\n  want: {}", canon(&b.token), a.at, l, text, show_got(&got), show(&want));
    }
    Ok(())
}

fn cmp_diags(want: &[(Pos, String)], ctx: &Context, text: &str) -> R {
    let mut want: Vec<(u32, u16, String)> = want.iter().map(|d| (d.0 .1, d.0 .2, d.1.clone())).collect();
    let mut got: Vec<(u32, u16, String)> = ctx.errors().iter().filter(|e| !e.description().contains("BYOND bug")).map(|e| (e.location().line, e.location().column, e.description().to_owned())).collect();
    // where in a call with the wrong number of arguments it is reported is not prescribed
    for d in want.iter_mut().chain(&mut got) {
        if d.2.starts_with("wrong number") {
            (d.0, d.1) = (0, 0);
        }
    }
    want.sort();
    got.sort();
    ensure_eq!(got, want, "diagnostics", "diagnostics of\n{}", text);
    Ok(())
}

fn expansion(g: &G) -> R {
    let n = g.len(1, 14);
    let lines: Vec<Ln> = (0..n).map(|i| gen_line(g, i)).collect();
    let mut w = Wr { g, text: String::new(), line: 1, col: 1 };
    let mut live = Live::default();
    let mut o = Outcome::default();
    if run_lines(&mut w, &lines, 1, "test.dm", &mut live, &mut o, &mut |_, _| {}).is_err() {
        return g.discard();
    }
    g.note(&w.text);
    let used = lines.iter().any(|l| matches!(l, Ln::Use(ts) if ts.iter().any(|t| matches!(t, T::Id(n) if index(n) < 99))));
    g.nontrivial(used && o.out.len() > 3 && lines.iter().any(|l| matches!(l, Ln::Def(_, m) if m.params.is_some())));
    g.label_if(w.text.contains("##"), "paste");
    g.label_if(o.out.iter().any(|t| matches!(t.t, T::Strd(_))), "stringify used");
    g.label_if(o.out.iter().any(|t| t.depth >= 3), "expansion three deep");
    g.label_if(o.diags.iter().any(|d| d.1.contains("redefined")), "redefinition");
    g.label_if(o.diags.iter().any(|d| d.1.contains("wrong number")), "wrong argument count");
    let ctx = Context::default();
    let got = run_pp(&ctx, &w.text);
    cmp_tokens(&o.out, &got, &w.text, |_| 1)?;
    cmp_diags(&o.diags, &ctx, &w.text)
}

/// A macro call spread over lines is still one statement.
fn statements(g: &G) -> R {
    let mut calls = (String::new(), String::new());
    let n = 1 + g.usize(3);
    let mut text = String::from("#define ADD(a, b) a + b\n#define WRAP(a...) (a)\n#define PAIR(x, y) f(x, y)\n#define ID(x) x\n");
    fn call(g: &G, depth: usize, a: &mut String, b: &mut String) {
        if depth == 0 || g.chance(1, 3) {
            let s = g.pick(&["1", "v", "\"s\"", "w.x", "h(2)"]);
            a.push_str(s);
            b.push_str(s);
            return;
        }
        let f = g.usize(4);
        a.push_str(["ADD(", "WRAP(", "PAIR(", "ID("][f]);
        b.push_str(["", "(", "f(", ""][f]);
        let n = [2, 1, 2, 1][f];
        let brk = |g: &G, a: &mut String| {
            if g.chance(1, 3) {
                a.push('\n');
                for _ in 0..g.usize(4) {
                    a.push('\t');
                }
            }
        };
        for i in 0..n {
            if i > 0 {
                a.push(',');
                b.push_str(if f == 0 { " + " } else { ", " });
            }
            brk(g, a);
            call(g, depth - 1, a, b);
            brk(g, a);
        }
        a.push(')');
        b.push_str(["", ")", ")", ""][f]);
    }
    let mut plain = String::new();
    text.push_str("/proc/p()\n");
    plain.push_str("/proc/p()\n");
    for _ in 0..n {
        calls.0.clear();
        calls.1.clear();
        call(g, 1 + g.usize(3), &mut calls.0, &mut calls.1);
        let pre = *g.pick(&["\tx = ", "\treturn ", "\tf2(", "\tif(x) y = "]);
        let post = if pre.contains("f2") { ")" } else { "" };
        text.push_str(&format!("{}{}{}\n", pre, calls.0, post));
        plain.push_str(&format!("{}{}{}\n", pre, calls.1, post));
    }
    g.note(&text);
    g.nontrivial(text.matches('\n').count() > plain.matches('\n').count() + 4);
    let (c1, t1) = crate::stmts::parse_program(&text);
    let (c2, t2) = crate::stmts::parse_program(&plain);
    let e = |c: &Context| c.errors().iter().map(|e| e.description().to_owned()).collect::<Vec<_>>();
    ensure_eq!(e(&c1), e(&c2), "diagnostics", "diagnostics of\n{}\n--- against\n{}", text, plain);
    ensure_eq!(crate::tree::dump(&t1), crate::tree::dump(&t2), "structure", "parse of\n{}\n--- against\n{}", text, plain);
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "expansion: a program that defines a function-like macro and names a macro in a use that leaves more than three tokens; statements: a call really spread over lines",
        assumptions: &[
            "macros do not use themselves, directly or through others, and expansions stay under 28 levels and 4000 steps (the tool stops at 32 levels)",
            "a left operand of ## is an identifier or parameter; ## and # are only used in function-like macros; commas inside brackets of an argument are not generated",
            "a stringified argument is any text that reads back as the argument's tokens (spacing is not prescribed)",
        ],
        subs: vec![
            Sub { name: "expansion", quick: 200000, thorough: 10000000, run: expansion },
            Sub { name: "statements", quick: 30000, thorough: 1000000, run: statements },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// C08

/// One recorded definition: name, serial, start, where it was undefined, and the state of things.
#[derive(Clone, Debug)]
struct Ev {
    name: String,
    at: Pos,
    end: Option<Pos>,
}

struct Snap {
    at: Pos,
    live: BTreeMap<String, Vec<Pos>>,
}

fn live_pos(l: &Live) -> BTreeMap<String, Vec<Pos>> {
    l.macros.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.clone(), v.iter().map(|x| x.1).collect())).collect()
}

fn events(snaps: &[Snap], fin: &Live) -> Vec<Ev> {
    // walk the snapshots in reading order
    let mut evs: Vec<Ev> = vec![];
    let last = live_pos(fin);
    for i in 0..snaps.len() {
        let before = &snaps[i].live;
        let after = if i + 1 < snaps.len() { &snaps[i + 1].live } else { &last };
        for (n, v) in after {
            let b = before.get(n).map_or(0, |b| b.len());
            if v.len() > b {
                evs.push(Ev { name: n.clone(), at: v[v.len() - 1], end: None });
            }
        }
        for (n, b) in before {
            let a = after.get(n).map_or(0, |a| a.len());
            if a < b.len() {
                let at = b[b.len() - 1];
                evs.iter_mut().rev().find(|e| e.name == *n && e.at == at && e.end.is_none()).unwrap().end = Some(snaps[i].at);
            }
        }
    }
    evs
}

fn by_location(evs: &[Ev], at: Pos) -> BTreeMap<String, Vec<Pos>> {
    let mut m: BTreeMap<String, Vec<Pos>> = BTreeMap::new();
    for e in evs {
        if e.at <= at && e.end.is_none_or(|end| at <= end) {
            m.entry(e.name.clone()).or_default().push(e.at);
        }
    }
    for v in m.values_mut() {
        v.sort();
    }
    m
}

fn tree_at(h: &DefineHistory, l: Location, file: &dyn Fn(FileId) -> u16) -> BTreeMap<String, Vec<Pos>> {
    let mut m: BTreeMap<String, Vec<Pos>> = BTreeMap::new();
    for (r, (name, _)) in h.range(range(l, l)) {
        if index(name.as_str()) < 99 {
            m.entry(name.to_string()).or_default().push((file(r.start.file), r.start.line, r.start.column));
        }
    }
    m
}

fn probe_text(g: &G) -> (String, Vec<T>) {
    let mut ts = vec![];
    for n in OBJ.iter().chain(FUN) {
        ts.push(T::Id(n.to_string()));
        if FUN.contains(n) && g.bool() {
            ts.push(T::P("("));
            ts.push(T::Int(g.range(0, 9)));
            ts.push(T::P(","));
            ts.push(T::Int(g.range(0, 9)));
            ts.push(T::P(")"));
        }
        ts.push(T::P(";"));
    }
    let mut w = Wr { g, text: String::new(), line: 1, col: 1 };
    w.toks(&ts, 0);
    w.text.push('\n');
    (w.text, ts)
}

fn probe(g: &G, ctx: &Context, mut pp: Preprocessor, live: &Live, sig: &str, what: &str, text: &str) -> R {
    let (t, ts) = probe_text(g);
    if pp.push_file("probe.dm".into(), std::io::Cursor::new(t.clone().into_bytes())).is_err() {
        return fail("probe", "push_file failed");
    }
    let got: Vec<LocatedToken> = pp.by_ref().collect();
    // built-in definitions are there too
    let bt = format!("{} {} TRUE FALSE EXCEPTION(1) ASSERT(2)\n", g.pick(&["NORTH", "SEEMOBS", "ICON_ADD", "PI"]), g.pick(&["SOUTHWEST", "MALE", "EASE_IN", "DM_VERSION"]));
    if pp.push_file("builtin.dm".into(), std::io::Cursor::new(bt.clone().into_bytes())).is_err() {
        return fail("probe", "push_file failed");
    }
    let b: Vec<String> = pp.map(|t| canon(&t.token)).collect();
    let fresh: Vec<String> = Preprocessor::from_buffer(&Context::default(), "builtin.dm".into(), bt.clone()).map(|t| canon(&t.token)).collect();
    ensure_eq!(b, fresh, &format!("{}-builtins", sig), "{}: {:?} after\n{}", what, bt, text);
    let _ = ctx;
    let mut want = vec![];
    let mut ts = ts;
    ts.push(T::Nl);
    if live.expand(ts.into_iter().map(|t| InTok { t, at: (0, 1, 1), depth: 0 }).collect(), "probe.dm", &mut want, &mut vec![]).is_err() {
        return Ok(());
    }
    let got: Vec<&LocatedToken> = got.iter().filter(|t| !is_nl(&t.token)).collect();
    let want: Vec<InTok> = want.into_iter().filter(|t| t.t != T::Nl).collect();
    let same = want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| tok_matches(&a.t, &b.token));
    ensure!(same, sig, "{}: probe\n{}\n   got: {}\n  want: {}\nafter\n{}", what, t, got.iter().map(|t| canon(&t.token)).collect::<Vec<_>>().join(" "), show(&want), text);
    Ok(())
}

fn history_one(g: &G) -> R {
    let n = g.len(1, 16);
    let lines: Vec<Ln> = (0..n)
        .map(|i| match gen_line(g, i) {
            // mostly directives
            Ln::Use(_) if g.bool() => Ln::Undef(g.pick(OBJ).to_string()),
            l => l,
        })
        .collect();
    let mut w = Wr { g, text: String::new(), line: 1, col: 1 };
    let mut live = Live::default();
    let mut o = Outcome::default();
    let mut snaps = vec![];
    if run_lines(&mut w, &lines, 1, "test.dm", &mut live, &mut o, &mut |at, l| snaps.push(Snap { at, live: live_pos(l) })).is_err() {
        return g.discard();
    }
    g.note(&w.text);
    let evs = events(&snaps, &live);
    g.nontrivial(evs.len() >= 2 && evs.iter().any(|e| e.end.is_some()));
    g.label_if(snaps.iter().any(|s| s.live.values().any(|v| v.len() > 1)), "stacked definitions");
    let ctx = Context::default();
    let mut pp = Preprocessor::from_buffer(&ctx, "test.dm".into(), w.text.clone());
    let first = ctx.get_file("test.dm".as_ref()).unwrap();
    for _ in pp.by_ref() {}
    let h = pp.finalize();
    for s in &snaps {
        let got = tree_at(&h, Location { file: first, line: s.at.1, column: s.at.2 }, &|_| 1);
        ensure_eq!(got, s.live, "history", "in force at line {} of\n{}", s.at.1, w.text);
    }
    let got = tree_at(&h, Location { file: first, line: w.line, column: w.col }, &|_| 1);
    ensure_eq!(got, live_pos(&live), "history", "in force at the end of\n{}", w.text);
    // within a line: from the defined name on
    for e in &evs {
        let l = Location { file: first, line: e.at.1, column: e.at.2 };
        let got = tree_at(&h, l, &|_| 1);
        ensure!(got.get(&e.name).is_some_and(|v| v.contains(&e.at)), "history", "{} is not in force where it is defined, {:?}, in\n{}", e.name, e.at, w.text);
    }
    let c2 = Context::default();
    probe(g, &c2, h.branch_at_end(&c2), &live, "branch-at-end", "branch_at_end", &w.text)?;
    let c3 = Context::default();
    probe(g, &c3, h.branch_at_file(first, &c3), &Live::default(), "branch-at-file", "branch_at_file", &w.text)
}

struct FileM {
    lines: Vec<Ln>,
    /// (after which line, which file)
    includes: Vec<(usize, usize)>,
}

fn history_many(g: &G) -> R {
    let n = 2 + g.usize(4);
    let mut files: Vec<FileM> = (0..n)
        .map(|f| {
            let k = g.len(1, 6);
            FileM {
                lines: (0..k)
                    .map(|i| match gen_line(g, f * 20 + i) {
                        Ln::Use(_) if g.bool() => Ln::Undef(g.pick(OBJ).to_string()),
                        l => l,
                    })
                    .collect(),
                includes: vec![],
            }
        })
        .collect();
    // each later file is included once, from an earlier one
    let tail = g.chance(2, 3);
    for f in 1..n {
        let from = g.usize(f);
        // includes after all else: the order of locations is then the order of reading
        let at = if tail { files[from].lines.len() } else { g.usize(files[from].lines.len() + 1) };
        files[from].includes.push((at, f));
        files[from].includes.sort();
    }
    struct St<'a> {
        g: &'a G,
        texts: Vec<String>,
        live: Live,
        o: Outcome,
        snaps: Vec<Snap>,
        starts: Vec<(u16, Live)>,
        order: Vec<usize>,
        dir: String,
        defs: BTreeMap<Pos, M>,
    }
    fn go(st: &mut St, files: &[FileM], f: usize) -> Result<(), Overrun> {
        st.order.push(f);
        let id = st.order.len() as u16;
        st.starts.push((id, st.live.clone()));
        let mut w = Wr { g: st.g, text: String::new(), line: 1, col: 1 };
        let name = format!("{}/f{}.dm", st.dir, f);
        for i in 0..=files[f].lines.len() {
            for &(_, inc) in files[f].includes.iter().filter(|x| x.0 == i) {
                w.put(&format!("#include \"f{}.dm\"\n", inc));
                go(st, files, inc)?;
            }
            if i < files[f].lines.len() {
                let St { live, o, snaps, defs, .. } = &mut *st;
                run_lines(&mut w, &files[f].lines[i..i + 1], id, &name, live, o, &mut |at, l| snaps.push(Snap { at, live: live_pos(l) }))?;
                defs.extend(live.macros.values().flatten().map(|(m, p)| (*p, m.clone())));
            }
        }
        st.texts[f] = w.text;
        Ok(())
    }
    let dir = g.scratch();
    let mut st = St { g, texts: vec![String::new(); n], live: Live::default(), o: Outcome::default(), snaps: vec![], starts: vec![], order: vec![], dir: dir.to_string_lossy().into_owned(), defs: Default::default() };
    if go(&mut st, &files, 0).is_err() {
        return g.discard();
    }
    let mut text = String::new();
    for (i, t) in st.texts.iter().enumerate() {
        std::fs::write(dir.join(format!("f{}.dm", i)), t).unwrap();
        text.push_str(&format!("--- f{}.dm\n{}", i, t));
    }
    g.note(&text);
    let evs = events(&st.snaps, &st.live);
    g.nontrivial(evs.len() >= 2 && evs.iter().any(|e| e.end.is_some()));
    let ctx = Context::default();
    let mut pp = Preprocessor::new(&ctx, dir.join("f0.dm")).unwrap();
    let got: Vec<LocatedToken> = pp.by_ref().collect();
    let ids: BTreeMap<FileId, u16> = st
        .order
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let p = if i == 0 { dir.join("f0.dm") } else { format!("f{}.dm", f).into() };
            (ctx.get_file(&p).unwrap_or_default(), i as u16 + 1)
        })
        .collect();
    let back: BTreeMap<u16, FileId> = ids.iter().map(|(a, b)| (*b, *a)).collect();
    let file = |f: FileId| ids.get(&f).copied().unwrap_or(0);
    cmp_tokens(&st.o.out, &got, &text, file)?;
    let h = pp.finalize();
    let mut known: R = Ok(());
    for s in &st.snaps {
        let got = tree_at(&h, Location { file: back[&s.at.0], line: s.at.1, column: s.at.2 }, &file);
        if got != s.live {
            let loc = by_location(&evs, s.at);
            let sig = if got == loc { "location-order" } else { "history" };
            let r = fail(sig, format!("in force at {:?} of\n{}\n   got: {:?}\n  want: {:?}\nby location: {:?}", s.at, text, got, s.live, loc));
            if sig == "history" {
                return r;
            }
            known = r;
        }
    }
    // the final state; where files undefine each other's macros the stacks may differ in order
    let end = tree_at(&h, Location { file: FileId::default(), line: !0, column: 0 }, &file);
    let want = live_pos(&st.live);
    let sort = |m: &BTreeMap<String, Vec<Pos>>| -> BTreeMap<String, Vec<Pos>> {
        m.iter().map(|(k, v)| { let mut v = v.clone(); v.sort(); (k.clone(), v) }).collect()
    };
    ensure_eq!(sort(&end), sort(&want), "history", "in force at the end of\n{}", text);
    if sort(&want) == want {
        let c2 = Context::default();
        probe(g, &c2, h.branch_at_end(&c2), &st.live, "branch-at-end", "branch_at_end", &text)?;
    }
    for (id, live) in &st.starts {
        let want = live_pos(live);
        let located = by_location(&evs, (*id, 0, 0));
        // the answer by location order (also when that is not the right one, see the known finding)
        let by_loc = Live { macros: located.iter().map(|(n, v)| (n.clone(), v.iter().map(|p| (st.defs[p].clone(), *p)).collect())).collect() };
        let c3 = Context::default();
        let answer = if located == want { live } else { &by_loc };
        let r = probe(g, &c3, h.branch_at_file(back[id], &c3), answer, "branch-at-file", &format!("branch_at_file({})", id), &text);
        if r.is_err() && located != want {
            let c4 = Context::default();
            probe(g, &c4, h.branch_at_file(back[id], &c4), live, "branch-at-file", &format!("branch_at_file({})", id), &text)?;
        } else {
            r?;
        }
        if located != want {
            known = fail("location-order", format!("state at the start of file {} of\n{}", id, text));
        }
    }
    known
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "at least two definitions, one of them undefined again",
        assumptions: &["files are read once (no #pragma multiple), as in C06 otherwise"],
        subs: vec![
            Sub { name: "one-file", quick: 100000, thorough: 5000000, run: history_one },
            Sub { name: "many-files", quick: 20000, thorough: 600000, run: history_many },
        ],
    }
}
