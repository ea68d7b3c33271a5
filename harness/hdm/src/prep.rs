//! C05-C08: the preprocessor.
use dm::lexer::*;
use dm::preprocessor::*;
use dm::Context;
use engine::*;
use std::collections::BTreeMap;

pub fn run_pp(ctx: &Context, text: &str) -> Vec<LocatedToken> {
    Preprocessor::from_buffer(ctx, "test.dm".into(), text.to_owned()).collect()
}

/// A token as canonical text.
pub fn canon(t: &Token) -> String {
    match t {
        Token::Ident(i, _) => i.to_string(),
        Token::Int(i) => i.to_string(),
        Token::Float(f) => format!("{:?}", f),
        Token::String(s) => format!("\"{}\"", s),
        Token::Punct(p) => p.to_string(),
        other => format!("{:?}", other),
    }
}

pub fn is_nl(t: &Token) -> bool {
    matches!(t, Token::Punct(Punctuation::Newline) | Token::Punct(Punctuation::Tab) | Token::Punct(Punctuation::Space))
}

// ------------------------------------------------------------------------------------------------
// C05: conditional compilation

#[derive(Clone, Debug)]
enum Cd {
    Int(i64),
    Name(String),
    Defined(String),
    Not(Box<Cd>),
    Neg(Box<Cd>),
    Bin(&'static str, Box<Cd>, Box<Cd>),
    Tern(Box<Cd>, Box<Cd>, Box<Cd>),
}

fn lvl(c: &Cd) -> u8 {
    match c {
        Cd::Int(_) | Cd::Name(_) | Cd::Defined(_) => 0,
        Cd::Not(_) | Cd::Neg(_) => 1,
        Cd::Bin(op, ..) => match *op {
            "*" => 2,
            "+" | "-" => 3,
            "<" | "<=" | ">" | ">=" => 4,
            "==" | "!=" => 6,
            "&&" => 10,
            "||" => 11,
            _ => 20, // always parenthesised, like anything inside it
        },
        Cd::Tern(..) => 20,
    }
}

fn cd_text(g: &G, c: &Cd, max: u8, out: &mut String) {
    let l = lvl(c);
    let paren = l > max || g.chance(1, 8);
    if paren {
        out.push('(');
    }
    let sp = |g: &G, out: &mut String| {
        if g.bool() {
            out.push(' ');
        }
    };
    match c {
        Cd::Int(i) => {
            if *i < 0 {
                out.push_str(&format!("({})", i));
            } else {
                out.push_str(&i.to_string());
            }
        },
        Cd::Name(n) => out.push_str(n),
        Cd::Defined(n) => {
            out.push_str("defined");
            if g.chance(1, 5) {
                out.push(' ');
            }
            out.push_str(&format!("({})", n));
        },
        Cd::Not(c) => {
            out.push('!');
            cd_text(g, c, 1, out);
        },
        Cd::Neg(c) => {
            out.push('-');
            cd_text(g, c, 0, out);
        },
        Cd::Bin(op, a, b) => {
            let (lm, rm) = if l == 20 { (0, 0) } else { (l, l - 1) };
            cd_text(g, a, lm, out);
            sp(g, out);
            out.push_str(op);
            // "a - -b", "a & &b"
            out.push(' ');
            cd_text(g, b, rm, out);
        },
        Cd::Tern(a, b, d) => {
            cd_text(g, a, 0, out);
            out.push_str(" ? ");
            cd_text(g, b, 0, out);
            out.push_str(" : ");
            cd_text(g, d, 0, out);
        },
    }
    if paren {
        out.push(')');
    }
}

/// Macro values of this section are integers or conditions in parentheses.
type Env = BTreeMap<String, Vec<Option<Cd>>>;

fn cd_eval(c: &Cd, env: &Env) -> Option<f32> {
    let b = |x: bool| if x { 1.0 } else { 0.0 };
    Some(match c {
        Cd::Int(i) => *i as f32,
        Cd::Name(n) => return cd_eval(env.get(n)?.last()?.as_ref()?, env),
        Cd::Defined(n) => b(env.get(n).is_some_and(|v| !v.is_empty())),
        Cd::Not(c) => b(cd_eval(c, env)? == 0.0),
        Cd::Neg(c) => -cd_eval(c, env)?,
        Cd::Tern(c, x, y) => {
            if cd_eval(c, env)? != 0.0 {
                cd_eval(x, env)?
            } else {
                cd_eval(y, env)?
            }
        },
        Cd::Bin(op, x, y) => {
            let x = cd_eval(x, env)?;
            // the right side of && and || does not matter once the left decides
            match *op {
                "&&" if x == 0.0 => return Some(x),
                "||" if x != 0.0 => return Some(x),
                _ => {},
            }
            let y = cd_eval(y, env)?;
            match *op {
                "*" => x * y,
                "+" => x + y,
                "-" => x - y,
                "<" => b(x < y),
                "<=" => b(x <= y),
                ">" => b(x > y),
                ">=" => b(x >= y),
                "==" => b(x == y),
                "!=" => b(x != y),
                "&&" | "||" => y,
                "&" => ((x as i64) & (y as i64)) as f32,
                "|" => ((x as i64) | (y as i64)) as f32,
                "^" => ((x as i64) ^ (y as i64)) as f32,
                _ => unreachable!(),
            }
        },
    })
}

/// Bitwise operators only on what cannot be negative.
fn gen_nat(g: &G, depth: usize) -> Cd {
    match if depth == 0 { 0 } else { g.usize(4) } {
        0 => Cd::Int(g.range(0, 9)),
        1 => Cd::Defined(anyname(g)),
        2 => Cd::Bin(g.pick(&["&", "|", "^"]), Box::new(gen_nat(g, depth - 1)), Box::new(gen_nat(g, depth - 1))),
        _ => Cd::Not(Box::new(gen_cd(g, depth - 1))),
    }
}

const MNAMES: &[&str] = &["A", "B", "C", "D", "_e", "FF"];
/// These are only ever defined as nothing, and only tested for being defined.
const EMPTY: &[&str] = &["EM", "_em2"];
fn mname(g: &G) -> String {
    g.pick(MNAMES).to_string()
}
fn anyname(g: &G) -> String {
    if g.chance(1, 4) { g.pick(EMPTY).to_string() } else { mname(g) }
}

fn gen_cd(g: &G, depth: usize) -> Cd {
    if depth == 0 {
        return match g.weighted(&[3, 4, 2]) {
            0 => Cd::Int(g.range(0, 4)),
            1 => Cd::Defined(anyname(g)),
            _ => Cd::Name(mname(g)),
        };
    }
    match g.weighted(&[4, 3, 5, 1, 1]) {
        0 => gen_cd(g, 0),
        1 => Cd::Not(Box::new(gen_cd(g, depth - 1))),
        2 => {
            let op = *g.pick(&["&&", "||", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*"]);
            Cd::Bin(op, Box::new(gen_cd(g, depth - 1)), Box::new(gen_cd(g, depth - 1)))
        },
        3 => gen_nat(g, depth),
        _ => match g.usize(2) {
            0 => Cd::Neg(Box::new(gen_cd(g, depth - 1))),
            _ => Cd::Tern(Box::new(gen_cd(g, depth - 1)), Box::new(gen_cd(g, depth - 1)), Box::new(gen_cd(g, depth - 1))),
        },
    }
}

#[derive(Clone, Debug)]
enum Br {
    If(Cd),
    Ifdef(String),
    Ifndef(String),
}

#[derive(Clone, Debug)]
enum It {
    Text(Vec<String>),
    Define(String, Option<Cd>),
    DefineF(String),
    Undef(String),
    Warn(String),
    Error(String),
    Include(String),
    Group(Vec<(Br, Vec<It>)>, Option<Vec<It>>),
    /// A group never closed (always the last item of its block).
    Open(Vec<(Br, Vec<It>)>, Option<Vec<It>>),
    Stray(&'static str),
    /// Malformed or unusual directives where they are skipped, a harmless one elsewhere.
    Junk(&'static str),
}

struct Gen<'a> {
    g: &'a G,
    n: usize,
}

impl Gen<'_> {
    fn items(&mut self, depth: usize, top: bool, open: bool) -> Vec<It> {
        let g = self.g;
        let n = g.len(0, if top { 9 } else { 4 }) + top as usize;
        let mut v: Vec<It> = (0..n).map(|_| self.item(depth, top)).collect();
        if open && g.bool() {
            v.push(match self.group(depth.max(1), true) {
                It::Group(a, b) => It::Open(a, b),
                x => x,
            });
        }
        v
    }
    fn group(&mut self, depth: usize, open: bool) -> It {
        let g = self.g;
        let mut brs = vec![];
        let first = match g.usize(3) {
            0 => Br::Ifdef(anyname(g)),
            1 => Br::Ifndef(anyname(g)),
            _ => Br::If(gen_cd(g, g.usize(3))),
        };
        let elifs = g.weighted(&[4, 3, 2, 1]);
        let els = g.bool();
        brs.push((first, self.items(depth - 1, false, open && elifs == 0 && !els)));
        for i in 0..elifs {
            brs.push((Br::If(gen_cd(g, g.usize(3))), self.items(depth - 1, false, open && !els && i + 1 == elifs)));
        }
        let els = els.then(|| self.items(depth - 1, false, open));
        It::Group(brs, els)
    }
    fn item(&mut self, depth: usize, top: bool) -> It {
        let g = self.g;
        self.n += 1;
        match g.weighted(&[6, 4, 3, if depth > 0 { 6 } else { 0 }, 1, 1, 1, 1, if top { 1 } else { 0 }, 1]) {
            0 => It::Text((0..1 + g.usize(3)).map(|_| if g.chance(1, 4) { anyname(g) } else { format!("t{}_{}", self.n, g.usize(9)) }).collect()),
            1 if g.chance(1, 5) => It::Define(g.pick(EMPTY).to_string(), None),
            1 => It::Define(mname(g), if g.chance(1, 4) { Some(Cd::Int(-g.range(1, 3))) } else { Some(Cd::Int(g.range(0, 4))) }),
            2 => It::Undef(anyname(g)),
            3 => self.group(depth, false),
            4 => It::Warn(format!("w{} isn't it", self.n)),
            5 => It::Error(format!("e{}; #endif \"quoted\"", self.n)),
            6 => It::Include(format!("missing{}.dm", self.n)),
            7 => It::DefineF(mname(g)),
            8 => It::Stray(g.pick(&["#endif", "#else"])),
            _ => It::Junk(g.pick(&["define 5 6", "define", "undef \"x\"", "undef", "include <a>", "include", "pragma \"x\"", "pragma", "pragma multiple", "pragma 5", "define F( 3", "warn", "error"])),
        }
    }
}

struct Exp {
    env: Env,
    tokens: Vec<(u32, String)>,
    diags: Vec<(u32, String)>,
    /// (line of the branch directive, line of the directive that ends it) for groups left open
    unterminated: Vec<(u32, String)>,
}

struct CWr<'a> {
    g: &'a G,
    text: String,
    line: u32,
    exp: Exp,
    n_skipped_effects: usize,
    max_depth: usize,
}

impl CWr<'_> {
    fn nl(&mut self) {
        let g = self.g;
        match g.weighted(&[12, 1, 1, 1]) {
            0 => {},
            1 => self.text.push(' '),
            2 => self.text.push_str(" // comment #endif"),
            _ => self.text.push_str(" /* #else */"),
        }
        self.text.push('\n');
        self.line += 1;
        for _ in 0..g.weighted(&[12, 1, 1]) {
            self.text.push_str(g.pick(&["", "// #endif", "  ", "/* #else */"]));
            self.text.push('\n');
            self.line += 1;
        }
    }
    /// Write a directive; anything may indent it or stand between '#' and its name.
    fn dir(&mut self, name: &str) {
        let g = self.g;
        if g.chance(1, 6) {
            self.text.push_str(g.pick(&["\t", "  "]));
        }
        self.text.push('#');
        if g.chance(1, 8) {
            self.text.push(' ');
        }
        self.text.push_str(name);
    }
    fn diag(&mut self, on: bool, s: String) {
        if on {
            self.exp.diags.push((self.line, s));
        } else {
            self.n_skipped_effects += 1;
        }
    }
    fn cond(&mut self, br: &Br, first: bool, reached: bool) -> bool {
        let (word, v) = match br {
            Br::Ifdef(n) => ("ifdef", self.exp.env.get(n).is_some_and(|v| !v.is_empty())),
            Br::Ifndef(n) => ("ifndef", !self.exp.env.get(n).is_some_and(|v| !v.is_empty())),
            Br::If(c) => {
                let v = cd_eval(c, &self.exp.env);
                if v.is_none() {
                    self.diag(reached, "bad condition".into());
                }
                (if first { "if" } else { "elif" }, v.is_some_and(|v| v != 0.0))
            },
        };
        self.dir(word);
        self.text.push(' ');
        let g = self.g;
        match br {
            Br::Ifdef(n) | Br::Ifndef(n) => self.text.push_str(n),
            Br::If(c) => cd_text(g, c, 11, &mut self.text),
        }
        v
    }
    fn items(&mut self, items: &[It], on: bool, depth: usize) {
        let g = self.g;
        self.max_depth = self.max_depth.max(depth);
        for it in items {
            match it {
                It::Text(ws) => {
                    if g.chance(1, 4) {
                        self.text.push('\t');
                    }
                    for (i, w) in ws.iter().enumerate() {
                        if i > 0 {
                            self.text.push(' ');
                        }
                        self.text.push_str(w);
                        if on {
                            match self.exp.env.get(w).and_then(|v| v.last()) {
                                None => self.exp.tokens.push((self.line, w.clone())),
                                Some(None) => {},
                                Some(Some(Cd::Int(i))) if *i < 0 => {
                                    for t in ["(".to_owned(), "-".to_owned(), (-i).to_string(), ")".to_owned()] {
                                        self.exp.tokens.push((self.line, t));
                                    }
                                },
                                Some(Some(Cd::Int(i))) => self.exp.tokens.push((self.line, i.to_string())),
                                Some(Some(_)) => unreachable!(),
                            }
                        }
                    }
                },
                It::Define(n, v) => {
                    let redefined = self.exp.env.get(n).is_some_and(|v| !v.is_empty());
                    if redefined {
                        self.diag(on, format!("macro redefined: {}", n));
                    } else if !on {
                        self.n_skipped_effects += 1;
                    }
                    self.dir("define ");
                    self.text.push_str(n);
                    if let Some(v) = v {
                        self.text.push(' ');
                        cd_text(g, v, 0, &mut self.text);
                        // undo optional parentheses: the text matters where it is used
                        let at = self.text.rfind(n.as_str()).unwrap() + n.len();
                        self.text.truncate(at);
                        match v {
                            Cd::Int(i) if *i < 0 => self.text.push_str(&format!(" ({})", i)),
                            Cd::Int(i) => self.text.push_str(&format!(" {}", i)),
                            _ => unreachable!(),
                        }
                    }
                    if on {
                        self.exp.env.entry(n.clone()).or_default().push(v.clone());
                    }
                },
                It::DefineF(n) => {
                    // stringify operators in skipped code are not directives
                    self.dir("define ");
                    if on {
                        self.text.push_str(&format!("unused_{}(x) #x", self.line));
                    } else {
                        self.n_skipped_effects += 1;
                        self.text.push_str(&format!("{}(endif) #endif", n));
                    }
                },
                It::Undef(n) => {
                    let d = self.exp.env.get(n).is_some_and(|v| !v.is_empty());
                    if !d {
                        self.diag(on, format!("macro undefined while not defined: {}", n));
                    } else if !on {
                        self.n_skipped_effects += 1;
                    } else {
                        self.exp.env.get_mut(n).unwrap().pop();
                    }
                    self.dir("undef ");
                    self.text.push_str(n);
                },
                It::Warn(s) | It::Error(s) => {
                    let w = if matches!(it, It::Warn(_)) { "warn" } else { "error" };
                    self.diag(on, format!("#{} {}", w, s));
                    self.dir(w);
                    self.text.push(' ');
                    self.text.push_str(s);
                    // the rest of the line belongs to the message
                    self.text.push('\n');
                    self.line += 1;
                    continue;
                },
                It::Include(f) => {
                    self.diag(on, format!("failed to find #include {:?}", f));
                    self.dir("include ");
                    self.text.push_str(&format!("{:?}", f));
                },
                It::Stray(s) => {
                    self.diag(true, format!("unmatched {}", s));
                    self.dir(&s[1..]);
                },
                It::Junk(s) => {
                    self.n_skipped_effects += 1;
                    self.dir(if on { "pragma once_more" } else { s });
                    // (what follows such words belongs to them)
                    self.text.push('\n');
                    self.line += 1;
                    continue;
                },
                It::Group(brs, els) | It::Open(brs, els) => {
                    let mut taken = false;
                    let mut last_line = 0;
                    for (i, (br, body)) in brs.iter().enumerate() {
                        last_line = self.line;
                        let v = self.cond(br, i == 0, on && !taken);
                        self.nl();
                        let run = on && !taken && v;
                        self.items(body, run, depth + 1);
                        taken |= v && on;
                    }
                    if let Some(body) = els {
                        last_line = self.line;
                        self.dir("else");
                        self.nl();
                        self.items(body, on && !taken, depth + 1);
                    }
                    if matches!(it, It::Open(..)) {
                        self.exp.unterminated.push((last_line, "unterminated #if/#ifdef".into()));
                        continue;
                    }
                    self.dir("endif");
                },
            }
            self.nl();
        }
    }
}

fn conditionals(g: &G) -> R {
    let mut gen = Gen { g, n: 0 };
    let open = g.chance(1, 5);
    let depth = 1 + g.usize(4);
    let items = gen.items(depth, true, open);
    let mut w = CWr { g, text: String::new(), line: 1, exp: Exp { env: Env::new(), tokens: vec![], diags: vec![], unterminated: vec![] }, n_skipped_effects: 0, max_depth: 0 };
    w.items(&items, true, 0);
    g.note(&w.text);
    g.nontrivial(w.max_depth >= 2 && !w.exp.tokens.is_empty());
    g.label_if(w.n_skipped_effects > 0, "skipped directives");
    g.label_if(w.max_depth >= 3, "three levels");
    g.label_if(w.text.contains("elif"), "elif");
    g.label_if(!w.exp.unterminated.is_empty(), "unterminated");
    g.label_if(w.exp.diags.iter().any(|d| d.1.contains("unmatched")), "unmatched");
    g.label_if(w.exp.diags.iter().any(|d| d.1.contains("bad cond")), "condition in error");
    let ctx = Context::default();
    let toks = run_pp(&ctx, &w.text);
    let got: Vec<(u32, String)> = toks.iter().filter(|t| !is_nl(&t.token)).map(|t| (t.location.line, canon(&t.token))).collect();
    ensure_eq!(got, w.exp.tokens, "selected", "surviving tokens of\n{}", w.text);
    let mut want = w.exp.diags.clone();
    want.extend(w.exp.unterminated.iter().cloned());
    want.sort();
    let mut have: Vec<(u32, String)> = ctx
        .errors()
        .iter()
        .map(|e| {
            let d = e.description();
            let known = ["macro ", "#warn", "#error", "failed to find", "unmatched", "unterminated"].iter().any(|p| d.starts_with(p));
            (e.location().line, if known { d.to_owned() } else { "bad condition".to_owned() })
        })
        .collect();
    have.sort();
    ensure_eq!(have, want, "diagnostics", "diagnostics of\n{}\nall: {:?}", w.text, crate::stmts::diags(&ctx));
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "conditional groups nested at least two deep, with some surviving text",
        assumptions: &[
            "conditions are built from small integers, object macros holding an integer, defined(), and the operators ! - * + - comparisons == != && || & | ^ ?:; a condition naming an undefined macro (where its value matters) is an error and counts as false",
            "#elif without a group, and unknown directives, are outside the generator",
        ],
        subs: vec![Sub { name: "conditionals", quick: 400000, thorough: 20000000, run: conditionals }],
    }
}
