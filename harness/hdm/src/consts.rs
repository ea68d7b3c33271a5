//! C11 and C12: constant evaluation, printing and comparison.
use crate::lexing::ref_format;
use crate::objects::{gen_hier, weave, Hier};
use crate::stmts::*;
use crate::tree::*;
use dm::constants::{ConstFn, Constant, Pop};
use dm::lexer::*;
use dm::{FileId, Location};
use engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    /// value, and whether it comes from an approximated function
    Num(f32, bool),
    Str(String),
    Res(String),
    Path(String, Vec<(String, V)>),
    List(Vec<(V, Option<V>)>),
    New(Option<Box<V>>, Option<Vec<(V, Option<V>)>>),
    Call(&'static str, Vec<(V, Option<V>)>),
    /// a colour: channels, alpha, tolerance
    Color([i32; 3], Option<i32>, i32),
}

#[derive(Clone, Debug)]
pub enum X {
    Num(String, f32),
    Str(String),
    Res(String),
    Null,
    Ref(String),
    Bin(&'static str, Box<X>, Box<X>),
    Un(&'static str, Box<X>),
    Tern(Box<X>, Box<X>, Box<X>),
    List(Vec<(Option<String>, X, Option<X>)>),
    Path(String, Vec<(String, X)>),
    New(Option<String>, Option<Vec<X>>),
    Call(&'static str, Vec<(Option<String>, X)>),
    Trig(&'static str, Box<X>),
    Rgb(Vec<(Option<&'static str>, X)>),
    Static(String, String),
    Field(String, String),
    Special(&'static str),
    Nameof(String),
    /// a path with other separators than `/`
    Rel(Vec<(char, String)>),
    /// `/type::proc()`
    ProcRef(String, String),
    /// in parentheses
    Paren(Box<X>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    /// must be reported
    Err,
    Cycle,
    /// the language leaves it open, or this check does
    Unspec,
}

/// What the variables of a program say.
struct Prog {
    h: Hier,
    /// variable: where declared, flag, type path
    decls: BTreeMap<(String, String), (&'static str, Option<String>)>,
    /// entries: (type, name) -> expression
    entries: BTreeMap<(String, String), Option<X>>,
    /// procedures: kind they are declared with, types that define them
    procs: BTreeMap<String, (&'static str, BTreeSet<String>)>,
}

impl Prog {
    fn decl(&self, ty: &str, name: &str) -> Option<&(&'static str, Option<String>)> {
        self.h.chain(ty).iter().find_map(|t| self.decls.get(&(t.clone(), name.to_owned())))
    }
    /// The type whose definition of the procedure counts for `ty`.
    fn proc_on(&self, ty: &str, name: &str) -> Option<String> {
        let defs = &self.procs.get(name)?.1;
        self.h.chain(ty).into_iter().find(|t| defs.contains(t))
    }
    /// Where a path of mixed separators leads.
    fn navigate(&self, from: &str, ops: &[(char, String)]) -> Result<String, No> {
        let mut cur = if ops[0].0 == '/' { String::new() } else { from.to_owned() };
        let mut it = ops.iter();
        while let Some((op, w)) = it.next() {
            if w == "proc" || w == "verb" {
                return match it.next() {
                    None => Ok(format!("{}/{}", cur, w)),
                    Some((_, n)) => self.proc_on(&cur, n).map(|t| format!("{}/{}/{}", t, w, n)).ok_or(No::Err),
                };
            }
            cur = match op {
                '/' => Some(format!("{}/{}", cur, w)).filter(|p| self.h.paths.contains(p)),
                '.' => {
                    let mut up = Some(cur);
                    loop {
                        match up {
                            None => break None,
                            Some(u) => {
                                let p = format!("{}/{}", u, w);
                                if self.h.paths.contains(&p) {
                                    break Some(p);
                                }
                                up = Hier::path_parent(&u);
                            },
                        }
                    }
                },
                _ => {
                    let below: Vec<&String> = self.h.paths.iter().filter(|t| t.starts_with(&format!("{}/", cur)) && Hier::name(t) == w).collect();
                    if below.len() > 1 {
                        return Err(No::Unspec);
                    }
                    below.first().map(|x| x.to_string())
                },
            }
            .ok_or(No::Err)?;
        }
        Ok(cur)
    }
}

struct Ev<'a> {
    p: Option<&'a Prog>,
    stack: Vec<(String, String)>,
    steps: usize,
    both: bool,
}

fn truth(v: &V) -> bool {
    match v {
        V::Null => false,
        V::Num(f, _) => *f != 0.0,
        V::Str(s) => !s.is_empty(),
        _ => true,
    }
}

impl Ev<'_> {
    fn var(&mut self, ty: &str, name: &str, must_const: bool) -> Result<V, No> {
        let p = self.p.ok_or(No::Err)?;
        for t in p.h.chain(ty) {
            let Some(d) = p.decl(&t, name) else { return Err(No::Err) };
            let Some(e) = p.entries.get(&(t.clone(), name.to_owned())) else { continue };
            let Some(e) = e else { return Ok(V::Null) };
            let key = (t.clone(), name.to_owned());
            if d.0 == "static" || d.0 == "global" {
                return Err(No::Err);
            }
            if must_const && d.0 != "const" {
                // not allowed, and circular as well: either may be reported
                self.both |= self.stack.contains(&key);
                return Err(No::Err);
            }
            if self.stack.contains(&key) {
                return Err(No::Cycle);
            }
            self.stack.push(key);
            let r = self.eval(&t, d.1.as_deref(), e);
            self.stack.pop();
            return r;
        }
        Err(No::Err)
    }
    fn args(&mut self, ty: &str, a: &[(Option<String>, X)]) -> Result<Vec<(V, Option<V>)>, No> {
        a.iter()
            .map(|(k, x)| {
                let v = self.eval(ty, None, x)?;
                Ok(match k {
                    Some(k) => (V::Str(k.clone()), Some(v)),
                    None => (v, None),
                })
            })
            .collect()
    }
    fn eval(&mut self, ty: &str, hint: Option<&str>, x: &X) -> Result<V, No> {
        self.steps += 1;
        if self.steps > 3000 {
            return Err(No::Unspec);
        }
        Ok(match x {
            X::Num(_, v) => V::Num(*v, false),
            X::Str(s) => V::Str(s.clone()),
            X::Res(s) => V::Res(s.clone()),
            X::Null => V::Null,
            X::Ref(n) => self.var(ty, n, false)?,
            X::Un(op, a) => {
                let a = self.eval(ty, None, a)?;
                match (*op, a) {
                    ("!", a) => V::Num(if truth(&a) { 0.0 } else { 1.0 }, false),
                    ("-", V::Num(f, ap)) => V::Num(-f, ap),
                    ("~", V::Num(f, false)) if f >= 0.0 && f <= 16777215.0 => V::Num((!(f as u32) & 0xffffff) as f32, false),
                    (_, V::Num(..)) | (_, V::Null) => return Err(No::Unspec),
                    _ => return Err(No::Err),
                }
            },
            X::Tern(c, a, b) => {
                let c = self.eval(ty, None, c)?;
                if matches!(c, V::Num(_, true)) {
                    return Err(No::Unspec);
                }
                self.eval(ty, hint, if truth(&c) { a } else { b })?
            },
            X::Bin(op, a, b) => {
                let a = self.eval(ty, None, a)?;
                if *op == "&&" || *op == "||" {
                    if matches!(a, V::Num(_, true)) {
                        return Err(No::Unspec);
                    }
                    if truth(&a) == (*op == "||") {
                        return Ok(a);
                    }
                    return self.eval(ty, None, b);
                }
                let b = self.eval(ty, None, b)?;
                let bool = |x: bool| V::Num(x as i32 as f32, false);
                match (*op, &a, &b) {
                    ("+", V::Str(a), V::Str(b)) => V::Str(format!("{}{}", a, b)),
                    (_, V::Num(x, p), V::Num(y, q)) => {
                        let (x, y, ap) = (*x, *y, *p || *q);
                        // rounding errors must not be magnified beyond the tolerance of `veq`
                        if ap && !(x.abs() <= 1000.0 && y.abs() <= 1000.0 && (*op != "/" || y.abs() >= 1.0) && *op != "**") {
                            return Err(No::Unspec);
                        }
                        let bits = |x: f32| (0.0..=16777215.0).contains(&x);
                        match *op {
                            "+" => V::Num(x + y, ap),
                            "-" => V::Num(x - y, ap),
                            "*" => V::Num(x * y, ap),
                            "/" if y != 0.0 => V::Num(x / y, ap),
                            "%" if y != 0.0 && x.fract() == 0.0 && y.fract() == 0.0 && !ap && x.abs() < 1e7 && y.abs() < 1e7 => V::Num(((x as i64) % (y as i64)) as f32, false),
                            "%%" if y != 0.0 && !ap && x.abs() < 1e6 && y.abs() < 1e6 => {
                                // what remains has the sign of the divisor
                                let (xd, yd) = (x as f64, y as f64);
                                let q = xd / yd;
                                if x.fract() == 0.0 && y.fract() == 0.0 {
                                    V::Num((xd - q.floor() * yd) as f32, false)
                                } else if (q - q.round()).abs() > 1e-3 && q.abs() < 100.0 {
                                    V::Num((xd - q.floor() * yd) as f32, true)
                                } else {
                                    return Err(No::Unspec);
                                }
                            },
                            "**" if x > 0.0 => V::Num((x as f64).powf(y as f64) as f32, true),
                            _ if ap => return Err(No::Unspec),
                            "<" => bool(x < y),
                            "<=" => bool(x <= y),
                            ">" => bool(x > y),
                            ">=" => bool(x >= y),
                            "==" => bool(x == y),
                            "!=" => bool(x != y),
                            "&" if bits(x) && bits(y) => V::Num((x as u32 & y as u32) as f32, false),
                            "|" if bits(x) && bits(y) => V::Num((x as u32 | y as u32) as f32, false),
                            "^" if bits(x) && bits(y) => V::Num((x as u32 ^ y as u32) as f32, false),
                            "<<" if bits(x) && (0.0..24.0).contains(&y) => V::Num((((x as u64) << (y as u32)) & 0xffffff) as f32, false),
                            ">>" if bits(x) && (0.0..24.0).contains(&y) => V::Num(((x as u32) >> (y as u32)) as f32, false),
                            _ => return Err(No::Unspec),
                        }
                    },
                    ("==" | "!=", V::Num(_, true), _) | ("==" | "!=", _, V::Num(_, true)) => return Err(No::Unspec),
                    ("==" | "!=", V::Color(..), _) | ("==" | "!=", _, V::Color(..)) => return Err(No::Unspec),
                    ("==" | "!=", V::Null | V::Num(..) | V::Str(_), V::Null | V::Num(..) | V::Str(_)) => {
                        let same = match (&a, &b) {
                            (V::Null, V::Null) => true,
                            (V::Str(a), V::Str(b)) => a == b,
                            _ => false,
                        };
                        bool(same == (*op == "=="))
                    },
                    ("==" | "!=", V::Path(a, va), V::Path(b, vb)) if va.is_empty() && vb.is_empty() => bool((a == b) == (*op == "==")),
                    ("==" | "!=", _, _) => return Err(No::Unspec),
                    ("-" | "*" | "/", V::Str(_), _) | ("-" | "*" | "/", _, V::Str(_)) => return Err(No::Err),
                    ("+", V::Str(_), V::Num(..)) | ("+", V::Num(..), V::Str(_)) => return Err(No::Err),
                    _ => return Err(No::Unspec),
                }
            },
            X::List(items) => {
                let mut v = vec![];
                for (k, a, b) in items {
                    let key = match k {
                        Some(k) => V::Str(k.clone()),
                        None => self.eval(ty, None, a)?,
                    };
                    let val = match b {
                        Some(b) => Some(self.eval(ty, None, b)?),
                        None => None,
                    };
                    v.push((key, val));
                }
                V::List(v)
            },
            X::Path(p, vars) => {
                let mut v = vec![];
                for (n, x) in vars {
                    v.push((n.clone(), self.eval(ty, None, x)?));
                }
                V::Path(p.clone(), v)
            },
            X::New(p, args) => {
                let p = p.as_ref().map(|p| Box::new(V::Path(p.clone(), vec![])));
                let args = match args {
                    None => None,
                    Some(a) => Some(a.iter().map(|a| Ok((self.eval(ty, None, a)?, None))).collect::<Result<_, No>>()?),
                };
                V::New(p, args)
            },
            X::Call(f, args) => V::Call(f, self.args(ty, args)?),
            X::Trig(f, a) => {
                let V::Num(a, _) = self.eval(ty, None, a)? else { return Err(No::Err) };
                let a = a as f64;
                // arguments and results in degrees
                let r = match *f {
                    "sin" => a.to_radians().sin(),
                    "cos" => a.to_radians().cos(),
                    "arcsin" if (-0.99..=0.99).contains(&a) => a.asin().to_degrees(),
                    "arccos" if (-0.99..=0.99).contains(&a) => a.acos().to_degrees(),
                    _ => return Err(No::Unspec),
                };
                if a.abs() > 10000.0 {
                    return Err(No::Unspec);
                }
                V::Num(r as f32, true)
            },
            X::Rgb(args) => self.rgb(ty, args)?,
            X::Static(t, n) => self.var(t, n, false)?,
            X::Field(v, f) => {
                // a typed null stands for an instance of that type; only its constants are known
                match self.var(ty, v, false)? {
                    V::Null => {},
                    _ => return Err(No::Unspec),
                }
                let d = self.p.unwrap().decl(ty, v).unwrap();
                match &d.1 {
                    Some(t) => self.var(t, f, true)?,
                    None => return Err(No::Err),
                }
            },
            X::Special(s) => {
                let Some(p) = self.p else { return Err(No::Err) };
                match *s {
                    "__IMPLIED_TYPE__" => V::Path(hint.ok_or(No::Err)?.to_owned(), vec![]),
                    _ if ty.is_empty() => return Err(No::Unspec),
                    "type" | "__TYPE__" => V::Path(ty.to_owned(), vec![]),
                    _ => V::Path(p.h.parent(ty).unwrap(), vec![]),
                }
            },
            X::Nameof(n) => V::Str(n.rsplit('/').next().unwrap().to_owned()),
            X::Rel(ops) => V::Path(self.p.ok_or(No::Err)?.navigate(ty, ops)?, vec![]),
            X::ProcRef(t, n) => {
                let p = self.p.ok_or(No::Err)?;
                if !p.h.paths.contains(t) {
                    return Err(No::Err);
                }
                p.proc_on(t, n).ok_or(No::Err)?;
                V::Path(format!("{}/{}/{}", t, p.procs[n].0, n), vec![])
            },
            X::Paren(x) => self.eval(ty, hint, x)?,
        })
    }
    fn rgb(&mut self, ty: &str, args: &[(Option<&'static str>, X)]) -> Result<V, No> {
        // several things can be wrong with a call at once
        self.both = true;
        let mut vals = vec![];
        for (k, x) in args {
            let V::Num(v, ap) = self.eval(ty, None, x)? else { return Err(No::Unspec) };
            if ap {
                return Err(No::Unspec);
            }
            vals.push((*k, v.trunc() as i32));
        }
        if !(3..=5).contains(&vals.len()) {
            return Err(No::Err);
        }
        let space = vals.iter().find(|x| x.0 == Some("space")).map(|x| x.1);
        let named = |n: &[&str]| vals.iter().any(|x| x.0.is_some_and(|k| n.contains(&k)));
        let space = match space {
            Some(s) => s,
            None if named(&["r", "g", "b", "red", "green", "blue"]) => 0,
            None if named(&["h", "hue"]) && named(&["c", "chroma"]) && named(&["y"]) => 3,
            None if named(&["h", "hue"]) && named(&["v", "value"]) => 1,
            None if named(&["h", "hue"]) && named(&["l", "luminance"]) => 2,
            None if named(&["h", "hue"]) => return Err(No::Unspec),
            None => 0,
        };
        let mut slots = [None; 4];
        let mut pos = 0;
        for (k, v) in &vals {
            let i = match k {
                None => pos,
                Some("r" | "red" | "h" | "hue") => 0,
                Some("g" | "green" | "s" | "saturation" | "c" | "chroma") => 1,
                Some("b" | "blue" | "v" | "value" | "l" | "luminance" | "y") => 2,
                Some("a" | "alpha") => 3,
                Some("space") => continue,
                _ => return Err(No::Unspec),
            };
            if k.is_none() && pos > 3 {
                return Err(No::Unspec);
            }
            let max = match (i, space) {
                (3, _) => 255,
                (_, 0) => 255,
                (0, _) => 360,
                _ => 100,
            };
            if *v < 0 || *v > max {
                return Err(No::Err);
            }
            slots[i] = Some(*v);
            pos += 1;
        }
        let (Some(a), Some(b), Some(c)) = (slots[0], slots[1], slots[2]) else { return Err(No::Err) };
        let (h, s, l) = (a as f64, b as f64 / 100.0, c as f64 / 100.0);
        let (rgb, tol) = match space {
            0 => ([a, b, c], 0),
            1 | 2 => {
                // chroma, hue sector
                let ch = if space == 1 { l * s } else { (1.0 - (2.0 * l - 1.0).abs()) * s };
                let m = if space == 1 { l - ch } else { l - ch / 2.0 };
                let hh = (h % 360.0) / 60.0;
                let x = ch * (1.0 - ((hh % 2.0) - 1.0).abs());
                let (r, g, b) = match hh as i32 {
                    0 => (ch, x, 0.0),
                    1 => (x, ch, 0.0),
                    2 => (0.0, ch, x),
                    3 => (0.0, x, ch),
                    4 => (x, 0.0, ch),
                    _ => (ch, 0.0, x),
                };
                let q = |v: f64| ((v + m) * 255.0).round() as i32;
                ([q(r), q(g), q(b)], 1)
            },
            3 => {
                // hue, chroma and luminance are those of CIE LCh, as the repository's own test has them
                let lum = c as f64;
                let (ca, cb) = (b as f64 * h.to_radians().cos(), b as f64 * h.to_radians().sin());
                let fy = (lum + 16.0) / 116.0;
                let inv = |t: f64| if t > 6.0 / 29.0 { t * t * t } else { 3.0 * (6.0f64 / 29.0).powi(2) * (t - 4.0 / 29.0) };
                let (x, y, z) = (0.95047 * inv(fy + ca / 500.0), inv(fy), 1.08883 * inv(fy - cb / 200.0));
                let lin = [3.2404542 * x - 1.5371385 * y - 0.4985314 * z, -0.969266 * x + 1.8760108 * y + 0.041556 * z, 0.0556434 * x - 0.2040259 * y + 1.0572252 * z];
                let q = |v: f64| ((if v <= 0.0031308 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 }) * 255.0).round().clamp(0.0, 255.0) as i32;
                (lin.map(q), 2)
            },
            _ => return Err(No::Unspec),
        };
        Ok(V::Color(rgb, slots[3], tol))
    }
}

fn args_eq(a: &[(V, Option<V>)], b: &[(Constant, Option<Constant>)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            veq(&x.0, &y.0)
                && match (&x.1, &y.1) {
                    (None, None) => true,
                    (Some(a), Some(b)) => veq(a, b),
                    _ => false,
                }
        })
}

fn pop_eq(v: &V, pop: &Pop) -> bool {
    let V::Path(p, vars) = v else { return false };
    let path: String = pop.path.iter().map(|x| format!("/{}", x)).collect();
    *p == path && vars.len() == pop.vars.len() && vars.iter().zip(&pop.vars).all(|(a, b)| a.0.as_str() == b.0.as_str() && veq(&a.1, b.1))
}

pub fn veq(v: &V, c: &Constant) -> bool {
    match (v, c) {
        (V::Null, Constant::Null(_)) => true,
        (V::Num(a, false), Constant::Float(b)) => a.to_bits() == b.to_bits() || a == b,
        (V::Num(a, true), Constant::Float(b)) => (a - b).abs() <= 2e-4 * a.abs().max(1.0) || a == b || a.is_nan() && b.is_nan(),
        (V::Str(a), Constant::String(b)) => a.as_str() == b.as_str(),
        (V::Res(a), Constant::Resource(b)) => a.as_str() == b.as_str(),
        (V::Path(..), Constant::Prefab(p)) => pop_eq(v, p),
        (V::List(a), Constant::List(b)) => args_eq(a, b),
        (V::New(t, a), Constant::New { type_, args }) => {
            (match (t, type_) {
                (None, None) => true,
                (Some(t), Some(p)) => pop_eq(t, p),
                _ => false,
            }) && match (a, args) {
                (None, None) => true,
                (Some(a), Some(b)) => args_eq(a, b),
                _ => false,
            }
        },
        (V::Call(f, a), Constant::Call(g, b)) => *f == g.to_string() && args_eq(a, b),
        (V::Color(rgb, alpha, tol), Constant::String(s)) => {
            let s = s.as_str();
            let want = if alpha.is_some() { 9 } else { 7 };
            if s.len() != want || !s.starts_with('#') || s.to_lowercase() != s {
                return false;
            }
            let ch = |i: usize| i32::from_str_radix(&s[1 + 2 * i..3 + 2 * i], 16).unwrap_or(-999);
            (0..3).all(|i| (ch(i) - rgb[i]).abs() <= *tol) && alpha.is_none_or(|a| ch(3) == a)
        },
        _ => false,
    }
}

// ---- text

fn xt(g: &G, x: &X, top: bool) -> String {
    let sub = |x: &X| xt(g, x, false);
    let wrap = |s: String| if top && g.bool() { s } else { format!("({})", s) };
    match x {
        X::Num(t, _) => t.clone(),
        X::Str(s) => format!("\"{}\"", s),
        X::Res(s) => format!("'{}'", s),
        X::Null => "null".into(),
        X::Ref(n) => n.clone(),
        X::Un(op, a) => wrap(format!("{}{}", op, sub(a))),
        X::Bin(op, a, b) => wrap(format!("{} {} {}", sub(a), op, sub(b))),
        X::Tern(c, a, b) => wrap(format!("{} ? {} : {}", sub(c), sub(a), sub(b))),
        X::List(items) => format!(
            "list({})",
            items
                .iter()
                .map(|(k, a, b)| {
                    let key = k.clone().unwrap_or_else(|| xt(g, a, true));
                    match b {
                        Some(b) => format!("{} = {}", key, xt(g, b, true)),
                        None => key,
                    }
                })
                .collect::<Vec<_>>()
                .join(g.pick(&[", ", ","]))
        ),
        X::Path(p, vars) if vars.is_empty() => p.clone(),
        X::Path(p, vars) => format!("{}{{{}}}", p, vars.iter().map(|(n, x)| format!("{} = {}", n, xt(g, x, true))).collect::<Vec<_>>().join("; ")),
        X::New(p, a) => format!("new{}{}", p.as_ref().map_or(String::new(), |p| format!(" {}", p)), a.as_ref().map_or(String::new(), |a| format!("({})", a.iter().map(|x| xt(g, x, true)).collect::<Vec<_>>().join(", ")))),
        X::Call(f, a) => format!("{}({})", f, a.iter().map(|(k, x)| format!("{}{}", k.as_ref().map_or(String::new(), |k| format!("{} = ", k)), xt(g, x, true))).collect::<Vec<_>>().join(", ")),
        X::Trig(f, a) => format!("{}({})", f, xt(g, a, true)),
        X::Rgb(a) => format!("rgb({})", a.iter().map(|(k, x)| format!("{}{}", k.as_ref().map_or(String::new(), |k| format!("{}=", k)), xt(g, x, true))).collect::<Vec<_>>().join(", ")),
        X::Static(t, n) => format!("{}::{}", t, n),
        X::Field(v, f) => format!("{}.{}", v, f),
        X::Special(s) => s.to_string(),
        X::Nameof(n) => format!("nameof({})", n),
        X::Rel(ops) => format!("({})", ops.iter().map(|o| format!("{}{}", o.0, o.1)).collect::<String>()),
        X::ProcRef(t, n) => format!("{}::{}()", t, n),
        X::Paren(x) => format!("({})", xt(g, x, true)),
    }
}

// ---- generation

struct Names2<'a> {
    nums: Vec<&'a str>,
    strs: Vec<&'a str>,
    any: Vec<&'a str>,
    /// typed null variables and constants of that type
    fields: Vec<(&'a str, &'a str)>,
    statics: Vec<(String, &'a str)>,
    /// types to ask for procedures
    types: Vec<String>,
}

fn num(g: &G) -> X {
    match g.usize(6) {
        0 | 1 | 2 => {
            let v = g.range(0, 12);
            X::Num(v.to_string(), v as f32)
        },
        3 => {
            let v = *g.pick(&[16777215i64, 65535, 8388608, 255, 1000, 100001, 32768]);
            X::Num(v.to_string(), v as f32)
        },
        4 => {
            let (a, b) = (g.range(0, 99), g.range(1, 99));
            let t = format!("{}.{}", a, b);
            X::Num(t.clone(), t.parse().unwrap())
        },
        _ => {
            let t = *g.pick(&["1e3", "2.5e-2", "0.1", "0.3", "0x1F", "0xff", "1e20", "3.14159"]);
            X::Num(t.into(), if let Some(h) = t.strip_prefix("0x") { i64::from_str_radix(h, 16).unwrap() as f32 } else { t.parse().unwrap() })
        },
    }
}

fn gx_num(g: &G, n: &Names2, d: usize) -> X {
    let b = |g: &G| Box::new(gx_num(g, n, d - 1));
    match if d == 0 { g.weighted(&[4, 3]) } else { g.weighted(&[3, 3, 7, 2, 2, 1, 1, 1, 1]) } {
        0 => num(g),
        1 => {
            if n.nums.is_empty() {
                return num(g);
            }
            if !n.fields.is_empty() && g.chance(1, 6) {
                let f = g.pick(&n.fields);
                return X::Field(f.0.into(), f.1.into());
            }
            if !n.statics.is_empty() && g.chance(1, 6) {
                let f = g.pick(&n.statics);
                return X::Static(f.0.clone(), f.1.into());
            }
            X::Ref(g.pick(&n.nums).to_string())
        },
        2 => X::Bin(g.pick(&["+", "-", "*", "/", "%", "%%", "**"]), b(g), b(g)),
        3 => X::Bin(g.pick(&["&", "|", "^", "<<", ">>"]), b(g), b(g)),
        4 => X::Bin(g.pick(&["<", "<=", ">", ">=", "==", "!=", "&&", "||"]), b(g), b(g)),
        5 if g.chance(1, 4) => X::Un("!", Box::new(gx_any(g, n, d - 1))),
        5 => X::Un(g.pick(&["-", "!", "~"]), b(g)),
        6 => X::Tern(if g.chance(1, 3) { Box::new(gx_any(g, n, d - 1)) } else { b(g) }, b(g), b(g)),
        7 => X::Bin(g.pick(&["==", "!="]), Box::new(gx_any(g, n, d - 1)), Box::new(gx_any(g, n, d - 1))),
        _ => X::Trig(g.pick(&["sin", "cos", "arcsin", "arccos"]), b(g)),
    }
}

fn gx_str(g: &G, n: &Names2, d: usize) -> X {
    match if d == 0 { g.weighted(&[4, 2]) } else { g.weighted(&[3, 3, 3, 1, 1]) } {
        0 => X::Str(g.pick(&["", "a", "b c", "x\\n", "it's"]).to_string()),
        1 if !n.strs.is_empty() => X::Ref(g.pick(&n.strs).to_string()),
        1 => X::Str("s".into()),
        2 => X::Bin("+", Box::new(gx_str(g, n, d - 1)), Box::new(gx_str(g, n, d - 1))),
        3 => X::Nameof(g.pick(&["name_of_var", "/obj/item", "/mob", "v0"]).to_string()),
        _ => X::Tern(Box::new(gx_num(g, n, d - 1)), Box::new(gx_str(g, n, d - 1)), Box::new(gx_str(g, n, d - 1))),
    }
}

fn gx_any(g: &G, n: &Names2, d: usize) -> X {
    match if d == 0 { g.weighted(&[3, 2, 1, 2, 2, 2]) } else { g.weighted(&[3, 3, 1, 2, 2, 2, 3, 2, 2, 2, 2, 2, 1]) } {
        0 => gx_num(g, n, d),
        1 => gx_str(g, n, d),
        2 => X::Null,
        3 => X::Res(g.pick(&["a.dmi", "icons/b c.png"]).to_string()),
        4 if g.chance(1, 4) && !n.types.is_empty() => X::ProcRef(g.pick(&n.types).clone(), g.pick(&["pr0", "pr1", "pr2"]).to_string()),
        4 if g.chance(1, 3) => gx_rel(g),
        4 => X::Path(g.pick(&["/obj", "/obj/item", "/mob/x1/proc/go"]).to_string(), vec![]),
        5 if !n.any.is_empty() && g.chance(2, 3) => X::Ref(g.pick(&n.any).to_string()),
        5 => {
            let x = X::Special(g.pick(&["type", "parent_type", "__TYPE__", "__IMPLIED_TYPE__", "__IMPLIED_TYPE__"]));
            if g.chance(1, 3) { X::Paren(Box::new(x)) } else { x }
        },
        6 => X::List(
            (0..g.usize(4))
                .map(|_| match g.usize(4) {
                    0 => (Some(g.pick(&["k", "name", "v0"]).to_string()), X::Null, Some(gx_any(g, n, d - 1))),
                    1 => (None, gx_str(g, n, 0), Some(gx_any(g, n, d - 1))),
                    _ => (None, gx_any(g, n, d - 1), None),
                })
                .map(|(k, a, b)| match (&k, &a, &b) {
                    // a bare name before '=' is a string, not a reference
                    (None, X::Ref(r), Some(_)) => (Some(r.clone()), a.clone(), b),
                    _ => (k, a, b),
                })
                .collect(),
        ),
        7 => X::Path("/obj/item".into(), (0..1 + g.usize(3)).map(|i| (["name", "x", "y"][i].to_string(), gx_any(g, n, d - 1))).collect()),
        8 => X::New(if g.bool() { Some("/obj/item".into()) } else { None }, if g.bool() { Some((0..g.usize(3)).map(|_| gx_any(g, n, d - 1)).collect()) } else { None }),
        9 => X::Call(g.pick(&["matrix", "newlist", "icon", "sound", "filter", "file", "generator", "vector"]), (0..g.usize(3)).map(|_| (if g.chance(1, 3) { Some("size".into()) } else { None }, gx_any(g, n, d - 1))).collect()),
        10 => gx_rgb(g, n),
        11 => X::Tern(Box::new(gx_any(g, n, d - 1)), Box::new(gx_any(g, n, d - 1)), Box::new(gx_any(g, n, d - 1))),
        _ => X::Bin(g.pick(&["&&", "||"]), Box::new(gx_any(g, n, d - 1)), Box::new(gx_any(g, n, d - 1))),
    }
}

/// A path that has other separators than `/`.
fn gx_rel(g: &G) -> X {
    let mut ops: Vec<(char, String)> = vec![];
    let first = *g.pick(&['/', '.', '.']);
    let k = 1 + g.len(0, 4);
    for i in 0..k {
        let op = if i == 0 { first } else { *g.pick(&['/', '/', '.', ':']) };
        let w = if i == 0 && first == '/' || g.chance(1, 8) { *g.pick(&["obj", "mob", "datum"]) } else { *g.pick(WORDS) };
        ops.push((op, w.to_string()));
    }
    if g.chance(1, 4) {
        if g.chance(1, 3) && first == '.' {
            ops.clear();
        }
        ops.push(('.', g.pick(&["proc", "verb"]).to_string()));
        ops.push(('/', g.pick(&["pr0", "pr1", "pr2"]).to_string()));
    }
    if ops.iter().all(|o| o.0 == '/') {
        return X::Path(ops.iter().map(|o| format!("/{}", o.1)).collect(), vec![]);
    }
    X::Rel(ops)
}

fn gx_rgb(g: &G, n: &Names2) -> X {
    let space = g.usize(4) as i64;
    let val = |g: &G, max: i64| {
        if g.chance(1, 15) {
            X::Bin("-", Box::new(X::Num("0".into(), 0.0)), Box::new(X::Num("1".into(), 1.0)))
        } else if g.chance(1, 10) {
            X::Num((max + 1).to_string(), (max + 1) as f32)
        } else if g.chance(1, 8) && !n.nums.is_empty() {
            X::Ref(g.pick(&n.nums).to_string())
        } else if g.chance(1, 8) {
            X::Num(format!("{}.7", max / 2), format!("{}.7", max / 2).parse().unwrap())
        } else {
            let v = *g.pick(&[0, max, max / 2, g.range(0, max)]);
            X::Num(v.to_string(), v as f32)
        }
    };
    let max = |i: usize| match (i, space) {
        (3, _) | (_, 0) => 255,
        (0, _) => 360,
        _ => 100,
    };
    let names: [[&'static str; 2]; 4] = [
        [["r", "red"], ["h", "hue"], ["h", "hue"], ["h", "hue"]][space as usize],
        [["g", "green"], ["s", "saturation"], ["s", "saturation"], ["c", "chroma"]][space as usize],
        [["b", "blue"], ["v", "value"], ["l", "luminance"], ["y", "y"]][space as usize],
        ["a", "alpha"],
    ];
    let alpha = g.chance(1, 3);
    let named = g.bool();
    let mut args: Vec<(Option<&'static str>, X)> = (0..3 + alpha as usize).map(|i| (if named { Some(*g.pick(&names[i])) } else { None }, val(g, max(i)))).collect();
    if named && g.bool() {
        g.shuffle(&mut args);
    }
    if !named && space > 0 || g.chance(1, 5) {
        args.push((Some("space"), X::Num(space.to_string(), space as f32)));
    }
    if g.chance(1, 15) {
        args.remove(g.usize(args.len()));
    }
    X::Rgb(args)
}

fn desc(r: &Result<Constant, dm::DMError>) -> String {
    match r {
        Ok(c) => format!("{} {:?}", c, c),
        Err(e) => format!("error: {}", e.description()),
    }
}

fn expr(g: &G) -> R {
    let n = Names2 { nums: vec![], strs: vec![], any: vec![], fields: vec![], statics: vec![], types: vec![] };
    let d = 1 + g.usize(4);
    let x = match g.usize(6) {
        0 | 1 => gx_num(g, &n, d),
        2 => gx_str(g, &n, d),
        3 => gx_rgb(g, &n),
        _ => gx_any(g, &n, d),
    };
    let text = xt(g, &x, true);
    g.note(&text);
    let mut ev = Ev { p: None, stack: vec![], steps: 0, both: false };
    let want = ev.eval("", None, &x);
    g.nontrivial(want.is_ok() && ev.steps >= 3);
    g.label(match &want {
        Ok(_) => "value",
        Err(No::Unspec) => "left open",
        Err(_) => "error",
    });
    let got = dm::constants::evaluate_str(Location::default(), text.as_bytes());
    if let X::Rgb(a) = &x {
        // the components may be named or given in the order of the colour space
        let slot = |k: &str| ["hue", "h", "red", "r"].contains(&k) as usize * 1 + ["g", "green", "s", "saturation", "c", "chroma"].contains(&k) as usize * 2 + ["b", "blue", "v", "value", "l", "luminance", "y"].contains(&k) as usize * 3;
        let comps: Vec<usize> = a.iter().filter_map(|(k, _)| k.map(slot)).collect();
        let cy = |n: &[&str]| a.iter().any(|(k, _)| k.is_some_and(|k| n.contains(&k)));
        if (0..4).all(|i| i == 0 || comps.iter().filter(|c| **c == i).count() == 1) && cy(&["c", "chroma"]) && a.len() <= 4 {
            let mut b: Vec<_> = (1..4).map(|i| (None, a.iter().find(|(k, _)| slot(k.unwrap()) == i).unwrap().1.clone())).collect();
            b.extend(a.iter().filter(|(k, _)| k.is_some_and(|k| k == "a" || k == "alpha")).map(|x| (None, x.1.clone())));
            b.push((Some("space"), X::Num("3".into(), 3.0)));
            let other = xt(g, &X::Rgb(b), true);
            let o = dm::constants::evaluate_str(Location::default(), other.as_bytes());
            ensure!(desc(&o) == desc(&got) || o.is_err() && got.is_err(), "named components", "{} is {}\nbut {} is {}", text, desc(&got), other, desc(&o));
            g.label("named hcy");
        }
    }
    match &want {
        Ok(v) => ensure!(got.as_ref().is_ok_and(|c| veq(v, c)), "value", "{}\n   got: {}\n  want: {:?}", text, desc(&got), v),
        Err(No::Unspec) => {},
        Err(e) => ensure!(got.is_err(), "no error", "{} is not a constant ({:?}) but evaluates to {}", text, e, desc(&got)),
    }
    Ok(())
}

fn program(g: &G) -> R {
    let (h, types, pf) = gen_hier(g, 5, true);
    let paths: Vec<String> = h.paths.iter().cloned().collect();
    let user: Vec<String> = types.iter().map(|t| t.iter().map(|x| format!("/{}", x)).collect()).collect();
    // declarations
    let nvars = 1 + g.len(1, 10);
    struct D {
        name: String,
        ty: String,
        flag: &'static str,
        kind: usize,
        tp: Option<String>,
    }
    let mut ds: Vec<D> = vec![];
    for i in 0..nvars {
        let root = g.chance(1, 3);
        let kind = g.weighted(&[5, 2, 3, 1]);
        ds.push(D {
            name: format!("v{}", i),
            ty: if root { String::new() } else { g.pick(&user).clone() },
            flag: *g.pick(&["", "", "const", "const", "tmp", "static"]),
            kind,
            tp: if kind == 3 || kind == 2 && g.bool() { Some(g.pick(&user).clone()) } else { None },
        });
    }
    let nm = |k: usize| -> Vec<&str> { ds.iter().filter(|d| d.kind == k).map(|d| d.name.as_str()).collect() };
    let mut any = nm(2);
    any.extend(nm(0));
    any.push("nowhere");
    let mut fields = vec![];
    let mut statics = vec![];
    for d in &ds {
        if d.kind == 3 {
            for e in &ds {
                if e.kind == 0 && !e.ty.is_empty() {
                    fields.push((d.name.as_str(), e.name.as_str()));
                }
            }
        }
        if d.kind == 0 && !d.ty.is_empty() {
            for t in &paths {
                if h.is_sub(t, &d.ty) {
                    statics.push((t.clone(), d.name.as_str()));
                }
            }
        }
    }
    let n = Names2 { nums: nm(0), strs: nm(1), any, fields, statics, types: user.clone() };
    let gen = |g: &G, k: usize| match k {
        0 => gx_num(g, &n, g.usize(3)),
        1 => gx_str(g, &n, g.usize(3)),
        _ => gx_any(g, &n, g.usize(3)),
    };
    let mut p = Prog { h, decls: BTreeMap::new(), entries: BTreeMap::new(), procs: BTreeMap::new() };
    // (text, type, name) of every declaration or override, each on a line of its own
    let mut lines: Vec<(String, String, String)> = vec![];
    for d in &ds {
        let x = if d.kind == 3 { if g.bool() { None } else { Some(X::Null) } } else if g.chance(1, 10) { None } else { Some(gen(g, d.kind)) };
        let flag = if d.flag.is_empty() { String::new() } else { format!("{}/", d.flag) };
        let tp = d.tp.as_ref().map_or(String::new(), |t| format!("{}/", &t[1..]));
        let val = x.as_ref().map_or(String::new(), |x| format!(" = {}", xt(g, x, true)));
        lines.push((format!("{}/var/{}{}{}{}", d.ty, flag, tp, d.name, val), d.ty.clone(), d.name.clone()));
        p.decls.insert((d.ty.clone(), d.name.clone()), (d.flag, d.tp.clone()));
        p.entries.insert((d.ty.clone(), d.name.clone()), x);
    }
    for d in &ds {
        if d.ty.is_empty() || d.kind == 3 || d.flag == "const" {
            continue;
        }
        let subs: Vec<String> = paths.iter().filter(|t| **t != d.ty && p.h.is_sub(t, &d.ty)).cloned().collect();
        for t in subs {
            if g.chance(1, 2) {
                let x = gen(g, d.kind);
                lines.push((format!("{} {{ {} = {} }}", t, d.name, xt(g, &x, true)), t.clone(), d.name.clone()));
                p.entries.insert((t, d.name.clone()), Some(x));
            }
        }
    }
    g.shuffle(&mut lines);
    let mut header: Vec<(String, String, String)> = vec![];
    for t in &types {
        header.push((t.iter().map(|x| format!("/{}", x)).collect(), String::new(), String::new()));
    }
    for f in &pf {
        let (F::Over(_, crate::model::E::Atom(t, ..)) | F::Over(_, crate::model::E::Prefab(t, ..))) = &f.f else { unreachable!() };
        let ty: String = f.ty.iter().map(|x| format!("/{}", x)).collect();
        header.push((format!("{} {{ parent_type = {} }}", ty, t), String::new(), String::new()));
    }
    for i in 0..3 {
        if !g.chance(1, 3) {
            continue;
        }
        let name = format!("pr{}", i);
        let ty = g.pick(&user).clone();
        let kind = *g.pick(&["proc", "verb"]);
        let mut defs = BTreeSet::from([ty.clone()]);
        header.push((format!("{}/{}/{}(){}", ty, kind, name, g.pick(&["", " return 1"])), String::new(), String::new()));
        for t in &paths {
            if *t != ty && p.h.is_sub(t, &ty) && g.chance(1, 3) {
                header.push((format!("{}/{}() return 2", t, name), String::new(), String::new()));
                defs.insert(t.clone());
            }
        }
        p.procs.insert(name, (kind, defs));
    }
    let all = weave(g, header, lines);
    let text: String = all.iter().map(|l| format!("{}\n", l.0)).collect();
    g.note(&text);
    let (ctx, tree) = parse_program(&text);
    let errs: Vec<(u32, String)> = ctx.errors().iter().map(|e| (e.location().line, e.description().to_owned())).collect();
    let mut values = 0;
    let mut refs = 0;
    let mut err_lines: BTreeSet<u32> = BTreeSet::new();
    for (i, (_, ty, name)) in all.iter().enumerate() {
        if name.is_empty() {
            continue;
        }
        let line = i as u32 + 1;
        let (flag, _) = *p.decl(ty, name).unwrap();
        let Some(t) = tree.find(ty).or_else(|| ty.is_empty().then(|| tree.root())) else {
            return fail("type", format!("{} is missing from\n{}", ty, text));
        };
        let Some(var) = t.vars.get(name.as_str()) else {
            return fail("var", format!("{}/{} is missing from\n{}", ty, name, text));
        };
        let evaluated = flag == "const" || flag != "static" && !ty.is_empty();
        let mut ev = Ev { p: Some(&p), stack: vec![], steps: 0, both: false };
        let want = ev.var(ty, name, false);
        refs = refs.max(ev.steps);
        if want == Err(No::Unspec) {
            err_lines.insert(line);
            continue;
        }
        let got = &var.value.constant;
        let here: Vec<&String> = errs.iter().filter(|e| e.0 == line).map(|e| &e.1).collect();
        match (&want, evaluated) {
            (Ok(v), true) => {
                values += 1;
                ensure!(got.as_ref().is_some_and(|c| veq(v, c)), "value", "{}/{} (line {}) is {} but should be {:?} in\n{}\n{:?}", ty, name, line, got.as_ref().map_or("not evaluated".into(), |c| c.to_string()), v, text, errs);
                ensure!(here.is_empty(), "false report", "line {}: {:?} in\n{}", line, here, text);
            },
            (Ok(v), false) => ensure!(got.as_ref().is_none_or(|c| veq(v, c)), "value", "{}/{} (line {}) is {} but should be {:?} in\n{}", ty, name, line, got.as_ref().unwrap(), v, text),
            (Err(e), true) => {
                ensure!(got.is_none(), "no error", "{}/{} (line {}) should be in error ({:?}) but is {} in\n{}", ty, name, line, e, got.as_ref().unwrap(), text);
                err_lines.insert(line);
                ensure!(here.len() == 1, "report", "{}/{} (line {}) should be reported once ({:?}), not {:?} in\n{}\n{:?}", ty, name, line, e, here, text, errs);
                ensure!(ev.both || here[0].contains("recursive") == (*e == No::Cycle), "circularity", "{}/{} (line {}) is in error by {:?} but is reported as {:?} in\n{}", ty, name, line, e, here, text);
                g.label(if *e == No::Cycle { "cycle" } else { "error" });
            },
            (Err(_), false) => ensure!(got.is_none(), "no error", "{}/{} (line {}) has a value although it cannot in\n{}", ty, name, line, text),
        }
    }
    for (l, d) in &errs {
        ensure!(err_lines.contains(l), "false report", "line {}: {} in\n{}", l, d, text);
    }
    g.nontrivial(values >= 2 && refs >= 4);
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C12

fn fnum(g: &G) -> f32 {
    match g.usize(5) {
        0 => g.range(-20, 20) as f32,
        1 => f32::from_bits(g.below(1 << 32) as u32),
        2 => (g.range(-1_000_000, 1_000_000) as f32) / *g.pick(&[1.0, 10.0, 1000.0, 7.0]),
        3 => *g.pick(&[0.0, -0.0, 1.0, 0.5, 1e-7, 1e10, 16777216.0, 123456.7, f32::MAX, f32::MIN_POSITIVE]),
        _ => g.range(-9_999_999, 9_999_999) as f32,
    }
}

fn rstr(g: &G) -> String {
    let mut s = String::new();
    for _ in 0..g.usize(6) {
        s.push_str(g.pick(&["a", "word", " ", "\\\"", "\"", "\n", "}", "{", "@", "\\n", "\\[", "\\]", "]", "'", "\\\\", "é", "//", "#", "("]));
    }
    s
}

fn rpath(g: &G) -> String {
    let mut s = String::new();
    for _ in 0..1 + g.usize(3) {
        s.push('/');
        s.push_str(g.pick(&["obj", "item", "x1", "proc", "_a", "list"]));
    }
    s
}

fn pop(g: &G, d: usize) -> Pop {
    let mut p = Pop::from_path_str(&rpath(g));
    if d > 0 {
        let mut names = ["name", "x", "icon_state", "dir", "v"];
        g.shuffle(&mut names);
        for n in names.iter().take(g.weighted(&[3, 1, 2, 2, 1])) {
            p.vars.insert((*n).into(), constant(g, d - 1));
        }
    }
    p
}

fn cargs(g: &G, d: usize, kw: bool) -> Box<[(Constant, Option<Constant>)]> {
    (0..g.usize(4))
        .map(|_| {
            let assoc = g.chance(1, 3);
            let key = if assoc && (kw || g.bool()) { Constant::string(g.pick(&["k", "size", "a b"]).to_string()) } else { constant(g, d) };
            (key, if assoc { Some(constant(g, d)) } else { None })
        })
        .collect::<Vec<_>>()
        .into()
}

fn constant(g: &G, d: usize) -> Constant {
    match if d == 0 { g.usize(5) } else { g.usize(9) } {
        0 => Constant::Null(None),
        1 => Constant::Float(loop {
            let f = fnum(g);
            if f.is_finite() {
                break f;
            }
        }),
        2 => Constant::String(rstr(g).into()),
        3 => Constant::Resource(["a.dmi", "x y.png", "icons/é.dmi", "it's"][g.usize(4)].to_string().into()),
        4 => Constant::Prefab(Box::new(pop(g, 0))),
        5 => Constant::Prefab(Box::new(pop(g, d))),
        6 => Constant::List(cargs(g, d - 1, false)),
        7 => Constant::New { type_: if g.bool() { Some(Box::new(pop(g, d - 1))) } else { None }, args: if g.bool() { Some(cargs(g, d - 1, true)) } else { None } },
        _ => Constant::Call(*g.pick(&[ConstFn::Icon, ConstFn::Matrix, ConstFn::Newlist, ConstFn::Sound, ConstFn::Filter, ConstFn::File, ConstFn::Generator, ConstFn::Vector]), cargs(g, d - 1, true)),
    }
}

/// Numbers as six digits give them.
fn rounded(c: &Constant) -> Constant {
    let args = |a: &[(Constant, Option<Constant>)]| a.iter().map(|(k, v)| (rounded(k), v.as_ref().map(rounded))).collect::<Vec<_>>().into_boxed_slice();
    let pop = |p: &Pop| {
        let mut q = Pop::from(p.path.clone());
        for (k, v) in &p.vars {
            q.vars.insert(k.clone(), rounded(v));
        }
        q
    };
    match c {
        Constant::Float(f) => Constant::Float(format!("{:.5e}", f).parse().unwrap()),
        Constant::List(a) => Constant::List(args(a)),
        Constant::Call(f, a) => Constant::Call(*f, args(a)),
        Constant::Prefab(p) => Constant::Prefab(Box::new(pop(p))),
        Constant::New { type_, args: a } => Constant::New { type_: type_.as_ref().map(|p| Box::new(pop(p))), args: a.as_ref().map(|a| args(a)) },
        other => other.clone(),
    }
}

/// A different constant built the same way, apart from one place; or the same one built otherwise.
fn twist(g: &G, c: &Constant) -> (Constant, bool) {
    match c {
        Constant::Prefab(p) if !p.vars.is_empty() => {
            let mut vars: Vec<_> = p.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            g.shuffle(&mut vars);
            let mut same = true;
            if g.chance(1, 3) {
                let i = g.usize(vars.len());
                let (v, s) = twist(g, &vars[i].1);
                vars[i].1 = v;
                same = s;
            }
            let mut q = Pop::from(p.path.clone());
            for (k, v) in vars {
                q.vars.insert(k, v);
            }
            (Constant::Prefab(Box::new(q)), same)
        },
        Constant::List(a) if !a.is_empty() => {
            let mut a = a.to_vec();
            let i = g.usize(a.len());
            let (v, same) = twist(g, &a[i].0);
            a[i].0 = v;
            (Constant::List(a.into()), same)
        },
        Constant::New { type_: Some(p), args } => {
            let (v, same) = twist(g, &Constant::Prefab(p.clone()));
            let Constant::Prefab(p) = v else { unreachable!() };
            (Constant::New { type_: Some(p), args: args.clone() }, same)
        },
        Constant::Float(f) if *f == 0.0 && g.bool() => (Constant::Float(-*f), true),
        Constant::Float(f) if g.bool() => (Constant::Float(f32::from_bits(f.to_bits() ^ 1)), f.is_nan()),
        Constant::Prefab(p) if g.bool() => {
            let mut path: Vec<dm::ast::Ident> = p.path.to_vec();
            path.push("more".into());
            (Constant::Prefab(Box::new(Pop::from(path.into_boxed_slice()))), false)
        },
        Constant::String(s) if g.bool() => (Constant::Resource(s.clone()), false),
        Constant::String(s) if g.bool() => (Constant::String(format!("{}x", s.as_str()).into()), false),
        other => (other.clone(), true),
    }
}

fn print(g: &G) -> R {
    let c = constant(g, g.usize(4));
    let text = c.to_string();
    g.note(&text);
    g.nontrivial(text.len() > 6);
    let want = rounded(&c);
    match dm::constants::evaluate_str(Location::default(), text.as_bytes()) {
        Ok(d) => {
            ensure!(d == want, "read back", "{} evaluates to {:?}, not {:?}", text, d, want);
            // (the printed form is stable)
            ensure_eq!(d.to_string(), text, "stable", "printing the value read back");
        },
        Err(e) => return fail("read back", format!("{} does not evaluate: {}", text, e.description())),
    }
    // the same through the tokens of a declaration
    let (ctx, tree) = parse_program(&format!("/obj/var/v = {}\n", text));
    ensure!(ctx.errors().is_empty(), "declaration", "var/v = {} gives {:?}", text, diags(&ctx));
    let got = tree.find("/obj").unwrap().vars["v"].value.constant.clone();
    ensure!(got.as_ref().is_some_and(|d| d.to_string() == text), "declaration", "var/v = {} is {:?}", text, got);
    Ok(())
}

fn h(c: &Constant) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut s);
    s.finish()
}

fn laws(g: &G) -> R {
    let a = {
        let c = constant(g, g.usize(4));
        if g.chance(1, 10) { Constant::Null(if g.bool() { None } else { Some(Pop::from_path_str(&rpath(g)).path) }) } else { c }
    };
    let a = if g.chance(1, 10) { Constant::Float(fnum(g)) } else { a };
    let (b, same) = twist(g, &a);
    let (c, same2) = twist(g, &b);
    let d = constant(g, 1);
    g.note(&format!("{} | {} | {}", a, b, c));
    g.nontrivial(same && a.to_string() != b.to_string() || !same);
    g.label(if same { "equal pair" } else { "different pair" });
    for x in [&a, &b, &c, &d] {
        #[allow(clippy::eq_op)]
        let refl = *x == *x;
        ensure!(refl, "reflexive", "{:?} differs from itself", x);
        ensure!(h(x) == h(&x.clone()), "hash", "{:?} hashes unlike its clone", x);
    }
    ensure!((a == b) == same, "equality", "{:?} == {:?} is {}", a, b, a == b);
    ensure!((b == c) == same2, "equality", "{:?} == {:?} is {}", b, c, b == c);
    if same && same2 {
        ensure!(a == c, "transitive", "{:?} == {:?} == {:?}", a, b, c);
    }
    let all = [&a, &b, &c, &d];
    for x in all {
        for y in all {
            ensure!((x == y) == (y == x), "symmetric", "{:?} and {:?}", x, y);
            ensure!(x != y || h(x) == h(y), "hash", "{:?} == {:?} but the hashes differ", x, y);
            for z in all {
                ensure!(!(x == y && y == z) || x == z, "transitive", "{:?} == {:?} == {:?}", x, y, z);
            }
        }
    }
    Ok(())
}

pub fn c11() -> Prop {
    let _ = ref_format;
    let _ = |_: FileId, _: Token| ();
    Prop {
        id: "C11",
        rule: "expr: an expression of at least three nodes with a value; program: at least two variables with values, one needing at least four evaluation steps",
        assumptions: &[
            "left open (not compared): division by zero, % of fractions, bit operations on negative or over-24-bit operands, powers of numbers below 0, comparing strings or lists by order, arithmetic on null, arcsin/arccos near or beyond +-1, trigonometry beyond 10000 degrees, HCY colours",
            "sin, cos, arcsin, arccos and ** are compared within a relative 2e-4; HSV and HSL colours within one step per channel",
            "a global that is not constant has a value only if something refers to it",
        ],
        subs: vec![Sub { name: "expr", quick: 300000, thorough: 20000000, run: expr }, Sub { name: "program", quick: 15000, thorough: 600000, run: program }],
    }
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "print: more than six characters of text; laws: a pair that is equal but printed differently, or different in one place",
        assumptions: &["numbers are finite when printed; strings hold what a literal can store (no unescaped bracket, no lone trailing backslash); the type remembered with a null value is not printed"],
        subs: vec![Sub { name: "print", quick: 30000, thorough: 1000000, run: print }, Sub { name: "laws", quick: 300000, thorough: 15000000, run: laws }],
    }
}
