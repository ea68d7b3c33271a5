//! An independent model of DM expressions and statements: generator, renderer to source text by the
//! documented precedence table, and S-expression form; plus the S-expression form of parsed code.
use dm::ast::*;
use dm::Location;
use engine::G;
use std::cell::Cell;

// ---------------------------------------------------------------------------------------------
// Model expressions

#[derive(Clone, Debug)]
pub enum Acc {
    Dot,
    Colon,
    SafeDot,
    SafeColon,
}
impl Acc {
    pub fn text(&self) -> &'static str {
        match self {
            Acc::Dot => ".",
            Acc::Colon => ":",
            Acc::SafeDot => "?.",
            Acc::SafeColon => "?:",
        }
    }
}

#[derive(Clone, Debug)]
pub enum NewKind {
    Implicit,
    /// text of the path, s-expression of the path, variables
    Path(String, String, Vec<(String, E)>),
    Mini(String, Vec<(Acc, String)>),
}

#[derive(Clone, Debug)]
pub enum E {
    /// source text, s-expression, may be the base of an access
    Atom(String, String, bool),
    Ident(String),
    BareDot,
    Bin(usize, Box<E>, Box<E>),
    Assign(usize, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    In(Box<E>, Box<E>),
    InTo(Box<E>, Box<E>, Box<E>),
    Pre(usize, Box<E>),
    Post(bool, Box<E>),
    Field(Box<E>, Acc, String),
    Index(Box<E>, bool, Box<E>),
    MCall(Box<E>, Acc, String, Vec<E>),
    Static(Box<E>, String),
    ProcRef(Box<E>, String),
    Call(String, Vec<E>),
    GlobalIdent(String),
    GlobalCall(String, Vec<E>),
    SelfCall(Vec<E>),
    ParentCall(Vec<E>),
    New(NewKind, Option<Vec<E>>),
    List(bool, Vec<E>),
    Input(Vec<E>, Vec<&'static str>, Option<Box<E>>),
    Locate(Vec<E>, Option<Box<E>>),
    Pick(Vec<(Option<E>, E)>),
    Call2(Vec<E>, Vec<E>),
    CallExt(Option<Box<E>>, Box<E>, Vec<E>),
    Prefab(String, String, Vec<(String, E)>),
    Interp(String, Vec<(Option<E>, String)>),
}

/// Binary operators: text, level (smaller binds tighter), name.
pub const BIN: &[(&str, u8, &str)] = &[
    ("+", 4, "+"),
    ("-", 4, "-"),
    ("*", 3, "*"),
    ("/", 3, "/"),
    ("%", 3, "%"),
    ("%%", 3, "%%"),
    ("**", 2, "**"),
    ("<", 5, "<"),
    ("<=", 5, "<="),
    (">", 5, ">"),
    (">=", 5, ">="),
    ("<=>", 5, "<=>"),
    ("<<", 6, "<<"),
    (">>", 6, ">>"),
    ("==", 7, "=="),
    ("!=", 7, "!="),
    ("<>", 7, "!="),
    ("~=", 7, "~="),
    ("~!", 7, "~!"),
    ("&", 8, "&"),
    ("^", 9, "^"),
    ("|", 10, "|"),
    ("&&", 11, "&&"),
    ("||", 12, "||"),
];
pub const COND: u8 = 13;
pub const ASSIGN: u8 = 14;
pub const IN: u8 = 15;
pub const ASSIGNS: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||="];
pub const PRE: &[(&str, &str)] = &[("-", "neg"), ("!", "not"), ("~", "bitnot"), ("++", "preinc"), ("--", "predec"), ("&", "ref"), ("*", "deref")];
pub const TYPES: &[&str] = &["mob", "obj", "text", "num", "file", "turf", "key", "null", "area", "icon", "sound", "message", "anything", "password", "command_text", "color"];

pub fn level(e: &E) -> u8 {
    match e {
        E::Bin(op, ..) => BIN[*op].1,
        E::Assign(..) => ASSIGN,
        E::Tern(..) => COND,
        E::In(..) | E::InTo(..) => IN,
        E::Pre(..) => 1,
        _ => 0,
    }
}

fn sx_list(es: &[E]) -> String {
    es.iter().map(|e| format!(" {}", sx(e))).collect()
}

pub fn type_bits(ts: &[&'static str]) -> String {
    let mut v: Vec<&str> = TYPES.iter().copied().filter(|t| ts.contains(t)).collect();
    v.sort();
    v.join("|")
}

fn sx_vars(vs: &[(String, E)]) -> String {
    if vs.is_empty() {
        String::new()
    } else {
        format!("{{{}}}", vs.iter().map(|(k, v)| format!("{}={};", k, sx(v))).collect::<String>())
    }
}

/// The S-expression the parser should produce.
pub fn sx(e: &E) -> String {
    match e {
        E::Atom(_, s, _) => s.clone(),
        E::Ident(s) => s.clone(),
        E::BareDot => ".".into(),
        E::Bin(op, a, b) => format!("({} {} {})", BIN[*op].2, sx(a), sx(b)),
        E::Assign(op, a, b) => format!("({} {} {})", ASSIGNS[*op], sx(a), sx(b)),
        E::Tern(c, a, b) => format!("(? {} {} {})", sx(c), sx(a), sx(b)),
        E::In(a, b) => format!("(in {} {})", sx(a), sx(b)),
        E::InTo(a, b, c) => format!("(in {} (to {} {}))", sx(a), sx(b), sx(c)),
        E::Pre(op, a) => format!("({} {})", PRE[*op].1, sx(a)),
        E::Post(inc, a) => format!("({} {})", if *inc { "postinc" } else { "postdec" }, sx(a)),
        E::Field(a, k, n) => format!("(field{} {} {})", k.text(), sx(a), n),
        E::Index(a, safe, i) => format!("(index{} {} {})", if *safe { "?" } else { "" }, sx(a), sx(i)),
        E::MCall(a, k, n, args) => format!("(mcall{} {} {}{})", k.text(), sx(a), n, sx_list(args)),
        E::Static(a, n) => format!("(static {} {})", sx(a), n),
        E::ProcRef(a, n) => format!("(procref {} {})", sx(a), n),
        E::Call(n, args) => format!("(call {}{})", n, sx_list(args)),
        E::GlobalIdent(n) => format!("(global {})", n),
        E::GlobalCall(n, args) => format!("(globalcall {}{})", n, sx_list(args)),
        E::SelfCall(args) => format!("(self{})", sx_list(args)),
        E::ParentCall(args) => format!("(parent{})", sx_list(args)),
        E::New(k, args) => {
            let k = match k {
                NewKind::Implicit => "implicit".to_string(),
                NewKind::Path(_, s, v) => format!("{}{}", s, sx_vars(v)),
                NewKind::Mini(n, f) => format!("mini:{}{}", n, f.iter().map(|(a, n)| format!("<{}{}>", a.text(), n)).collect::<String>()),
            };
            match args {
                None => format!("(new {} noargs)", k),
                Some(a) => format!("(new {}{})", k, sx_list(a)),
            }
        },
        E::List(_, args) => format!("(list{})", sx_list(args)),
        E::Input(args, ty, l) => format!("(input{} as {} in {})", sx_list(args), if ty.is_empty() { "-".into() } else { type_bits(ty) }, l.as_ref().map_or("-".into(), |l| sx(l))),
        E::Locate(args, l) => format!("(locate{} in {})", sx_list(args), l.as_ref().map_or("-".into(), |l| sx(l))),
        E::Pick(args) => format!("(pick{})", args.iter().map(|(w, v)| format!(" {};{}", w.as_ref().map_or("-".into(), sx), sx(v))).collect::<String>()),
        E::Call2(a, b) => format!("(dyncall [{}] [{}])", sx_list(a), sx_list(b)),
        E::CallExt(l, f, a) => format!("(callext {} {} [{}])", l.as_ref().map_or("-".into(), |l| sx(l)), sx(f), sx_list(a)),
        E::Prefab(_, s, v) => format!("{}{}", s, sx_vars(v)),
        E::Interp(b, parts) => format!("(interp {:?}{})", b, parts.iter().map(|(e, s)| format!(" {} {:?}", e.as_ref().map_or("-".into(), sx), s)).collect::<String>()),
    }
}

// ---------------------------------------------------------------------------------------------
// S-expressions of parsed code

pub struct Seen {
    pub idents: Vec<(String, Location)>,
    pub stmts: Vec<Location>,
    pub tags: Vec<&'static str>,
}
impl Seen {
    pub fn new() -> Seen {
        Seen { idents: vec![], stmts: vec![], tags: vec![] }
    }
}

fn acc_text(k: PropertyAccessKind) -> &'static str {
    match k {
        PropertyAccessKind::Dot => ".",
        PropertyAccessKind::Colon => ":",
        PropertyAccessKind::SafeDot => "?.",
        PropertyAccessKind::SafeColon => "?:",
        PropertyAccessKind::Scope => "::",
    }
}

pub fn bits_text(t: InputType) -> String {
    // each primitive bit by its own name
    let table: &[(InputType, &str)] = &[
        (InputType::MOB, "mob"),
        (InputType::OBJ, "obj"),
        (InputType::TEXT, "text"),
        (InputType::NUM, "num"),
        (InputType::FILE, "file"),
        (InputType::TURF, "turf"),
        (InputType::KEY, "key"),
        (InputType::NULL, "null"),
        (InputType::AREA, "area"),
        (InputType::ICON, "icon"),
        (InputType::SOUND, "sound"),
        (InputType::MESSAGE, "message"),
        (InputType::ANYTHING, "anything"),
        (InputType::PASSWORD, "password"),
        (InputType::COMMAND_TEXT, "command_text"),
        (InputType::COLOR, "color"),
    ];
    let mut v: Vec<&str> = table.iter().filter(|(b, _)| t.contains(*b)).map(|x| x.1).collect();
    v.sort();
    v.join("|")
}

pub fn p_path(p: &TypePath) -> String {
    p.iter().map(|(op, n)| format!("{}{}", op.name(), n)).collect()
}

fn p_list(es: &[Expression], s: &mut Seen) -> String {
    es.iter().map(|e| format!(" {}", p_expr(e, s))).collect()
}
fn p_vars(vs: &[(Ident, Expression)], s: &mut Seen) -> String {
    if vs.is_empty() {
        String::new()
    } else {
        format!("{{{}}}", vs.iter().map(|(k, v)| format!("{}={};", k, p_expr(v, s))).collect::<String>())
    }
}
fn p_opt(e: Option<&Expression>, s: &mut Seen) -> String {
    match e {
        None => "-".into(),
        Some(e) => p_expr(e, s),
    }
}

pub fn p_term(t: &Term, loc: Location, s: &mut Seen) -> String {
    match t {
        Term::Null => "null".into(),
        Term::Int(i) => format!("{}", i),
        Term::Float(f) => format!("f{}", f),
        Term::Ident(i) => {
            s.idents.push((i.to_string(), loc));
            i.to_string()
        },
        Term::String(x) => format!("{:?}", x),
        Term::Resource(x) => format!("'{}'", x),
        Term::As(t) => format!("as:{}", bits_text(*t)),
        Term::__PROC__ => "__PROC__".into(),
        Term::__TYPE__ => "__TYPE__".into(),
        Term::__IMPLIED_TYPE__ => "__IMPLIED_TYPE__".into(),
        Term::Expr(e) => p_expr(e, s),
        Term::Prefab(p) => format!("{}{}", p_path(&p.path), p_vars(&p.vars, s)),
        Term::InterpString(b, parts) => format!("(interp {:?}{})", b.as_str(), parts.iter().map(|(e, t)| format!(" {} {:?}", p_opt(e.as_ref(), s), &t[..])).collect::<String>()),
        Term::Call(n, a) => format!("(call {}{})", n, p_list(a, s)),
        Term::SelfCall(a) => format!("(self{})", p_list(a, s)),
        Term::ParentCall(a) => format!("(parent{})", p_list(a, s)),
        Term::NewImplicit { args } => p_new("implicit".into(), args, s),
        Term::NewPrefab { prefab, args } => {
            let k = format!("{}{}", p_path(&prefab.path), p_vars(&prefab.vars, s));
            p_new(k, args, s)
        },
        Term::NewMiniExpr { expr, args } => {
            let k = format!("mini:{}{}", expr.ident, expr.fields.iter().map(|f| format!("<{}{}>", acc_text(f.kind), f.ident)).collect::<String>());
            p_new(k, args, s)
        },
        Term::List(a) => format!("(list{})", p_list(a, s)),
        Term::Input { args, input_type, in_list } => format!("(input{} as {} in {})", p_list(args, s), input_type.map_or("-".into(), bits_text), p_opt(in_list.as_deref(), s)),
        Term::Locate { args, in_list } => format!("(locate{} in {})", p_list(args, s), p_opt(in_list.as_deref(), s)),
        Term::Pick(a) => format!("(pick{})", a.iter().map(|(w, v)| format!(" {};{}", p_opt(w.as_ref(), s), p_expr(v, s))).collect::<String>()),
        Term::DynamicCall(a, b) => format!("(dyncall [{}] [{}])", p_list(a, s), p_list(b, s)),
        Term::ExternalCall { library, function, args } => format!("(callext {} {} [{}])", p_opt(library.as_deref(), s), p_expr(function, s), p_list(args, s)),
        Term::GlobalIdent(i) => format!("(global {})", i),
        Term::GlobalCall(n, a) => format!("(globalcall {}{})", n, p_list(a, s)),
    }
}

fn p_new(k: String, args: &Option<Box<[Expression]>>, s: &mut Seen) -> String {
    match args {
        None => format!("(new {} noargs)", k),
        Some(a) => format!("(new {}{})", k, p_list(a, s)),
    }
}

pub fn p_expr(e: &Expression, s: &mut Seen) -> String {
    match e {
        Expression::Base { term, follow } => {
            let mut cur = p_term(&term.elem, term.location, s);
            for f in follow.iter() {
                cur = match &f.elem {
                    Follow::Index(k, i) => format!("(index{} {} {})", if *k == ListAccessKind::Safe { "?" } else { "" }, cur, p_expr(i, s)),
                    Follow::Field(k, n) => format!("(field{} {} {})", acc_text(*k), cur, n),
                    Follow::Call(k, n, a) => format!("(mcall{} {} {}{})", acc_text(*k), cur, n, p_list(a, s)),
                    Follow::Unary(u) => {
                        let n = match u {
                            UnaryOp::Neg => "neg",
                            UnaryOp::Not => "not",
                            UnaryOp::BitNot => "bitnot",
                            UnaryOp::PreIncr => "preinc",
                            UnaryOp::PostIncr => "postinc",
                            UnaryOp::PreDecr => "predec",
                            UnaryOp::PostDecr => "postdec",
                            UnaryOp::Reference => "ref",
                            UnaryOp::Dereference => "deref",
                        };
                        format!("({} {})", n, cur)
                    },
                    Follow::StaticField(n) => format!("(static {} {})", cur, n),
                    Follow::ProcReference(n) => format!("(procref {} {})", cur, n),
                };
            }
            cur
        },
        Expression::BinaryOp { op, lhs, rhs } => {
            let n = match op {
                BinaryOp::Add => "+",
                BinaryOp::Sub => "-",
                BinaryOp::Mul => "*",
                BinaryOp::Div => "/",
                BinaryOp::Pow => "**",
                BinaryOp::Mod => "%",
                BinaryOp::FloatMod => "%%",
                BinaryOp::Eq => "==",
                BinaryOp::NotEq => "!=",
                BinaryOp::Less => "<",
                BinaryOp::Greater => ">",
                BinaryOp::LessEq => "<=",
                BinaryOp::GreaterEq => ">=",
                BinaryOp::LessOrGreater => "<=>",
                BinaryOp::Equiv => "~=",
                BinaryOp::NotEquiv => "~!",
                BinaryOp::BitAnd => "&",
                BinaryOp::BitXor => "^",
                BinaryOp::BitOr => "|",
                BinaryOp::LShift => "<<",
                BinaryOp::RShift => ">>",
                BinaryOp::And => "&&",
                BinaryOp::Or => "||",
                BinaryOp::In => "in",
                BinaryOp::To => "to",
            };
            let a = p_expr(lhs, s);
            let b = p_expr(rhs, s);
            format!("({} {} {})", n, a, b)
        },
        Expression::AssignOp { op, lhs, rhs } => {
            let n = match op {
                AssignOp::Assign => "=",
                AssignOp::AddAssign => "+=",
                AssignOp::SubAssign => "-=",
                AssignOp::MulAssign => "*=",
                AssignOp::DivAssign => "/=",
                AssignOp::ModAssign => "%=",
                AssignOp::FloatModAssign => "%%=",
                AssignOp::AssignInto => ":=",
                AssignOp::BitAndAssign => "&=",
                AssignOp::AndAssign => "&&=",
                AssignOp::BitOrAssign => "|=",
                AssignOp::OrAssign => "||=",
                AssignOp::BitXorAssign => "^=",
                AssignOp::LShiftAssign => "<<=",
                AssignOp::RShiftAssign => ">>=",
            };
            let a = p_expr(lhs, s);
            let b = p_expr(rhs, s);
            format!("({} {} {})", n, a, b)
        },
        Expression::TernaryOp { cond, if_, else_ } => {
            let a = p_expr(cond, s);
            let b = p_expr(if_, s);
            let c = p_expr(else_, s);
            format!("(? {} {} {})", a, b, c)
        },
    }
}

// ---------------------------------------------------------------------------------------------
// Rendering to token texts

/// A piece of text; `glue` means no space may be put before it.
#[derive(Clone, Debug)]
pub struct T {
    pub s: String,
    pub glue: bool,
    /// a space is always put before it
    pub space: bool,
}

pub struct Rend<'a> {
    pub g: &'a G,
    pub out: Vec<T>,
    /// chance in 100 of redundant parentheses
    pub redundant: u64,
    /// put the redundant parentheses everywhere
    pub full: bool,
}

impl<'a> Rend<'a> {
    pub fn new(g: &'a G, redundant: u64) -> Rend<'a> {
        Rend { g, out: vec![], redundant, full: false }
    }
    pub fn t(&mut self, s: &str) {
        self.out.push(T { s: s.into(), glue: false, space: false });
    }
    pub fn glued(&mut self, s: &str) {
        self.out.push(T { s: s.into(), glue: true, space: false });
    }
    pub fn spaced(&mut self, s: &str) {
        self.out.push(T { s: s.into(), glue: false, space: true });
    }
    pub fn args(&mut self, a: &[E]) {
        self.t("(");
        for (i, e) in a.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.expr(e, IN, false);
        }
        if !a.is_empty() && self.g.chance(1, 30) {
            self.t(",");
        }
        self.t(")");
    }
    fn vars(&mut self, vs: &[(String, E)]) {
        if vs.is_empty() {
            return;
        }
        self.t("{");
        for (i, (k, v)) in vs.iter().enumerate() {
            if i > 0 {
                self.t(";");
            }
            self.t(k);
            self.t("=");
            self.expr(v, ASSIGN - 1, false);
        }
        self.t("}");
    }
    /// Would this need parentheses when used with something following it directly?
    fn base_ok(&self, e: &E, in_ternary: bool) -> bool {
        match e {
            E::Atom(_, _, ok) => *ok,
            E::Ident(_) | E::Post(..) | E::Call(..) | E::GlobalIdent(_) | E::GlobalCall(..) | E::SelfCall(_) | E::ParentCall(_) | E::List(..) | E::Pick(_) | E::Call2(..) | E::CallExt(..) | E::Interp(..) => true,
            E::Field(_, Acc::Colon, _) | E::MCall(_, Acc::Colon, _, _) => !in_ternary,
            E::Field(..) | E::MCall(..) | E::Index(..) | E::Static(..) | E::ProcRef(..) => true,
            E::New(_, Some(_)) => true,
            E::Locate(_, None) => true,
            _ => false,
        }
    }
    fn base(&mut self, e: &E, in_ternary: bool) {
        if self.base_ok(e, in_ternary) {
            self.expr(e, 0, in_ternary);
        } else {
            self.paren(e);
        }
    }
    fn paren(&mut self, e: &E) {
        self.t("(");
        self.expr(e, IN, false);
        self.t(")");
    }
    pub fn expr(&mut self, e: &E, max: u8, in_ternary: bool) {
        let l = level(e);
        let atomic = matches!(e, E::Atom(..) | E::Ident(_));
        let need = l > max
            || match e {
                E::Prefab(..) => max <= 3,
                E::BareDot => max < IN,
                E::New(_, None) => true,
                E::Input(..) => true,
                E::Locate(_, Some(_)) => true,
                E::Locate(_, None) => max > 0,
                E::Field(_, Acc::Colon, _) | E::MCall(_, Acc::Colon, _, _) => in_ternary,
                _ => false,
            };
        if need || (self.full && !atomic) || (self.redundant > 0 && self.g.chance(self.redundant, 100)) {
            self.t("(");
            self.inner(e, false);
            self.t(")");
        } else {
            self.inner(e, in_ternary);
        }
    }
    fn inner(&mut self, e: &E, it: bool) {
        match e {
            E::Atom(t, _, _) => self.t(t),
            E::Ident(t) => self.t(t),
            E::BareDot => self.t("."),
            E::Bin(op, a, b) => {
                let l = BIN[*op].1;
                self.expr(a, l, it);
                self.t(BIN[*op].0);
                self.expr(b, l - 1, it);
            },
            E::Assign(op, a, b) => {
                if matches!(**a, E::BareDot) {
                    self.t(".");
                } else {
                    self.expr(a, COND, it);
                }
                self.t(ASSIGNS[*op]);
                self.expr(b, ASSIGN, it);
            },
            E::Tern(c, a, b) => {
                self.expr(c, COND - 1, it);
                self.spaced("?");
                self.expr(a, COND, true);
                // after anything but a name the colon needs no spaces (after a name it would be an access)
                let last = &self.out[self.out.len() - 1].s;
                let closed = matches!(last.chars().last(), Some(')' | ']' | '"')) || last.chars().all(|c| c.is_ascii_digit());
                if closed && self.g.chance(2, 3) {
                    self.glued(":");
                    self.expr(b, COND, true);
                } else {
                    self.spaced(":");
                    // a space must follow the colon
                    let n = self.out.len();
                    self.expr(b, COND, true);
                    self.out[n].space = true;
                }
            },
            E::In(a, b) => {
                if matches!(**a, E::InTo(..)) {
                    self.paren(a);
                } else {
                    self.expr(a, IN, it);
                }
                self.spaced("in");
                self.expr(b, ASSIGN, it);
            },
            E::InTo(a, b, c) => {
                if matches!(**a, E::InTo(..)) {
                    self.paren(a);
                } else {
                    self.expr(a, IN, it);
                }
                self.spaced("in");
                self.expr(b, ASSIGN, it);
                self.spaced("to");
                self.expr(c, ASSIGN, it);
            },
            E::Pre(op, a) => {
                self.t(PRE[*op].0);
                self.expr(a, 1, it);
            },
            E::Post(inc, a) => {
                self.base(a, it);
                self.t(if *inc { "++" } else { "--" });
            },
            E::Field(a, k, n) => {
                self.acc_base(a, k, it);
                self.glued(k.text());
                self.glued(n);
            },
            E::Index(a, safe, i) => {
                if matches!(**a, E::BareDot) {
                    self.t(".");
                } else {
                    self.base(a, it);
                }
                self.glued(if *safe { "?[" } else { "[" });
                self.expr(i, IN, false);
                self.t("]");
            },
            E::MCall(a, k, n, args) => {
                self.acc_base(a, k, it);
                self.glued(k.text());
                self.glued(n);
                self.args(args);
            },
            E::Static(a, n) => {
                self.scope_base(a, it);
                self.glued("::");
                self.glued(n);
            },
            E::ProcRef(a, n) => {
                self.scope_base(a, it);
                self.glued("::");
                self.glued(n);
                self.glued("(");
                self.t(")");
            },
            E::Call(n, args) => {
                self.t(n);
                self.args(args);
            },
            E::GlobalIdent(n) => {
                self.t("::");
                self.glued(n);
            },
            E::GlobalCall(n, args) => {
                self.t("::");
                self.glued(n);
                self.args(args);
            },
            E::SelfCall(args) => {
                self.t(".");
                self.args_glued(args);
            },
            E::ParentCall(args) => {
                self.t("..");
                self.args_glued(args);
            },
            E::New(k, args) => {
                self.t("new");
                match k {
                    NewKind::Implicit => {},
                    NewKind::Path(t, _, vs) => {
                        self.spaced(t);
                        self.vars(vs);
                    },
                    NewKind::Mini(n, fs) => {
                        self.spaced(n);
                        for (a, n) in fs {
                            self.glued(a.text());
                            self.glued(n);
                        }
                    },
                }
                if let Some(a) = args {
                    self.args(a);
                }
            },
            E::List(assoc, args) => {
                self.t(if *assoc { "alist" } else { "list" });
                self.args(args);
            },
            E::Input(args, ty, l) => {
                self.t("input");
                self.args(args);
                if !ty.is_empty() {
                    self.t("as");
                    for (i, t) in ty.iter().enumerate() {
                        if i > 0 {
                            self.t("|");
                        }
                        self.t(t);
                    }
                }
                if let Some(l) = l {
                    self.spaced("in");
                    self.expr(l, ASSIGN, false);
                }
            },
            E::Locate(args, l) => {
                self.t("locate");
                self.t("(");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.expr(a, ASSIGN, false);
                }
                self.t(")");
                if let Some(l) = l {
                    self.spaced("in");
                    self.expr(l, ASSIGN, false);
                }
            },
            E::Pick(args) => {
                self.t("pick");
                self.t("(");
                for (i, (w, v)) in args.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    if let Some(w) = w {
                        self.expr(w, IN, false);
                        self.t(";");
                    }
                    self.expr(v, IN, false);
                }
                self.t(")");
            },
            E::Call2(a, b) => {
                self.t("call");
                self.args(a);
                self.args(b);
            },
            E::CallExt(l, f, a) => {
                self.t("call_ext");
                self.t("(");
                if let Some(l) = l {
                    self.expr(l, IN, false);
                    self.t(",");
                }
                self.expr(f, IN, false);
                self.t(")");
                self.args(a);
            },
            E::Prefab(t, _, vs) => {
                self.t(t);
                self.vars(vs);
            },
            E::Interp(b, parts) => {
                self.t(&format!("\"{}[", b));
                let n = parts.len();
                for (i, (e, s)) in parts.iter().enumerate() {
                    if let Some(e) = e {
                        self.expr(e, IN, false);
                    }
                    self.t(&format!("]{}{}", s, if i + 1 == n { "\"" } else { "[" }));
                }
            },
        }
    }
    fn args_glued(&mut self, a: &[E]) {
        let n = self.out.len();
        self.args(a);
        self.out[n].glue = true;
    }
    /// `:` is an access only right after a name or a closing bracket
    fn acc_base(&mut self, a: &E, k: &Acc, it: bool) {
        let odd = match a {
            E::Atom(t, ..) => t.ends_with('"') || t.ends_with('\''),
            E::Post(..) | E::Interp(..) => true,
            _ => false,
        };
        if odd && matches!(k, Acc::Colon) {
            self.paren(a);
        } else {
            self.base(a, it);
        }
    }
    fn scope_base(&mut self, a: &E, it: bool) {
        match a {
            E::Prefab(_, _, v) if v.is_empty() => self.inner(a, it),
            _ => self.base(a, it),
        }
    }
}

fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '"' || c == '\'' || c == '.' || c == '@'
}

/// May the two texts be written with nothing between them?
pub fn can_join(a: &str, b: &str) -> bool {
    let x = a.chars().last().unwrap_or(' ');
    let y = b.chars().next().unwrap_or(' ');
    if wordish(x) && wordish(y) {
        return false;
    }
    if wordish(x) && a != "." || wordish(y) && b != "." && !b.starts_with('.') {
        // one side is a word: only `5.`-like and `a.`-like merges matter
        return x != '.' && y != '.';
    }
    // brackets never merge with each other
    let br = |c: char| "()[]{},;".contains(c);
    if br(x) && br(y) {
        return !(x == '{' || y == '}' || x == '?' || y == '?');
    }
    false
}

/// Lay out on one line.
pub fn join(g: &G, ts: &[T]) -> String {
    join_multi(g, ts, false)
}

/// Lay out; `multi` lets lines break inside parentheses.
pub fn join_multi(g: &G, ts: &[T], multi: bool) -> String {
    let mut o = String::new();
    let style = g.weighted(&[4, 3, 1]);
    let mut depth = 0;
    for (i, t) in ts.iter().enumerate() {
        if i > 0 && !t.glue {
            if multi && depth > 0 && g.chance(1, 10) {
                match g.weighted(&[4, 1, 1]) {
                    0 => {},
                    1 => o.push_str(" // note"),
                    _ => o.push_str(" /* note */"),
                }
                o.push('\n');
                if g.chance(1, 8) {
                    o.push('\n');
                }
                for _ in 0..g.usize(5) {
                    o.push(if g.chance(1, 4) { ' ' } else { '\t' });
                }
                if t.space && t.s == ":" {
                    // keep the colon free-standing
                }
            } else if t.space || !can_join(&ts[i - 1].s, &t.s) {
                o.push(' ');
                if g.chance(1, 30) {
                    o.push(' ');
                }
            } else {
                match style {
                    0 if g.bool() => o.push(' '),
                    2 if g.chance(1, 4) => o.push_str(g.pick::<&str>(&[" ", "  ", "\t", " /* c */ ", " \t "])),
                    _ => {},
                }
            }
        }
        o.push_str(&t.s);
        match &t.s[..] {
            "(" => depth += 1,
            ")" => depth -= 1,
            _ => {},
        }
    }
    o
}

// ---------------------------------------------------------------------------------------------
// Generation

pub struct Names(Cell<usize>);
impl Names {
    pub fn new() -> Names {
        Names(Cell::new(0))
    }
    pub fn fresh(&self) -> String {
        let n = self.0.get();
        self.0.set(n + 1);
        format!("x{:04}", n)
    }
}

const FIELDS: &[&str] = &["fa", "fb", "name", "loc", "contents", "type", "_u9"];
const FUNCS: &[&str] = &["Foo", "bar", "istype", "max", "qdel", "Process"];

fn path(g: &G) -> (String, String) {
    let mut s = String::new();
    let n = 1 + if g.chance(1, 8) { g.usize(9) } else { g.usize(3) };
    let odd = *g.pick(&[10, 10, 2]);
    for i in 0..n {
        if i > 0 && g.chance(1, odd) {
            s.push(*g.pick(&['.', ':']));
        } else {
            s.push('/');
        }
        s.push_str(g.pick(&["obj", "mob", "item", "a", "b2", "proc", "list"]));
    }
    (s.clone(), s)
}

fn acc(g: &G) -> Acc {
    match g.weighted(&[6, 2, 2, 1]) {
        0 => Acc::Dot,
        1 => Acc::Colon,
        2 => Acc::SafeDot,
        _ => Acc::SafeColon,
    }
}

fn strtext(g: &G) -> String {
    let n = g.usize(6);
    (0..n).map(|_| *g.pick(&['a', 'b', ' ', 'Z', '0', '.', ',', '/', '(', '}', '\'', ';', ':', '-'])).collect()
}

pub fn gen_atom(g: &G, names: &Names) -> E {
    match g.weighted(&[10, 4, 2, 3, 1, 1, 1, 1, 1]) {
        0 => E::Ident(names.fresh()),
        1 => {
            let v = if g.bool() { g.range(0, 20) } else { g.range(0, 0xffffff) };
            E::Atom(v.to_string(), v.to_string(), false)
        },
        2 => {
            let v = g.range(1, 999) as f32 / 8.0 + 0.0625;
            E::Atom(format!("{}", v), format!("f{}", v), false)
        },
        3 => {
            let s = strtext(g);
            E::Atom(format!("\"{}\"", s), format!("{:?}", s), true)
        },
        4 => E::Atom("null".into(), "null".into(), true),
        5 => E::Atom("'a/b.dmi'".into(), "'a/b.dmi'".into(), true),
        6 => {
            let t = *g.pick(&["__PROC__", "__TYPE__", "__IMPLIED_TYPE__"]);
            E::Atom(t.into(), t.into(), true)
        },
        7 => {
            let ts = input_types(g);
            E::Atom(format!("as({})", ts.join("|")), format!("as:{}", type_bits(&ts)), true)
        },
        _ => E::Atom("src".into(), "src".into(), true),
    }
}

pub fn input_types(g: &G) -> Vec<&'static str> {
    let n = 1 + g.usize(3);
    (0..n).map(|_| *g.pick(TYPES)).collect()
}

pub fn gen_args(g: &G, names: &Names, depth: usize, assigns: bool) -> Vec<E> {
    let n = g.weighted(&[3, 4, 3, 1]);
    (0..n)
        .map(|_| {
            let e = gen(g, names, depth);
            if assigns && g.chance(1, 3) {
                let k = match g.usize(2) {
                    0 => E::Ident(names.fresh()),
                    _ => E::Atom("\"k\"".into(), "\"k\"".into(), true),
                };
                E::Assign(0, Box::new(k), Box::new(e))
            } else {
                e
            }
        })
        .collect()
}

fn gen_vars(g: &G, names: &Names, depth: usize) -> Vec<(String, E)> {
    (0..1 + g.usize(2)).map(|_| (g.pick(FIELDS).to_string(), gen(g, names, depth))).collect()
}

/// Only operators over names and numbers.
pub fn gen_ops(g: &G, names: &Names, depth: usize) -> E {
    if depth == 0 || g.chance(1, 5) {
        return match g.weighted(&[5, 1]) {
            0 => E::Ident(names.fresh()),
            _ => {
                let v = g.range(0, 9);
                E::Atom(v.to_string(), v.to_string(), false)
            },
        };
    }
    let d = depth - 1;
    match g.weighted(&[8, 2, 2, 1, 2]) {
        0 => {
            let op = g.usize(BIN.len());
            E::Bin(op, Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d)))
        },
        1 => E::Tern(Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d))),
        2 => E::Assign(g.usize(ASSIGNS.len()), Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d))),
        3 => {
            if g.chance(1, 3) {
                E::InTo(Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d)))
            } else {
                E::In(Box::new(gen_ops(g, names, d)), Box::new(gen_ops(g, names, d)))
            }
        },
        _ => {
            if g.chance(1, 4) {
                E::Post(g.bool(), Box::new(gen_ops(g, names, d)))
            } else {
                E::Pre(g.usize(PRE.len()), Box::new(gen_ops(g, names, d)))
            }
        },
    }
}

pub fn gen(g: &G, names: &Names, depth: usize) -> E {
    if depth == 0 || g.chance(1, 6) {
        return gen_atom(g, names);
    }
    let d = depth - 1;
    let b = |e: E| Box::new(e);
    match g.weighted(&[8, 2, 2, 1, 2, 4, 3, 4, 3, 2, 2, 1, 1, 1, 1, 1, 2, 1, 1]) {
        0 => E::Bin(g.usize(BIN.len()), b(gen(g, names, d)), b(gen(g, names, d))),
        1 => E::Tern(b(gen(g, names, d)), b(gen(g, names, d)), b(gen(g, names, d))),
        2 => {
            let lhs = if g.chance(1, 4) { E::BareDot } else { gen(g, names, d) };
            E::Assign(g.usize(ASSIGNS.len()), b(lhs), b(gen(g, names, d)))
        },
        3 => {
            if g.chance(1, 4) {
                E::InTo(b(gen(g, names, d)), b(gen(g, names, d)), b(gen(g, names, d)))
            } else {
                E::In(b(gen(g, names, d)), b(gen(g, names, d)))
            }
        },
        4 => {
            if g.chance(1, 3) {
                E::Post(g.bool(), b(gen(g, names, d)))
            } else {
                E::Pre(g.usize(PRE.len()), b(gen(g, names, d)))
            }
        },
        5 => E::Field(b(gen(g, names, d)), acc(g), g.pick(FIELDS).to_string()),
        6 => {
            let base = if g.chance(1, 8) { E::BareDot } else { gen(g, names, d) };
            E::Index(b(base), g.chance(1, 4), b(gen(g, names, d)))
        },
        7 => E::MCall(b(gen(g, names, d)), acc(g), g.pick(FUNCS).to_string(), gen_args(g, names, d, true)),
        8 => E::Call(g.pick(FUNCS).to_string(), gen_args(g, names, d, true)),
        9 => {
            let args = if g.chance(1, 4) { None } else { Some(gen_args(g, names, d, true)) };
            let k = match g.usize(3) {
                0 => NewKind::Implicit,
                1 => {
                    let (mut t, mut s) = path(g);
                    if g.chance(1, 5) {
                        t = format!(".{}", &t[1..]);
                        s = t.clone();
                    }
                    let vs = if g.chance(1, 4) && !t.starts_with('.') { gen_vars(g, names, d) } else { vec![] };
                    NewKind::Path(t, s, vs)
                },
                _ => NewKind::Mini("thing".into(), (0..g.usize(3)).map(|_| (acc(g), g.pick(FIELDS).to_string())).collect()),
            };
            E::New(k, args)
        },
        10 => E::List(g.chance(1, 5), gen_args(g, names, d, true)),
        11 => E::Input(gen_args(g, names, d, false), if g.bool() { input_types(g) } else { vec![] }, if g.bool() { Some(b(gen(g, names, d))) } else { None }),
        12 => {
            let l = if g.bool() { Some(b(gen(g, names, d))) } else { None };
            let mut a = gen_args(g, names, d, false);
            if l.is_some() {
                a.truncate(1);
            }
            E::Locate(a, l)
        },
        13 => E::Pick((0..1 + g.usize(3)).map(|_| (if g.bool() { Some(gen(g, names, d)) } else { None }, gen(g, names, d))).collect()),
        14 => {
            if g.bool() {
                E::Call2(gen_args(g, names, d, false), gen_args(g, names, d, true))
            } else {
                E::CallExt(if g.bool() { Some(b(gen(g, names, d))) } else { None }, b(gen(g, names, d)), gen_args(g, names, d, false))
            }
        },
        15 => {
            if g.bool() {
                E::SelfCall(gen_args(g, names, d, true))
            } else {
                E::ParentCall(gen_args(g, names, d, true))
            }
        },
        16 => {
            let (mut t, mut s) = path(g);
            if g.chance(1, 8) {
                t = format!(".{}", &t[1..]);
                s = t.clone();
            }
            let vs = if g.chance(1, 4) && !t.starts_with('.') { gen_vars(g, names, d) } else { vec![] };
            let p = E::Prefab(t, s, vs);
            match g.weighted(&[4, 1, 1]) {
                0 => p,
                1 => E::Static(b(p), g.pick(FIELDS).to_string()),
                _ => E::ProcRef(b(p), g.pick(FUNCS).to_string()),
            }
        },
        17 => E::Interp(strtext(g), (0..1 + g.usize(3)).map(|_| (if g.chance(1, 8) { None } else { Some(gen(g, names, d)) }, strtext(g))).collect()),
        _ => match g.usize(4) {
            0 => E::GlobalIdent(g.pick(FIELDS).to_string()),
            1 => E::GlobalCall(g.pick(FUNCS).to_string(), gen_args(g, names, d, true)),
            2 => E::Static(b(gen(g, names, d)), g.pick(FIELDS).to_string()),
            _ => E::ProcRef(b(gen(g, names, d)), g.pick(FUNCS).to_string()),
        },
    }
}

/// Where each of the generated names stands in the text: (name, line, column).
pub fn positions(text: &str) -> std::collections::HashMap<String, (u32, u16)> {
    let mut m = std::collections::HashMap::new();
    for (li, line) in text.split('\n').enumerate() {
        let b = line.as_bytes();
        let mut i = 0;
        while i + 5 <= b.len() {
            if b[i] == b'x' && b[i + 1..i + 5].iter().all(|c| c.is_ascii_digit()) && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                m.insert(line[i..i + 5].to_string(), (li as u32 + 1, i as u16 + 1));
                i += 5;
            } else {
                i += 1;
            }
        }
    }
    m
}
