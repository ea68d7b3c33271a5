//! C02 (lexing recovers what was written) and C03 (printed values read back).
use dm::docs::{CommentKind, DocComment, DocTarget};
use dm::lexer::*;
use dm::{Context, FileId, Location};
use engine::*;

/// Reference list of the punctuation of the language (without whitespace, comments, quotes).
pub const PUNCTS: &[&str] = &[
    "!", "!=", "#", "##", "%", "%%", "%%=", "%=", "&", "&&", "&&=", "&=", "(", ")", "*", "**", "*=", "+", "++", "+=", ",", "-", "--", "-=", ".", "..",
    "...", "/", "/=", ":", "::", ":=", ";", "<", "<<", "<<=", "<=", "<=>", "<>", "=", "==", ">", ">=", ">>", ">>=", "?", "?.", "?:", "?[", "[", "]", "^",
    "^=", "{", "|", "|=", "||", "||=", "}", "~", "~!", "~=",
];

/// What a token should look like, independent of the lexer's own types.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Punct(String),
    /// ':' with the "no whitespace after, something closable before" reading known or not.
    Colon(Option<bool>),
    Ident(String, bool),
    Str(String),
    Begin(String),
    Part(String),
    End(String),
    Res(String),
    Int(i32),
    Float(f32),
    Nan,
    Doc(DocComment),
}

fn matches(e: &E, t: &Token) -> bool {
    match (e, t) {
        (E::Punct(a), Token::Punct(p)) => a == &p.to_string() && !matches!(p, Punctuation::CloseColon),
        (E::Colon(want), Token::Punct(p)) => match p {
            Punctuation::Colon => *want != Some(true),
            Punctuation::CloseColon => *want != Some(false),
            _ => false,
        },
        (E::Ident(a, w), Token::Ident(b, v)) => a == b.as_str() && w == v,
        (E::Str(a), Token::String(b)) => a == b,
        (E::Begin(a), Token::InterpStringBegin(b)) => a == b,
        (E::Part(a), Token::InterpStringPart(b)) => a == b,
        (E::End(a), Token::InterpStringEnd(b)) => a == b,
        (E::Res(a), Token::Resource(b)) => a == b,
        (E::Int(a), Token::Int(b)) => a == b,
        (E::Float(a), Token::Float(b)) => a.to_bits() == b.to_bits(),
        (E::Nan, Token::Float(b)) => b.is_nan(),
        (E::Doc(a), Token::DocComment(b)) => a == b,
        _ => false,
    }
}

struct B {
    out: Vec<u8>,
    exp: Vec<(E, u32, u32)>,
    line: u32,
    col: u32, // column of the next byte
    head: bool, // only whitespace so far on this line (emits whitespace tokens)
    closable: Option<bool>, // whether ':' here could close (None: unspecified)
    hash: bool, // a '#' was seen on this line
}

impl B {
    fn new(line: u32, col: u32) -> B {
        B { out: vec![], exp: vec![], line, col, head: true, closable: None, hash: false }
    }
    fn raw(&mut self, bytes: &[u8]) {
        self.out.extend(bytes);
        // (whatever is not UTF-8 counts by bytes)
        for part in bytes.utf8_chunks() {
            for c in part.valid().chars() {
                if c == '\n' {
                    self.line += 1;
                    self.col = 1;
                } else {
                    self.col += c.len_utf16() as u32;
                }
            }
            self.col += part.invalid().len() as u32;
        }
    }
    fn tok(&mut self, e: E, bytes: &[u8]) {
        self.exp.push((e, self.line, self.col));
        self.raw(bytes);
        self.head = false;
        self.closable = None;
    }
}

fn utf8_or_latin1(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_owned(),
        Err(_) => b.iter().map(|&b| b as char).collect(),
    }
}

const NAMES: &[&str] = &["a", "B", "_x", "foo", "src", "usr", "var", "proc", "x1", "inn", "i", "as", "INF", "e5", "x", "define", "if", "__LINE__"];

fn ident(g: &G) -> String {
    if g.chance(2, 3) {
        g.pick(NAMES).to_string()
    } else {
        let n = 1 + g.usize(8);
        let mut s = String::new();
        for i in 0..n {
            let set: &[u8] = if i == 0 { b"abzAZ_qmn" } else { b"abzAZ_09q5nr" };
            s.push(*g.pick(set) as char);
        }
        if s == "in" || s == "warn" || s == "error" { "inx".into() } else { s }
    }
}

/// A number literal: its spelling and value.
fn number(g: &G) -> (String, E) {
    fn unders(g: &G, digits: &str) -> String {
        if !g.chance(1, 4) {
            return digits.to_owned();
        }
        let mut o = String::new();
        for (i, c) in digits.chars().enumerate() {
            if i > 0 && g.chance(1, 3) {
                o.push('_');
            }
            o.push(c);
        }
        if g.chance(1, 5) {
            o.push('_');
        }
        o
    }
    match g.usize(8) {
        0 => {
            let v = match g.usize(4) {
                0 => g.range(0, 9),
                1 => g.range(1, 1000),
                2 => g.range(1, i32::MAX as i64),
                _ => *g.pick(&[i32::MAX as i64, 16777216, 16777217, 255, 65535, 65536, 100000000]),
            };
            let s = v.to_string();
            (unders(g, &s), E::Int(v as i32))
        },
        1 => {
            let v = g.below(1 << *g.pick(&[3u32, 8, 16, 31]));
            let s = format!("{:o}", v);
            let s = unders(g, &s);
            (format!("0{}", s), E::Int(v as i32))
        },
        2 => {
            let v = g.below(1 << *g.pick(&[4u32, 8, 24, 31]));
            let s = if g.bool() { format!("{:x}", v) } else { format!("{:X}", v) };
            let s = unders(g, &s);
            (format!("0x{}", s), E::Int(v as i32))
        },
        3 => {
            let (a, b) = (g.below(100000), g.below(1000000));
            let d = 1 + g.usize(6);
            let frac = format!("{:06}", b)[..d].to_owned();
            let plain = format!("{}.{}", a, frac);
            let v: f32 = plain.parse().unwrap();
            let (x, y) = (unders(g, &a.to_string()), unders(g, &frac));
            (format!("{}.{}", x, y), E::Float(v))
        },
        4 => {
            let b = g.below(1000000);
            let s = format!("{}.", b);
            let s = if b < 8 { format!("0{}", s) } else { s };
            (s.clone(), E::Float(b as f32))
        },
        5 => {
            let m = if g.bool() { format!("{}", g.range(1, 999)) } else { format!("{}.{}", g.range(0, 99), g.range(0, 999)) };
            let e = g.range(0, 30);
            let sign = *g.pick(&["", "+", "-"]);
            let s = format!("{}{}{}{}", m, if g.bool() { "e" } else { "E" }, sign, e);
            (s.clone(), E::Float(s.parse().unwrap()))
        },
        6 => {
            // decimal integers beyond 31 bits become floating point
            let v = (1u64 << 31) + g.below(1 << 40);
            (v.to_string(), E::Float(v.to_string().parse().unwrap()))
        },
        _ => {
            if g.bool() {
                ("1.#INF".into(), E::Float(f32::INFINITY))
            } else {
                ("1.#IND".into(), E::Nan)
            }
        },
    }
}

/// Text for the inside of a string: (source bytes, stored bytes). `multi`: newlines allowed.
fn string_body(g: &G, multi: bool, quote_ok: bool) -> (Vec<u8>, Vec<u8>) {
    let n = g.len(0, 10);
    let (mut src, mut val) = (vec![], vec![]);
    let mut ascii = true;
    let latin = g.chance(1, 12);
    for _ in 0..n {
        match g.weighted(&[10, 3, 2, 2, 1, 1, 1]) {
            0 => {
                let b = g.pick(&[&b"a"[..], b"hello", b" ", b"x y", b"}", b"{", b"]", b"'", b"//", b"/*", b"#", b"@", b"0", b"%", b"\t"]).to_vec();
                src.extend(&b);
                val.extend(&b);
            },
            1 => {
                let b = g.pick(&[&b"\\\""[..], b"\\\\", b"\\n", b"\\[", b"\\]", b"\\the", b"\\t", b"\\'", b"\\}", b"\\improper"]).to_vec();
                src.extend(&b);
                val.extend(&b);
            },
            2 => {
                if multi {
                    src.push(b'\n');
                    val.push(b'\n');
                    // keep a following continuation or quote from touching the newline
                }
            },
            3 => {
                if quote_ok {
                    // a quote that is not the terminator: something harmless follows
                    let b = g.pick(&[&b"\"a"[..], b"\"\"x", b"\" }", b"\"\\n"]).to_vec();
                    src.extend(&b);
                    val.extend(&b);
                }
            },
            4 => {
                // line continuation: removed, with the whitespace that follows it
                let nl: &[u8] = if g.chance(1, 4) { b"\\\r\n" } else { b"\\\n" };
                src.extend(nl);
                for _ in 0..g.usize(4) {
                    src.push(*g.pick(b" \t"));
                }
                src.push(b'z');
                val.push(b'z');
            },
            5 => {
                ascii = false;
                let s = g.pick(&["é", "日本", "ß", "😀", "\u{80}"]).as_bytes().to_vec();
                src.extend(&s);
                val.extend(&s);
            },
            _ => {
                if latin {
                    let b = *g.pick(&[0xe9u8, 0xff, 0x80, 0xc3]);
                    src.push(b);
                    val.push(b);
                    src.push(b'.');
                    val.push(b'.');
                    ascii = false;
                }
            },
        }
    }
    let _ = ascii;
    (src, val)
}

fn emit_string(g: &G, b: &mut B, depth: usize) {
    // a block string's part may end in quotes
    let quotes = |src: &mut Vec<u8>, val: &mut Vec<u8>| {
        if g.chance(1, 6) {
            let q = &b"\"\"\""[..1 + g.usize(3)];
            src.extend(q);
            val.extend(q);
        }
    };
    let kind = g.weighted(&[6, 3, 1, 1, 1, 1]);
    match kind {
        0 | 1 => {
            let (open, close): (&[u8], &[u8]) = if kind == 0 { (b"\"", b"\"") } else { (b"{\"", b"\"}") };
            let multi = kind == 1;
            let (mut src, mut val) = string_body(g, multi, kind == 1);
            if kind == 1 {
                quotes(&mut src, &mut val);
            }
            if depth < 3 && g.chance(1, 3) {
                let mut s = open.to_vec();
                s.extend(&src);
                s.push(b'[');
                b.tok(E::Begin(utf8_or_latin1(&val)), &s);
                let segs = 1 + g.usize(3);
                for i in 0..segs {
                    let n = g.usize(4);
                    for _ in 0..n {
                        let w = g.usize(3);
                        ws(g, b, w);
                        token(g, b, depth + 1, true);
                    }
                    let w = g.usize(2);
                    ws(g, b, w);
                    let (mut src, mut val) = string_body(g, multi, kind == 1);
                    if kind == 1 {
                        quotes(&mut src, &mut val);
                    }
                    let mut s = b"]".to_vec();
                    s.extend(&src);
                    if i + 1 == segs {
                        s.extend(close);
                        b.tok(E::End(utf8_or_latin1(&val)), &s);
                    } else {
                        s.push(b'[');
                        b.tok(E::Part(utf8_or_latin1(&val)), &s);
                    }
                }
            } else {
                let mut s = open.to_vec();
                s.extend(&src);
                s.extend(close);
                b.tok(E::Str(utf8_or_latin1(&val)), &s);
            }
        },
        _ => {
            let (open, close): (Vec<u8>, Vec<u8>) = match kind {
                2 => (b"@\"".to_vec(), b"\"".to_vec()),
                3 => (b"@{\"".to_vec(), b"\"}".to_vec()),
                4 => {
                    let t = g.pick(&[&b"end"[..], b"!", b"*/", b"\"}x", b"ab"]).to_vec();
                    ([b"@(", &t[..], b")"].concat(), t)
                },
                _ => {
                    let c = *g.pick(b"!#|z'/@^~");
                    (vec![b'@', c], vec![c])
                },
            };
            let mut body = vec![];
            for _ in 0..g.usize(8) {
                body.extend(g.pick(&[&b"q"[..], b" ", b"\\", b"[", b"]", b"\\n", b"'", b"//", b"\"", b"w", "é".as_bytes(), b"en", b"*"]).to_vec());
            }
            if matches!(kind, 3 | 4) && g.chance(1, 4) {
                body.push(b'\n');
                body.push(b'k');
            }
            // remove accidental terminators (also those made with the terminator's own start)
            loop {
                let whole = [&body[..], &close[..]].concat();
                let at = whole.windows(close.len()).position(|w| w == &close[..]).unwrap();
                if at == body.len() {
                    break;
                }
                body.truncate(at);
                body.push(b'k');
                if close.contains(&b'k') {
                    body.pop();
                }
            }
            b.tok(E::Str(utf8_or_latin1(&body)), &[open, body, close].concat());
        },
    }
}

/// Whitespace between tokens. amount 0: none.
fn ws(g: &G, b: &mut B, amount: usize) {
    for _ in 0..amount {
        match g.weighted(&[8, 2, 2, 2, 1]) {
            0 | 1 => {
                let c: &[u8] = if g.chance(1, 4) { b"\t" } else { b" " };
                if b.head {
                    b.exp.push((E::Punct(if c == b"\t" { "\t".into() } else { " ".into() }), b.line, b.col));
                } else {
                    b.closable = Some(false);
                }
                b.raw(c);
            },
            2 => {
                // block comment, possibly nested, never documentation
                if b.out.last() == Some(&b'/') {
                    continue;
                }
                let mut c = b"/* ".to_vec();
                for _ in 0..g.usize(4) {
                    c.extend(g.pick(&[&b"x "[..], b"\" ", b"' ", b"/* in */ ", b"// ", b"\n ", b"* ", b"/ ", b"[ "]).to_vec());
                }
                c.extend(b"*/");
                b.raw(&c);
                // A line break inside a comment does not start a logical line, but the text after
                // it counts as being at the head of its line only if nothing but blanks precedes.
                b.head = false;
                b.closable = None;
                if c.contains(&b'\n') {
                    b.hash = false;
                }
            },
            3 => {
                // line continuation
                let nl: &[u8] = if g.chance(1, 4) { b"\\\r\n" } else { b"\\\n" };
                b.raw(nl);
                for _ in 0..g.usize(3) {
                    let c = *g.pick(b" \t");
                    b.raw(&[c]);
                }
                b.head = true; // resolved below: continuation swallows blanks, next must be a token
                b.head = false;
                b.closable = None;
                b.hash = false;
            },
            _ => {
                if b.head {
                    continue; // a stray CR before indentation has no defined meaning
                }
                b.raw(b"\r");
                if b.closable != Some(false) {
                    b.closable = None;
                }
            },
        }
    }
}

fn needs_gap(prev: Option<&E>, next_first: u8, prev_last: Option<u8>) -> bool {
    // Conservative: adjacency is only used where no longer token can form.
    let Some(p) = prev else { return false };
    let wordish = next_first.is_ascii_alphanumeric() || next_first == b'_' || next_first >= 0x80;
    match p {
        E::Ident(..) => wordish,
        E::Int(_) | E::Float(_) | E::Nan => wordish || matches!(next_first, b'.' | b'#'),
        E::Punct(s) => {
            if s == "in" {
                return wordish;
            }
            // opening brackets and separators never combine with what follows, other than `{"`
            if matches!(s.as_str(), "(" | ")" | "," | ";" | "[" | "]" | "}") {
                return false;
            }
            if matches!(s.as_str(), "\t" | "\n" | " ") {
                return false;
            }
            if wordish {
                // `.5` would be a number? No: '.' followed by digits lexes as punctuation then number; keep apart.
                return s.ends_with('.') && next_first.is_ascii_digit() || (s == "#" || s == "##");
            }
            let _ = prev_last;
            true
        },
        E::Colon(_) => !wordish,
        E::Str(_) | E::End(_) | E::Res(_) => false,
        E::Begin(_) | E::Part(_) => false,
        E::Doc(_) => true,
    }
}

fn token(g: &G, b: &mut B, depth: usize, nested: bool) {
    let kind = g.weighted(&[8, 8, 4, 3, 1, 1]);
    let gap = |b: &mut B, first: u8| {
        if needs_gap(b.exp.last().map(|x| &x.0), first, b.out.last().copied()) && !matches!(b.out.last(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            if b.head {
                b.exp.push((E::Punct(" ".into()), b.line, b.col));
            } else {
                b.closable = Some(false);
            }
            b.raw(b" ");
        }
    };
    match kind {
        0 => {
            if g.chance(1, 15) {
                gap(b, b'i');
                b.tok(E::Punct("in".into()), b"in");
            } else {
                let s = ident(g);
                gap(b, s.as_bytes()[0]);
                b.tok(E::Ident(s.clone(), false), s.as_bytes());
                b.closable = Some(true);
            }
        },
        1 => {
            let p = loop {
                let p = *g.pick(PUNCTS);
                if nested && matches!(p, "[" | "]" | "?[" | "{" | "}") {
                    // brackets inside interpolation must balance: emit a balanced group
                    let open = *g.pick(&["[", "[", "?["]);
                    gap(b, open.as_bytes()[0]);
                    b.tok(E::Punct(open.into()), open.as_bytes());
                    if depth < 4 {
                        token(g, b, depth + 1, true);
                    }
                    gap(b, b']');
                    b.tok(E::Punct("]".into()), b"]");
                    b.closable = Some(true);
                    return;
                }
                break p;
            };
            gap(b, p.as_bytes()[0]);
            if p == ":" {
                let c = b.closable;
                b.tok(E::Colon(c), b":");
                return;
            }
            if p == "#" {
                if b.hash || nested {
                    // fine, plain punctuation
                }
                b.hash = true;
            }
            b.tok(E::Punct(p.into()), p.as_bytes());
            if p == ")" || p == "]" {
                b.closable = Some(true);
            }
        },
        2 => {
            let (s, e) = number(g);
            gap(b, s.as_bytes()[0]);
            b.tok(e, s.as_bytes());
        },
        3 => {
            gap(b, b'"');
            if matches!(b.out.last(), Some(b'{' | b'@')) {
                b.raw(b" ");
            }
            emit_string(g, b, depth)
        },
        4 => {
            gap(b, b'\'');
            let mut src = b"'".to_vec();
            let mut val = vec![];
            for _ in 0..g.usize(6) {
                let (s, v) = *g.pick(&[("a", "a"), ("icons/x.dmi", "icons/x.dmi"), (" ", " "), ("\\'", "'"), ("\\\\", "\\"), ("é", "é"), ("\"", "\"")]);
                src.extend(s.as_bytes());
                val.extend(v.as_bytes());
            }
            src.push(b'\'');
            b.tok(E::Res(utf8_or_latin1(&val)), &src);
        },
        _ => {
            if nested {
                let s = ident(g);
                gap(b, s.as_bytes()[0]);
                b.tok(E::Ident(s.clone(), false), s.as_bytes());
                b.closable = Some(true);
                return;
            }
            gap(b, b'/');
            if matches!(b.out.last(), Some(b'/' | b'*')) {
                b.raw(b" ");
            }
            let target = if g.bool() { DocTarget::FollowingItem } else { DocTarget::EnclosingItem };
            let mut text = String::new();
            for _ in 0..1 + g.usize(4) {
                text.push_str(g.pick(&["word", " ", "\"", "é", "[x]", "'", "q."]));
            }
            let block = g.bool();
            let mut d = DocComment::new(if block { CommentKind::Block } else { CommentKind::Line }, target);
            d.text = text.clone();
            if block {
                let open = if target == DocTarget::FollowingItem { "/**" } else { "/*!" };
                // inside a block documentation comment the opening '*' belongs to the comment's text
                d.text = if target == DocTarget::FollowingItem { format!("*{}", text) } else { text.clone() };
                let line = b.line;
                b.tok(E::Doc(d), format!("{}{}*/", open, text).as_bytes());
                let _ = line;
            } else {
                let open = if target == DocTarget::FollowingItem { "///" } else { "//!" };
                b.tok(E::Doc(d), format!("{}{}", open, text).as_bytes());
                newline(b);
            }
        },
    }
}

fn newline(b: &mut B) {
    b.exp.push((E::Punct("\n".into()), b.line, b.col));
    b.raw(b"\n");
    b.head = true;
    b.hash = false;
    b.closable = None;
}

/// Sets identifier "followed by blank" flags and colon readings by looking at the bytes written.
fn resolve(b: &mut B, start: (u32, u32)) {
    // map (line, col) -> offset
    let mut pos = std::collections::HashMap::new();
    let (mut l, mut c) = start;
    let mut i = 0;
    for part in b.out.utf8_chunks() {
        for ch in part.valid().chars() {
            pos.insert((l, c), i);
            i += ch.len_utf8();
            if ch == '\n' {
                l += 1;
                c = 1;
            } else {
                c += ch.len_utf16() as u32;
            }
        }
        for _ in part.invalid() {
            pos.insert((l, c), i);
            i += 1;
            c += 1;
        }
    }
    for (e, l, c) in b.exp.iter_mut() {
        match e {
            E::Ident(s, ws) => {
                let o = pos[&(*l, *c)] + s.len();
                *ws = matches!(b.out.get(o), Some(b' ' | b'\t'));
            },
            E::Colon(close) => {
                let o = pos[&(*l, *c)] + 1;
                match b.out.get(o) {
                    Some(b' ' | b'\t' | b'\r' | b'\n') => *close = Some(false),
                    _ => {
                        let prev = if o >= 2 { b.out[o - 2] } else { b'\n' };
                        if *close == Some(true) && !(prev.is_ascii_alphanumeric() || matches!(prev, b'_' | b')' | b']')) {
                            *close = None;
                        }
                    },
                }
            },
            _ => {},
        }
    }
}

pub fn lex_all(ctx: &Context, loc: Option<Location>, src: &[u8]) -> Vec<LocatedToken> {
    match loc {
        None => Lexer::new(ctx, FileId::default(), src.to_vec()).collect(),
        Some(l) => Lexer::from_input(ctx, LocationTracker::from_location(l, src.to_vec().into())).collect(),
    }
}

fn compare(src: &[u8], exp: &[(E, u32, u32)], got: &[LocatedToken]) -> R {
    for i in 0..exp.len().max(got.len()) {
        match (exp.get(i), got.get(i)) {
            (Some((e, l, c)), Some(t)) => {
                ensure!(matches(e, &t.token), "token", "token {} should be {:?} but is {:?}", i, e, t.token);
                ensure!(
                    (t.location.line, t.location.column as u32) == (*l, *c),
                    "location",
                    "token {} {:?} should be at {}:{} but is at {}:{}",
                    i,
                    e,
                    l,
                    c,
                    t.location.line,
                    t.location.column
                );
            },
            (Some(e), None) => return fail("missing", format!("token {} {:?} is missing", i, e)),
            (None, Some(t)) => return fail("extra", format!("extra token {:?}", t)),
            _ => {},
        }
    }
    let _ = src;
    Ok(())
}

fn tokens(g: &G) -> R {
    let start = if g.chance(1, 4) { (g.range(1, 5000) as u32, g.range(1, 300) as u32) } else { (1, 1) };
    let bom = start == (1, 1) && g.chance(1, 10);
    let mut b = B::new(start.0, start.1);
    let n = g.len(1, 40);
    for _ in 0..n {
        match g.weighted(&[20, 3, 1, 1]) {
            0 => {
                let w = g.weighted(&[4, 4, 2, 1]);
                ws(g, &mut b, w);
                token(g, &mut b, 0, false);
            },
            1 => {
                // end of line, possibly with a line comment
                if g.chance(1, 4) {
                    ws(g, &mut b, 1);
                }
                if g.chance(1, 4) {
                    if matches!(b.out.last(), Some(b'/' | b'*')) {
                        b.raw(b" ");
                        if b.head {
                            unreachable!()
                        }
                    }
                    let mut c = b"//".to_vec();
                    let first = g.pick(&[&b" "[..], b"x", b"-"]).to_vec();
                    c.extend(first);
                    for _ in 0..g.usize(4) {
                        c.extend(g.pick(&[&b"text"[..], b" ", b"\"", b"'", b"/*", b"*/", b"[", b"\\\\", b"\\n", b"\\\n more", "é".as_bytes()]).to_vec());
                    }
                    b.raw(&c);
                    b.head = false;
                }
                if g.chance(1, 6) {
                    b.raw(b"\r");
                }
                newline(&mut b);
            },
            2 => {
                // a message directive: the rest of the line is one string
                newline(&mut b);
                b.tok(E::Punct("#".into()), b"#");
                if g.bool() {
                    b.raw(b" ");
                }
                let w = if g.bool() { "warn" } else { "error" };
                b.tok(E::Ident(w.into(), true), w.as_bytes());
                b.raw(b" ");
                let text = *g.pick(&["message", "it's 5\" // not comment", "a /* b", "x"]);
                b.exp.push((E::Str(text.into()), b.line, b.col));
                b.raw(text.as_bytes());
                b.raw(b"\n");
                b.head = true;
                b.hash = false;
                b.closable = None;
            },
            _ => {
                newline(&mut b);
            },
        }
    }
    // the input always ends with a line break
    b.exp.push((E::Punct("\n".into()), b.line, b.col));
    if g.bool() && !b.out.is_empty() {
        b.raw(b"\n");
        // explicit final newline, then the lexer adds one more
        b.exp.push((E::Punct("\n".into()), b.line, b.col));
    }
    resolve(&mut b, start);
    let mut src = b.out.clone();
    if bom {
        src = [b"\xEF\xBB\xBF", &src[..]].concat();
    }
    g.note(&format!("start {:?} bom {}\n{}", start, bom, String::from_utf8_lossy(&src).replace('\r', "<CR>")));
    let ctx = Context::default();
    let loc = if start == (1, 1) { None } else { Some(Location { file: FileId::default(), line: start.0, column: start.1 as u16 }) };
    let got = lex_all(&ctx, loc, &src);
    g.nontrivial(b.exp.len() >= 6);
    for (e, ..) in &b.exp {
        g.label(match e {
            E::Punct(_) => "punct",
            E::Colon(Some(true)) => "close colon",
            E::Colon(_) => "colon",
            E::Ident(..) => "ident",
            E::Str(_) => "string",
            E::Begin(_) | E::Part(_) | E::End(_) => "interpolated",
            E::Res(_) => "resource",
            E::Int(_) | E::Float(_) | E::Nan => "number",
            E::Doc(_) => "doc",
        });
    }
    // The last location: nothing follows the final newline token.
    compare(&src, &b.exp, &got)?;
    let errs: Vec<String> = ctx.errors().iter().filter(|e| !e.description().starts_with("precision loss") && !e.description().starts_with("backslash in line comment")).map(|e| e.description().to_owned()).collect();
    ensure!(errs.is_empty(), "diagnostics", "well-formed source gives diagnostics {:?}", errs);
    Ok(())
}

/// Runs of punctuation split by longest match.
fn puncts(g: &G) -> R {
    let n = g.len(1, 14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.pick(PUNCTS));
    }
    // comments and block strings are not plain punctuation
    while s.contains("//") || s.contains("/*") {
        s = s.replace("//", "/").replace("/*", "/");
    }
    let tail = if g.bool() { "a" } else { "" };
    let src = format!("{}{}", s, tail);
    g.note(&src);
    let mut exp = vec![];
    let mut i = 0;
    let by = s.as_str();
    while i < by.len() {
        let p = PUNCTS.iter().filter(|p| by[i..].starts_with(**p)).max_by_key(|p| p.len()).unwrap();
        if *p == ":" {
            exp.push((E::Colon(None), 1, i as u32 + 1));
        } else {
            exp.push((E::Punct(p.to_string()), 1, i as u32 + 1));
        }
        i += p.len();
    }
    if !tail.is_empty() {
        exp.push((E::Ident("a".into(), false), 1, i as u32 + 1));
    }
    exp.push((E::Punct("\n".into()), 1, src.len() as u32 + 1));
    g.nontrivial(exp.len() >= 3);
    let ctx = Context::default();
    let got = lex_all(&ctx, None, src.as_bytes());
    compare(src.as_bytes(), &exp, &got)
}

fn numbers(g: &G) -> R {
    let (s, e) = number(g);
    let tail = *g.pick(&["", " ", ")", ",", "\n", " 5.5"]);
    g.note(&format!("{}{:?}", s, tail));
    g.nontrivial(true);
    let ctx = Context::default();
    let got = lex_all(&ctx, None, format!("{}{}", s, tail).as_bytes());
    ensure!(!got.is_empty() && matches(&e, &got[0].token), "number", "{:?} should be {:?} but is {:?}", s, e, got.first().map(|t| &t.token));
    if !tail.trim().is_empty() || tail == "\n" {
        let second = &got[1].token;
        let ok = match tail {
            ")" | "," | "\n" => second.to_string() == tail,
            _ => matches!(second, Token::Float(f) if *f == 5.5),
        };
        ensure!(ok, "number tail", "{:?}{:?}: next token is {:?}", s, tail, second);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

/// Reference formatting: C's %g with a three-digit exponent, from correctly rounded digits.
pub fn ref_format(n: f32) -> String {
    if n == 0.0 {
        return "0".into();
    }
    let s = format!("{:.5e}", n);
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let trim = |m: &str| if m.contains('.') { m.trim_end_matches('0').trim_end_matches('.').to_owned() } else { m.to_owned() };
    if e >= 6 || e <= -5 {
        format!("{}e{}{:03}", trim(m), if e < 0 { '-' } else { '+' }, e.abs())
    } else {
        let digits = (5 - e).max(0) as usize;
        let r = s.parse::<f64>().unwrap();
        trim(&format!("{:.*}", digits, r))
    }
}

fn some_float(g: &G) -> f32 {
    let f = match g.usize(7) {
        0 => g.range(-2000, 2000) as f32,
        1 => g.range(-100000, 100000) as f32 / *g.pick(&[10f32, 100., 1000., 8., 3., 7.]),
        2 => f32::from_bits(g.below(1 << 32) as u32),
        3 => {
            // around powers of ten
            let e = g.range(-12, 12);
            let base = format!("1e{}", e).parse::<f32>().unwrap();
            f32::from_bits((base.to_bits() as i64 + g.range(-40, 40)) as u32)
        },
        4 => {
            // six or seven digit decimals
            let d = g.range(1, 9999999);
            let e = g.range(-12, 6);
            format!("{}e{}", d, e).parse().unwrap()
        },
        5 => {
            let d = g.range(999990, 1000009);
            let e = g.range(-44, 32);
            let k = g.range(0, 9);
            format!("{}.{}e{}", d, k, e).parse().unwrap()
        },
        _ => f32::from_bits(g.below(1 << 23) as u32), // denormal
    };
    if g.chance(1, 4) { -f } else { f }
}

fn floats(g: &G) -> R {
    let n = some_float(g);
    if !n.is_finite() {
        return g.discard();
    }
    g.note(&format!("{:e} ({:#x})", n, n.to_bits()));
    g.nontrivial(n != 0.0);
    let got = FormatFloat(n).to_string();
    let want = ref_format(n);
    g.label(if got.contains('e') { "exponent form" } else { "plain form" });
    ensure!(got == want, "format", "{:e} prints as {:?}, should be {:?}", n, got, want);
    // read back
    let ctx = Context::default();
    let toks = lex_all(&ctx, None, got.as_bytes());
    let (neg, t) = match toks.first().map(|t| &t.token) {
        Some(Token::Punct(Punctuation::Sub)) => (true, &toks[1].token),
        Some(t) => (false, t),
        None => return fail("relex", "no token"),
    };
    let v = match t {
        Token::Int(i) => *i as f32,
        Token::Float(f) => *f,
        other => return fail("relex", format!("{:?} reads as {:?}", got, other)),
    };
    let v = if neg { -v } else { v };
    let rounded: f32 = format!("{:.5e}", n).parse().unwrap();
    ensure!(v == rounded, "read back", "{:e} prints as {:?} and reads back as {:e}, want {:e}", n, got, v, rounded);
    Ok(())
}

fn string_tokens(g: &G) -> R {
    // Contents as an ordinary or block string literal could have stored them.
    let mut s = String::new();
    for _ in 0..g.len(0, 14) {
        s.push_str(g.pick(&["a", "word", " ", "\\\"", "\"", "\n", "}", "{", "@", "\\n", "\\[", "\\]", "]", "'", "\\\\", "\"}", "\\\"}", "é", "//", "/*", "#", "(", ")", "@(", "\t"]));
    }
    g.note(&format!("{:?}", s));
    g.nontrivial(s.contains('"') || s.contains('\n') || s.contains('\\'));
    let text = Quote(&s).to_string();
    ensure!(text == Token::String(s.clone()).to_string(), "display", "Token display differs from Quote for {:?}", s);
    let ctx = Context::default();
    let toks = lex_all(&ctx, None, text.as_bytes());
    ensure!(toks.len() == 2 && toks[0].token == Token::String(s.clone()), "quote", "{:?} is printed as {} which reads as {:?}", s, text, toks.iter().map(|t| &t.token).collect::<Vec<_>>());
    ensure!(ctx.errors().is_empty(), "quote diagnostics", "{} gives {:?}", text, ctx.errors().iter().map(|e| e.description().to_owned()).collect::<Vec<_>>());
    Ok(())
}

fn other_tokens(g: &G) -> R {
    let t = match g.usize(6) {
        0 => {
            let p = *g.pick(PUNCTS);
            let ctx = Context::default();
            lex_all(&ctx, None, p.as_bytes())[0].token.clone()
        },
        1 => Token::Ident(ident(g).into(), false),
        2 => Token::Int(g.range(0, 999_999) as i32),
        3 => {
            let mut s = String::new();
            for _ in 0..g.usize(6) {
                s.push_str(g.pick(&["a", "icons/x.dmi", " ", "'", "\\", "é", "\"", "it's"]));
            }
            Token::Resource(s)
        },
        4 => {
            let block = g.bool();
            let target = if g.bool() { DocTarget::FollowingItem } else { DocTarget::EnclosingItem };
            let mut d = DocComment::new(if block { CommentKind::Block } else { CommentKind::Line }, target);
            for _ in 0..1 + g.usize(4) {
                d.text.push_str(g.pick(&["word", " ", "\"", "é", "[x]", "'", "q."]));
            }
            let ctx = Context::default();
            let toks = lex_all(&ctx, None, d.to_string().as_bytes());
            g.note(&format!("{:?}", d));
            g.nontrivial(true);
            // the text of a /** comment is stored with the star that is part of its marker
            let ok = match toks.first().map(|t| &t.token) {
                Some(Token::DocComment(e)) => e.kind == d.kind && e.target == d.target && e.text.trim_start_matches('*') == d.text,
                _ => false,
            };
            ensure!(ok, "doc", "{:?} reads as {:?}", d.to_string(), toks);
            return Ok(());
        },
        _ => {
            // an interpolated string as a whole
            let parts: Vec<String> = (0..2 + g.usize(3)).map(|_| { let mut s = String::new(); for _ in 0..g.usize(4) { s.push_str(g.pick(&["a", " ", "\\\"", "\\n", "\\[", "é", "}", "'"])); } s }).collect();
            let mut toks = vec![Token::InterpStringBegin(parts[0].clone())];
            for (i, p) in parts.iter().enumerate().skip(1) {
                toks.push(Token::Ident("x".into(), false));
                toks.push(if i + 1 == parts.len() { Token::InterpStringEnd(p.clone()) } else { Token::InterpStringPart(p.clone()) });
            }
            let text: String = toks.iter().map(|t| t.to_string()).collect();
            g.note(&text);
            g.nontrivial(true);
            let ctx = Context::default();
            let mut got: Vec<Token> = lex_all(&ctx, None, text.as_bytes()).into_iter().map(|t| t.token).collect();
            got.pop();
            ensure_eq!(got, toks, "interp", "{} reads back differently", text);
            return Ok(());
        },
    };
    let text = t.to_string();
    g.note(&format!("{:?} {}", t, text));
    g.nontrivial(true);
    let ctx = Context::default();
    let toks = lex_all(&ctx, None, text.as_bytes());
    let same = match (&t, &toks[0].token) {
        (Token::Punct(a), Token::Punct(b)) => a.to_string() == b.to_string(),
        (a, b) => a == b,
    };
    ensure!(toks.len() == 2 && same, "token", "{:?} prints as {} and reads as {:?}", t, text, toks);
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "random token sequences (up to 40 items: identifiers, all punctuation, numbers in every base, plain/block/raw/interpolated strings nested to depth 3, resources, doc comments, message directives) written with random whitespace, nested comments, continuations, CRs, BOM and start positions; expected tokens and columns are computed while writing; non-trivial: at least 6 tokens. Runs of adjacent punctuation against a reference longest match; number literals against their values.",
        assumptions: &["columns count UTF-16 code units (bytes, where a text is not UTF-8)", "where two adjacent tokens could legally merge, the generator separates them", "a ':' right after a non-identifier token may be read either way"],
        subs: vec![
            Sub { name: "tokens", quick: 1_000_000, thorough: 60_000_000, run: tokens },
            Sub { name: "puncts", quick: 800_000, thorough: 30_000_000, run: puncts },
            Sub { name: "numbers", quick: 500_000, thorough: 20_000_000, run: numbers },
        ],
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "random finite floats (integers, decimals, random bit patterns, neighbours of powers of ten, rounding carries, denormals) against correctly rounded six-digit formatting and read-back; random string contents and every other token kind printed and lexed back; non-trivial: non-zero float / string needing escapes or quoting",
        assumptions: &["string contents are as an ordinary string literal stores them: escapes kept, no bare '['"],
        subs: vec![
            Sub { name: "floats", quick: 4_000_000, thorough: 200_000_000, run: floats },
            Sub { name: "strings", quick: 800_000, thorough: 30_000_000, run: string_tokens },
            Sub { name: "tokens", quick: 500_000, thorough: 20_000_000, run: other_tokens },
        ],
    }
}
