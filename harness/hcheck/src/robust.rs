//! C01: whatever the source text, processing it comes to an end with a tree and diagnostics.
use dm::{Context, Location};
use engine::*;

const CORPUS: &str = include_str!("corpus/snippets.dm");

fn snippets() -> Vec<&'static str> {
    CORPUS.split("%%\n").collect()
}

/// Everything reported, in order.
fn reports(ctx: &Context) -> Vec<(Location, String)> {
    ctx.errors().iter().map(|e| (e.location(), format!("{:?} {} {:?}", e.severity(), e.description(), e.notes().iter().map(|n| (n.location(), n.description().to_owned())).collect::<Vec<_>>()))).collect()
}

struct Outcome {
    reports: Vec<(Location, String)>,
    types: Vec<String>,
    fatal: bool,
}

fn process(dir: Option<&std::path::Path>, text: &[u8], annotate: bool) -> Result<Outcome, Fail> {
    let ctx = Context::default();
    let mut pp = match std::str::from_utf8(text) {
        Ok(text) => dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), text),
        Err(_) => {
            let path = dir.expect("scratch").join("test.dm");
            std::fs::write(&path, text).unwrap();
            dm::preprocessor::Preprocessor::new(&ctx, path).unwrap()
        },
    };
    if annotate {
        pp.enable_annotations();
    }
    let mut notes = dm::annotation::AnnotationTree::default();
    let (fatal, tree) = {
        let indents = dm::indents::IndentProcessor::new(&ctx, &mut pp);
        let mut parser = dm::parser::Parser::new(&ctx, indents);
        parser.enable_procs();
        if annotate {
            parser.annotate_to(&mut notes);
        }
        parser.parse_object_tree_2()
    };
    if annotate {
        if let Some(more) = pp.take_annotations() {
            notes.merge(more);
        }
        let _ = notes.iter().count();
    }
    let _ = pp.finalize();
    if !fatal {
        dreamchecker::run(&ctx, &tree);
    }
    let types = tree.iter_types().map(|t| t.path.clone()).collect();
    // what was reported lies in the file
    let lines = text.split(|b| *b == b'\n').count() as u32;
    let mut bad = vec![];
    for e in ctx.errors().iter() {
        for loc in std::iter::once(e.location()).chain(e.notes().iter().map(|n| n.location())) {
            if loc.is_builtins() || loc == Location::default() {
                continue;
            }
            let path = ctx.file_path(loc.file);
            if loc.line == 0 || loc.line > lines + 1 || path.file_name() != Some("test.dm".as_ref()) {
                bad.push((loc, e.description().to_owned()));
            }
        }
        ensure!(!e.description().is_empty(), "robust:empty-message", "a diagnostic without text at {:?}", e.location());
    }
    ensure!(bad.is_empty(), "robust:location", "reported outside of the file: {:?}", bad);
    Ok(Outcome { reports: reports(&ctx), types, fatal })
}

fn finishes(g: &G, text: &[u8]) -> R {
    let shown = String::from_utf8_lossy(text).into_owned();
    g.note(&shown);
    let dir = if std::str::from_utf8(text).is_err() { Some(g.scratch()) } else { None };
    let first = process(dir.as_deref(), text, false)?;
    g.label_if(first.fatal, "fatal");
    g.label_if(first.reports.is_empty(), "no diagnostics");
    ensure!(first.types.iter().any(|t| t == "/datum"), "robust:builtins", "/datum is gone");
    // the same again, and with annotations on the side
    let again = process(dir.as_deref(), text, g.bool())?;
    ensure_eq!(again.types, first.types, "robust:again", "types the second time");
    ensure_eq!(again.reports, first.reports, "robust:again", "diagnostics the second time");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn bytes(g: &G) -> R {
    let n = 1 + g.len(0, 120);
    let kind = g.below(4);
    let mut text = vec![];
    for _ in 0..n {
        let b = match kind {
            0 => g.below(256) as u8,
            1 => *g.pick(b"\"'[]{}()\\@#/*\n\t .,;:abz019"),
            2 => *g.pick(b"abcvr/\n\t =\"[]()1"),
            _ => {
                if g.chance(1, 12) {
                    *g.pick(&[0, 0x80, 0xc3, 0xff, b'\r', 0x0b, 0x1b, 0xe2])
                } else {
                    32 + g.below(95) as u8
                }
            },
        };
        text.push(b);
    }
    g.nontrivial(text.len() >= 8);
    finishes(g, &text)
}

const WORDS: &[&str] = &[
    "var", "proc", "verb", "/", "obj", "mob", "datum", "list", "a", "b", "x", "src", "usr", "args", "world", "global", "type", "parent_type", "/obj", "/datum/x", "::", "null", "if", "else", "for", "while", "do", "switch", "in", "to", "step", "as", "anything", "text", "num", "return", "break", "continue", "goto", "spawn", "sleep", "del",
    "set", "try", "catch", "throw", "new", "locate", "pick", "input", "call", "istype", "initial", "prob", "rand", "sin", "sqrt", "max", "rgb", "ckey", "text", "const", "static", "tmp", "final", "operator", "operator+", "..", ".", "?.", "?:", ":", ";", ",", "(", ")", "[", "]", "{", "}", "?", "=", "==", "!=", "<>", "~=", "~!", "+", "-", "*", "/", "%", "%%",
    "**", "&", "&&", "|", "||", "^", "~", "!", "<", ">", "<=", ">=", "<<", ">>", "+=", "-=", "||=", "&&=", ":=", "++", "--", "...", "@", "#", "##", "1", "0", "2.5", "1e9", "0xff", "1e99", "1#INF", "-1", "99999999999", "\"s\"", "\"[", "]\"", "\"a [b] c\"", "'f'", "@\"r\"", "{\"", "\"}", "//c", "/*", "*/", "/// d", "/** d */", "//! d",
    "\n", "\n", "\n", "\n\t", "\n\t", "\n\t\t", "\n\t\t\t", "\n    ", " ", " ", "\\\n", "\n#define ", "\n#define A 1\n", "\n#define F(x) x\n", "F(", "A", "\n#undef A\n", "\n#if ", "\n#ifdef A\n", "\n#ifndef A\n", "\n#elif ", "\n#else\n", "\n#endif\n", "defined(", "\n#error ", "\n#warn ", "\n#include ", "\n#pragma ", "\n#line ", "__LINE__", "__FILE__",
    "set src in", "SpacemanDMM_should_not_sleep", "waitfor", "name", "New", "__PROC__", "__TYPE__", "nameof", "alist", "arglist", "vars", "tag",
];

fn tokens(g: &G) -> R {
    let mut text = String::new();
    if g.bool() {
        text.push_str(g.pick(&["/proc/p(x, y)\n\t", "/obj/x\n\t", "#define M(a, b) ", "var/v = ", "/obj/proc/f()\n\tvar/z = "]));
    }
    let n = 3 + g.len(0, 60);
    let tight = g.bool();
    for _ in 0..n {
        text.push_str(g.pick(WORDS));
        if !tight || g.bool() {
            text.push(' ');
        }
    }
    g.nontrivial(n >= 6);
    finishes(g, text.as_bytes())
}

/// Words, whitespace, and everything else one by one.
fn split(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let class = |c: char| match c {
        'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => 1,
        ' ' => 2,
        '\t' => 3,
        _ => 0,
    };
    let mut last = 0;
    for c in text.chars() {
        let k = class(c);
        if k != 0 && k == last && !out.is_empty() {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
        last = k;
    }
    out
}

fn damage(g: &G) -> R {
    let all = snippets();
    let base = *g.pick(&all);
    let other = *g.pick(&all);
    let mut t = split(base);
    // usually only a part of it
    if g.chance(2, 3) {
        let lines: Vec<&str> = base.lines().collect();
        let from = g.usize(lines.len());
        let n = 1 + g.usize(12);
        t = split(&(lines[from..(from + n).min(lines.len())].join("\n") + "\n"));
    }
    let o = split(other);
    let mut kinds = vec![];
    for _ in 0..1 + g.len(0, 4) {
        if t.is_empty() {
            break;
        }
        let at = g.usize(t.len());
        let n = 1 + g.usize(if g.bool() { 2 } else { 12 });
        let end = (at + n).min(t.len());
        match g.below(12) {
            0 => {
                kinds.push("delete");
                t.drain(at..end);
            },
            1 => {
                kinds.push("duplicate");
                let piece: Vec<String> = t[at..end].to_vec();
                t.splice(end..end, piece);
            },
            2 => {
                kinds.push("cut off");
                t.truncate(at);
            },
            3 => {
                kinds.push("swap");
                let b = g.usize(t.len());
                t.swap(at, b);
            },
            4 | 5 => {
                kinds.push("insert word");
                t.insert(at, g.pick(WORDS).to_string());
            },
            6 | 7 => {
                kinds.push("replace by word");
                t[at] = g.pick(WORDS).to_string();
            },
            8 => {
                kinds.push("insert piece of another");
                let a = g.usize(o.len());
                let b = (a + 1 + g.usize(20)).min(o.len());
                t.splice(at..at, o[a..b].to_vec());
            },
            9 => {
                kinds.push("odd character");
                t.insert(at, g.pick(&["\0", "\u{e9}", "\u{2615}", "\r", "\r\n", "\u{ff}", "\u{feff}"]).to_string());
            },
            10 => {
                kinds.push("reindent");
                if let Some(p) = t[at..].iter().position(|x| x == "\n") {
                    let tabs = "\t".repeat(g.usize(5));
                    t.insert(at + p + 1, tabs);
                }
            },
            _ => {
                kinds.push("move");
                let piece: Vec<String> = t.drain(at..end).collect();
                let to = g.usize(t.len() + 1);
                t.splice(to..to, piece);
            },
        }
    }
    for k in kinds {
        g.label(k);
    }
    g.nontrivial(t.len() >= 10);
    finishes(g, t.concat().as_bytes())
}

/// Deep, but not absurdly so, in the stack a program's main thread has.
fn nesting(g: &G) -> R {
    let depth = 1 + g.usize(60);
    let mut text = String::new();
    let kind = g.below(13);
    let wraps: Vec<(&str, &str)> = vec![("(", ")"), ("list(", ")"), ("!", ""), ("-", ""), ("f(", ")"), ("\"[", "]\""), ("a ? ", " : 1"), ("1 + (", ")"), ("new /obj(", ")"), ("a[", "]"), ("x.y(", ")"), ("pick(", ")")];
    match kind {
        0..=2 => {
            text.push_str(g.pick(&["var/v = ", "/proc/p(a, x)\n\treturn ", "/obj/x/name = ", "#if "]));
            let one = g.bool();
            let w = *g.pick(&wraps);
            let mut close = vec![];
            for _ in 0..depth {
                let w = if one { w } else { *g.pick(&wraps) };
                text.push_str(w.0);
                close.push(w.1);
            }
            text.push('1');
            if g.chance(3, 4) {
                for c in close.into_iter().rev() {
                    text.push_str(c);
                }
            }
            text.push('\n');
        },
        3 | 4 => {
            text.push_str("/proc/p(a)\n");
            for i in 0..depth {
                text.push_str(&"\t".repeat(i + 1));
                text.push_str(g.pick(&["if(a)\n", "while(a)\n", "for(var/b in a)\n", "switch(a)\n", "else\n", "do\n", "spawn(1)\n", "try\n", "if(1)\n", "lbl:\n"]));
            }
            text.push_str(&"\t".repeat(depth + 1));
            text.push_str("return a\n");
        },
        5 => {
            text.push_str("/proc/p(a)\n\t");
            for _ in 0..depth {
                text.push_str(g.pick(&["if(a) ", "while(a) { ", "for(var/b in a) ", "do ", "{ ", "spawn(1) ", "else ", "try { "]));
            }
            text.push_str("a = 1\n");
        },
        6 => {
            for i in 0..depth {
                text.push_str(&"\t".repeat(i));
                text.push_str(g.pick(&["obj\n", "x\n", "a/b\n", "var\n", "proc\n"]));
            }
            text.push_str(&"\t".repeat(depth));
            text.push_str("name = 1\n");
        },
        7 => {
            for _ in 0..depth {
                text.push_str("/* ");
            }
            if g.bool() {
                text.push_str(&"*/ ".repeat(depth));
            }
        },
        8 => {
            for _ in 0..depth {
                text.push_str(g.pick(&["#if 1\n", "#ifdef A\n", "#ifndef A\n", "#if 0\n"]));
            }
            text.push_str("var/x\n");
            for _ in 0..depth {
                text.push_str(g.pick(&["#endif\n", "#else\n#endif\n", "#elif 1\n#endif\n"]));
            }
        },
        9 => {
            let n = 40 * depth;
            text.push_str("/proc/p(a)\n\treturn 1");
            let op = *g.pick(&[" + ", " && ", " || ", " << ", " ** ", " = ", ".b.", ", "]);
            for _ in 0..n {
                text.push_str(op);
                text.push('a');
            }
            text.push('\n');
        },
        10 => {
            text.push_str("/proc/p(a)\n\tif(a) a = 1\n");
            for _ in 0..40 * depth {
                text.push_str("\telse if(a) a = 2\n");
            }
        },
        11 => {
            for _ in 0..depth {
                text.push_str("/a");
            }
            text.push_str("\n\tvar/x = ");
            for _ in 0..depth {
                text.push_str("/a");
            }
            text.push('\n');
        },
        _ => {
            text.push_str("var/v = \"");
            text.push_str(&"long ".repeat(depth * 3000));
            text.push_str("\" + foo\n");
        },
    }
    g.label(["expression", "expression", "expression", "indented block", "indented block", "one line", "tree", "comment", "#if", "chain of operators", "else if", "path", "long line"][kind as usize]);
    g.nontrivial(depth >= 10);
    g.note(&text[..text.len().min(2000)]);
    // the main thread of a program has 8 MB
    let done = std::thread::scope(|s| {
        let text = &text;
        let f = move || -> Result<(), Fail> {
            let first = process(None, text.as_bytes(), false)?;
            let again = process(None, text.as_bytes(), true)?;
            ensure_eq!(again.reports, first.reports, "robust:again", "diagnostics the second time");
            Ok(())
        };
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || catching(f)).unwrap().join().unwrap()
    });
    match done {
        Ok(r) => r,
        Err(e) => fail("panic", e),
    }
}

/// Types that refer to each other, variables that refer to each other, in any way at all.
fn webs(g: &G) -> R {
    let n = 2 + g.usize(4);
    let types: Vec<String> = (0..n).map(|i| {
        match g.below(6) {
            0 if i > 0 => format!("/obj/t{}/t{}", g.usize(i), i),
            1 => format!("/datum/t{}", i),
            2 => format!("/t{}", i),
            _ => format!("/obj/t{}", i),
        }
    }).collect();
    let any = |g: &G| -> String {
        match g.below(8) {
            0 => g.pick(&["/obj", "/datum", "/mob", "/atom", "/list", "/world", "/client", "/nothing", "/obj/t0/t1"]).to_string(),
            _ => g.pick(&types).clone(),
        }
    };
    let mut text = String::new();
    let mut odd = 0;
    let mut order = types.clone();
    g.shuffle(&mut order);
    for t in &order {
        text.push_str(&format!("{}\n", t));
        let mut any_line = false;
        for _ in 0..1 + g.usize(4) {
            let line = match g.below(10) {
                0..=2 => {
                    odd += 1;
                    let v = match g.below(10) {
                        0 => "null".to_string(),
                        1 => "1".into(),
                        2 => "\"/obj\"".into(),
                        3 => "v0".into(),
                        4 => "list(/obj)".into(),
                        _ => any(g),
                    };
                    format!("parent_type = {}", v)
                },
                3 | 4 => {
                    odd += 1;
                    format!("var/const/c{} = {}", g.usize(4), g.pick(&["c0", "c1 + c2", "c3", "global.c0", "list(c1)", "1 / 0", "c0 = 1", "rgb(c1, 2, 3)", "v0", "src.c1", "c0.c1"]))
                },
                5 => format!("var/c{} = {}::c{}", g.usize(4), any(g), g.usize(4)),
                6 => format!("c{} = {}", g.usize(4), g.pick(&["c0", "c1", "2", "initial(c1)", "parent_type::c0", "type::c1"])),
                7 => format!("proc/p{}(a, b)\n\t\tvar{}/x = new {}\n\t\tx.p{}(a)\n\t\treturn ..()", g.usize(2), any(g), any(g), g.usize(3)),
                8 => format!("p{}()\n\t\treturn ..() + {}", g.usize(3), g.pick(&["p0()", "src.c0", "x.y", "/obj::c0", "args[1]"])),
                _ => format!("var{}/v{}", any(g), g.usize(2)),
            };
            text.push_str(&format!("\t{}\n", line));
            any_line = true;
        }
        let _ = any_line;
    }
    for _ in 0..g.usize(4) {
        text.push_str(&format!("var/{}c{} = {}\n", g.pick(&["", "const/", "static/"]), g.usize(4), g.pick(&["c0", "c1 + c2", "c3", "list(c0 = c1)", "/obj/t0::c1", "global.c2", "::c3"])));
    }
    g.nontrivial(odd >= 2);
    finishes(g, text.as_bytes())
}

/// Macros that refer to themselves and to each other.
fn expansions(g: &G) -> R {
    let n = 1 + g.usize(4);
    let names: Vec<String> = (0..n).map(|i| format!("M{}", i)).collect();
    let arity: Vec<Option<(usize, bool)>> = (0..n).map(|_| if g.bool() { Some((g.usize(3), g.chance(1, 4))) } else { None }).collect();
    let call = |g: &G, i: usize, inner: &str| -> String {
        match arity[i] {
            None => names[i].clone(),
            Some((k, _)) => {
                let k = if g.chance(1, 6) { g.usize(4) } else { k };
                format!("{}({})", names[i], (0..k).map(|_| inner.to_string()).collect::<Vec<_>>().join(", "))
            },
        }
    };
    let mut text = String::new();
    let mut back = 0;
    for i in 0..n {
        text.push_str(&format!("#define {}", names[i]));
        if let Some((k, variadic)) = arity[i] {
            let mut ps: Vec<String> = (0..k).map(|j| format!("p{}", j)).collect();
            if variadic {
                if let Some(last) = ps.last_mut() {
                    last.push_str("...");
                } else {
                    ps.push("...".into());
                }
            }
            text.push_str(&format!("({})", ps.join(", ")));
        }
        for _ in 0..g.usize(5) {
            text.push(' ');
            match g.below(10) {
                0..=3 => {
                    let j = g.usize(n);
                    if j <= i {
                        back += 1;
                    }
                    text.push_str(&call(g, j, g.pick(&["1", "p0", "p1", "M0", ""])));
                },
                4 => text.push_str(g.pick(&["p0", "p1", "#p0", "##p0", "a##p0", "p0##p1", "#", "##", "# 1"])),
                5 => text.push_str(g.pick(&["(", ")", "[", "]", "{", "}", ",", ";", "\"", "\"[p0]\"", "\"[M0]\""])),
                _ => text.push_str(g.pick(&["1", "+", "a", "\"s\"", "if", "return", "\\\n", "/"])),
            }
        }
        text.push('\n');
    }
    if g.chance(1, 3) {
        let i = g.usize(n);
        text.push_str(&format!("#{} {}\n", g.pick(&["if", "ifdef", "undef", "elif"]), call(g, i, "1")));
    }
    text.push_str(g.pick(&["var/v = ", "/proc/p()\n\t", "/obj/x\n\t"]));
    for _ in 0..1 + g.usize(3) {
        let i = g.usize(n);
        text.push_str(&call(g, i, g.pick(&["1", "(2, 3)", "a b", "", "M0", "\"x\"", "\n", "(", "M1(1"])));
        text.push_str(g.pick(&[" ", " + ", "\n", "\n\t", "("]));
    }
    g.label_if(back > 1, "recursive");
    g.nontrivial(back > 0);
    finishes(g, text.as_bytes())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "at least 8 bytes, 6 words, 10 pieces of the damaged program, depth 10, two odd references, or a macro that refers back",
        assumptions: &["nesting up to 60 levels and chains of up to 2400 operators, with 8 MB of stack", "#include only names files that do not exist", "macros that do not refer back are not made to expand exponentially"],
        subs: vec![
            Sub { name: "damage", quick: 30000, thorough: 600000, run: damage },
            Sub { name: "tokens", quick: 20000, thorough: 400000, run: tokens },
            Sub { name: "bytes", quick: 10000, thorough: 200000, run: bytes },
            Sub { name: "nesting", quick: 2000, thorough: 30000, run: nesting },
            Sub { name: "webs", quick: 10000, thorough: 200000, run: webs },
            Sub { name: "expansions", quick: 10000, thorough: 200000, run: expansions },
        ],
    }
}
