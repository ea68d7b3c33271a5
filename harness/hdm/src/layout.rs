//! C04: indentation and braces describe the same structure.
use crate::model::*;
use crate::stmts::*;
use crate::tree::*;
use dm::lexer::*;
use dm::Context;
use engine::*;

fn layouts(g: &G) -> R {
    let names = Names::new();
    let facts = gen_facts(g, &names, g.usize(3));
    let doc = nest(g, &facts, &vec![]);
    g.nontrivial(facts.len() >= 3);
    let mut texts: Vec<(&str, String)> = vec![];
    let unit = *g.pick(&["\t", "    ", "  ", " ", "\t\t"]);
    for (name, style, unit, noise) in [("indent", Style::Indent, unit, true), ("braces on one line", Style::BraceOne, "\t", false), ("braces over lines", Style::BraceMulti, *g.pick(&["\t", " "]), false), ("mixed", Style::Any, *g.pick(&["\t", "  "]), true)] {
        let mut w = W::new(g, style, unit, noise);
        w.redundant = 0;
        w.nodes(&doc, Ctx::Line(0));
        if g.bool() {
            w.put("\n");
        }
        if w.text.len() > 20000 {
            return g.discard();
        }
        texts.push((name, w.text));
    }
    g.note(&texts[0].1);
    g.label_if(texts[0].1.contains("\n\t\t\t") || texts[0].1.contains("\n            "), "three levels deep");
    let mut first: Option<(Vec<String>, Vec<String>)> = None;
    for (name, text) in &texts {
        let (ctx, tree) = parse_program(text);
        let mut ds: Vec<String> = ctx.errors().iter().map(|e| e.description().replace(|c: char| c.is_ascii_digit(), "")).collect();
        ds.sort();
        let d = dump(&tree);
        match &first {
            None => first = Some((d, ds)),
            Some((d0, ds0)) => {
                ensure!(*d0 == d, "structure", "layout `{}` differs from `indent`:\n{}\n--- {}\n{}\n--- as\n{}\n--- instead of\n{}", name, texts[0].1, name, text, d.join("\n"), d0.join("\n"));
                ensure!(*ds0 == ds, "diagnostics", "layout `{}` gives other diagnostics than `indent`: {:?} / {:?}\n{}\n--- {}\n{}", name, ds, ds0, texts[0].1, name, text);
            },
        }
    }
    Ok(())
}

// ---- token level: the nesting of lines

#[derive(Clone, Debug)]
struct L {
    words: usize,
    kids: Vec<L>,
    /// 0 indentation, 1 braces over lines, 2 braces on one line
    style: u8,
}

fn gen_l(g: &G, depth: usize, one: bool, braces: bool, top: bool) -> L {
    let n = if depth == 0 { 0 } else { g.weighted(&[3, 2, 2, 1]) };
    // braces first used at the margin set the unit to one character, so there only on one line
    let style = if one { 2 } else if braces { *g.pick(&[0, 0, 1, 2]) } else { 0 };
    let style = if top && style == 1 { 2 } else { style };
    L { words: g.usize(3), kids: (0..n).map(|_| gen_l(g, depth - 1, style == 2, braces, false)).collect(), style }
}

struct Wr<'a> {
    g: &'a G,
    out: String,
    unit: &'static str,
    n: usize,
    want: String,
}
impl<'a> Wr<'a> {
    fn line(&mut self, l: &L, depth: usize, one: bool) {
        let g = self.g;
        if !one {
            if !self.out.is_empty() {
                if g.chance(1, 5) {
                    self.out.push_str(g.pick(&[" ", "\t", " // c {", " /* } */"]));
                }
                self.out.push('\n');
            }
            for _ in 0..g.weighted(&[8, 1, 1]) {
                for _ in 0..g.usize(7) {
                    self.out.push(*g.pick(&[' ', '\t']));
                }
                self.out.push_str(g.pick(&["", "// {", "/* { \n\t\t } */", "/**/"]));
                self.out.push('\n');
            }
            for _ in 0..depth {
                self.out.push_str(self.unit);
            }
        }
        self.n += 1;
        let name = format!("n{}", self.n);
        self.out.push_str(&name);
        self.want.push_str(&name);
        for _ in 0..l.words {
            match g.usize(4) {
                0 => {
                    // brackets spread over lines; strings may hold anything
                    self.out.push_str("(a");
                    self.want.push_str(" ( a");
                    for _ in 0..g.usize(3) {
                        self.out.push(',');
                        for _ in 0..g.usize(3) {
                            self.out.push('\n');
                            for _ in 0..g.usize(6) {
                                self.out.push(*g.pick(&[' ', '\t']));
                            }
                        }
                        self.out.push('b');
                        self.want.push_str(" , b");
                    }
                    self.out.push(')');
                    self.want.push_str(" )");
                },
                1 => {
                    self.out.push_str(" \"{ ; }\"");
                    self.want.push_str(" \"{ ; }\"");
                },
                2 => {
                    self.out.push_str(" w");
                    self.want.push_str(" w");
                },
                _ => {
                    self.out.push_str(" \\\n\t   v");
                    self.want.push_str(" v");
                },
            }
        }
        if l.kids.is_empty() {
            return;
        }
        self.want.push_str(" {");
        match l.style {
            0 => {
                for k in &l.kids {
                    self.line(k, depth + 1, false);
                    self.want.push(';');
                }
            },
            1 => {
                self.out.push_str(" {");
                for k in &l.kids {
                    self.line(k, depth + 1, false);
                    self.want.push(';');
                }
                self.out.push('\n');
                for _ in 0..depth {
                    self.out.push_str(self.unit);
                }
                self.out.push('}');
            },
            _ => {
                self.out.push_str(" {");
                for k in &l.kids {
                    self.line(k, 0, true);
                    self.out.push(';');
                    self.want.push(';');
                }
                self.out.push('}');
            },
        }
        self.want.push('}');
    }
}

fn lines(g: &G) -> R {
    let depth = g.len(0, 5);
    let braces = g.bool();
    let roots: Vec<L> = (0..1 + g.len(0, 5)).map(|_| gen_l(g, depth, false, braces, true)).collect();
    let unit = *g.pick(&["\t", "    ", "  ", " ", "\t\t", " \t", "   "]);
    let mut w = Wr { g, out: String::new(), unit, n: 0, want: String::new() };
    for r in &roots {
        w.line(r, 0, false);
        w.want.push(';');
    }
    for _ in 0..g.usize(3) {
        w.out.push_str(g.pick(&["\n", "\n\t", "\n  ", "\n// end"]));
    }
    g.note(&w.out);
    g.nontrivial(roots.iter().any(|r| !r.kids.is_empty()));
    g.label_if(roots.iter().any(|r| r.kids.iter().any(|k| !k.kids.is_empty())), "nested twice");
    let ctx = Context::default();
    let toks: Vec<_> = dm::indents::IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), w.out.as_bytes())).collect();
    let errs = diags(&ctx);
    ensure!(errs.is_empty(), "diagnostics", "consistent indentation gives {:?}", errs);
    // an element ends at `;` or at the `}` that closes it or its block
    let mut got = String::new();
    let mut open = false; // the current element has not been closed by `;` yet
    let mut depth = 0i32;
    for t in &toks {
        match &t.token {
            Token::Punct(Punctuation::Semicolon) => {
                if open {
                    got.push(';');
                }
                open = false;
            },
            Token::Punct(Punctuation::LBrace) => {
                got.push_str(" {");
                depth += 1;
                open = false;
            },
            Token::Punct(Punctuation::RBrace) => {
                if open {
                    got.push(';');
                }
                got.push('}');
                depth -= 1;
                ensure!(depth >= 0, "unbalanced", "a block is closed that was not opened");
                open = true;
            },
            Token::Punct(p @ (Punctuation::Newline | Punctuation::Space | Punctuation::Tab)) => return fail("whitespace", format!("whitespace {:?} survives", p)),
            other => {
                if !got.is_empty() && got.ends_with('}') && open {
                    // a block ends its element
                    got.push(';');
                    open = false;
                }
                if open {
                    got.push(' ');
                }
                match other {
                    Token::Ident(n, _) => got.push_str(n),
                    o => got.push_str(&o.to_string()),
                }
                open = true;
            },
        }
    }
    if open {
        got.push(';');
    }
    ensure!(depth == 0, "unbalanced", "{} blocks left open at the end", depth);
    let want = w.want.replace(";}", "#").replace('#', ";}");
    ensure!(got == want, "nesting", "\n  read as {}\n  written {}", got, want);
    Ok(())
}

fn balance(g: &G) -> R {
    let mut s = String::new();
    let n = g.len(0, 40);
    let close = g.chance(1, 3);
    for _ in 0..n {
        s.push_str(match g.weighted(&[8, 8, 8, 5, 2, 1, 2, 2]) {
            0 => "\n",
            1 => "\t",
            2 => " ",
            3 => "a ",
            4 => "{",
            5 => "(",
            6 => ")",
            _ => {
                if close {
                    "}"
                } else {
                    "x"
                }
            },
        });
    }
    g.note(&s);
    g.nontrivial(s.contains("\n\t") || s.contains("\n "));
    let ctx = Context::default();
    let mut depth = 0i64;
    let mut low = 0;
    for t in dm::indents::IndentProcessor::new(&ctx, Lexer::new(&ctx, Default::default(), s.as_bytes())) {
        match t.token {
            Token::Punct(Punctuation::LBrace) => depth += 1,
            Token::Punct(Punctuation::RBrace) => depth -= 1,
            _ => {},
        }
        low = depth.min(low);
    }
    if ctx.errors().iter().any(|e| e.description() == "unmatched right brace") {
        return g.discard();
    }
    ensure!(depth == 0 && low >= 0, "unbalanced", "blocks opened minus closed: {} at the end, {} at the lowest", depth, low);
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "layouts: at least three declarations; lines: at least one block; balance: at least one indented line",
        assumptions: &[
            "braces over several lines directly at column one use a one-character indentation unit (the processor fixes the unit at the first explicit brace)",
            "a text with an explicit closing brace that is itself reported as unmatched is not required to balance",
        ],
        subs: vec![
            Sub { name: "layouts", quick: 40_000, thorough: 1_500_000, run: layouts },
            Sub { name: "lines", quick: 300_000, thorough: 20_000_000, run: lines },
            Sub { name: "balance", quick: 300_000, thorough: 20_000_000, run: balance },
        ],
    }
}
