//! C09: expressions parse into the tree of the precedence table.
use crate::model::*;
use dm::lexer::Lexer;
use dm::parser::parse_expression;
use dm::Context;
use engine::*;

fn nodes(s: &str) -> usize {
    s.matches('(').count()
}

pub fn parse_text(text: &str) -> Result<(String, Seen), Fail> {
    let ctx = Context::default();
    let lexer = Lexer::new(&ctx, Default::default(), text.as_bytes());
    let mut it = dm::indents::IndentProcessor::new(&ctx, lexer);
    let e = match parse_expression(&ctx, Default::default(), &mut it) {
        Ok(e) => e,
        Err(e) => return fail("parse-error", format!("{:?} does not parse: {}", text, e)),
    };
    // (one token of lookahead is consumed)
    let errs: Vec<String> = ctx.errors().iter().map(|e| e.description().to_owned()).collect();
    if !errs.is_empty() {
        return fail("diagnostic", format!("{:?}: unexpected diagnostics {:?}", text, errs));
    }
    let mut seen = Seen::new();
    let s = p_expr(&e, &mut seen);
    Ok((s, seen))
}

fn check(g: &G, e: &E) -> R {
    let want = sx(e);
    g.nontrivial(nodes(&want) >= 3);
    for l in ["(?", "(in ", "(= ", "(new", "(input", "(locate", "(pick", "(interp", "(mcall", "(field:", "(static", "(procref", "(dyncall", "(callext", "(list", "(postinc", "(deref"] {
        g.label_if(want.contains(l), l);
    }
    g.note(&want);
    // minimal parentheses, then with redundant ones, then fully parenthesised
    for mode in 0..3 {
        let mut r = Rend::new(g, if mode == 1 { 15 } else { 0 });
        r.full = mode == 2;
        r.expr(e, IN, false);
        let text = join_multi(g, &r.out, mode == 1);
        if mode < 2 {
            g.note(&text);
        }
        let (got, seen) = parse_text(&text)?;
        let sig = ["minimal", "redundant-parens", "full-parens"][mode];
        ensure!(got == want, sig, "{}\n  parsed as {}\n  should be {}", text, got, want);
        let pos = positions(&text);
        for (name, loc) in &seen.idents {
            if let Some(&(line, col)) = pos.get(name) {
                ensure!(loc.line == line && loc.column == col, "location", "{} in {:?} located at {}:{}, written at {}:{}", name, text, loc.line, loc.column, line, col);
            }
        }
    }
    Ok(())
}

fn ops(g: &G) -> R {
    let names = Names::new();
    let d = 1 + g.len(1, 5);
    let e = gen_ops(g, &names, d);
    check(g, &e)
}

fn forms(g: &G) -> R {
    let names = Names::new();
    let d = 2 + g.len(0, 4);
    let e = gen(g, &names, d);
    let mut r = Rend::new(g, 0);
    r.expr(&e, IN, false);
    if r.out.len() > 3000 {
        return g.discard();
    }
    check(g, &e)
}

/// A flat chain of operators written without any parentheses, grouped by a precedence-climbing reference.
fn chains(g: &G) -> R {
    // operators only of binary kind plus `in`; atoms optionally with prefix operators
    #[derive(Clone)]
    enum Node {
        Leaf(String),
        Op(String, Box<Node>, Box<Node>),
    }
    fn show(n: &Node) -> String {
        match n {
            Node::Leaf(s) => s.clone(),
            Node::Op(o, a, b) => format!("({} {} {})", o, show(a), show(b)),
        }
    }
    let n = 2 + g.len(1, 10);
    let names = Names::new();
    let mut text = String::new();
    let mut leaves = vec![];
    let mut opers: Vec<(String, u8, bool)> = vec![];
    for i in 0..n {
        if i > 0 {
            let (t, name, l, right) = match g.weighted(&[8, 2]) {
                0 => {
                    let o = g.pick(BIN);
                    (o.0, o.2, o.1, false)
                },
                _ => {
                    let o = *g.pick(ASSIGNS);
                    (o, o, ASSIGN, true)
                },
            };
            text.push_str(&format!(" {} ", t));
            opers.push((name.to_string(), l, right));
        }
        let nm = names.fresh();
        if g.chance(1, 5) {
            let p = g.pick(PRE);
            text.push_str(&format!("{}{}", p.0, nm));
            leaves.push(Node::Leaf(format!("({} {})", p.1, nm)));
        } else {
            text.push_str(&nm);
            leaves.push(Node::Leaf(nm));
        }
    }
    // reference: repeatedly reduce the tightest operator, leftmost first (rightmost for assignments)
    let mut ls = leaves;
    let mut os = opers.clone();
    while !os.is_empty() {
        let l = os.iter().map(|o| o.1).min().unwrap();
        let i = if os.iter().find(|o| o.1 == l).unwrap().2 { os.iter().rposition(|o| o.1 == l).unwrap() } else { os.iter().position(|o| o.1 == l).unwrap() };
        let o = os.remove(i);
        let b = ls.remove(i + 1);
        let a = ls[i].clone();
        ls[i] = Node::Op(o.0, Box::new(a), Box::new(b));
    }
    let want = show(&ls[0]);
    g.note(&text);
    let distinct: std::collections::BTreeSet<u8> = opers.iter().map(|o| o.1).collect();
    g.nontrivial(distinct.len() >= 2);
    let (got, _) = parse_text(&text)?;
    ensure!(got == want, "chain", "{}\n  parsed as {}\n  should be {}", text, got, want);
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "a case counts when its tree has at least three inner nodes (forms, operators) or mixes at least two precedence levels (chains)",
        assumptions: &[
            "ternary branches containing `a:b` accesses, bare `new`, `input(...) as ... in ...`, and prefabs next to `/` are written in parentheses, as DM style requires",
            "empty argument slots `f(1,,2)` are not generated (the tree does not represent them)",
        ],
        subs: vec![
            Sub { name: "chains", quick: 600000, thorough: 10000000, run: chains },
            Sub { name: "operators", quick: 400000, thorough: 6000000, run: ops },
            Sub { name: "forms", quick: 600000, thorough: 6000000, run: forms },
        ],
    }
}
