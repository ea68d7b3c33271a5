//! D06: switches over `rand()`.
use crate::world::{check, diags};
use engine::*;

/// A constant expression with this value.
fn int(g: &G, n: i64) -> String {
    match g.usize(10) {
        0 => {
            let k = g.range(-5, 9);
            let (a, b) = (n - k, k);
            if b < 0 { format!("{} - {}", a, -b) } else { format!("{} + {}", a, b) }
        },
        1 if n != 0 => format!("{} * {}", n, 1),
        2 if n % 2 == 0 => format!("{} / 2", n * 2),
        3 => format!("({})", n),
        4 if n >= 0 && n & 1 == 0 => format!("{} << 1", n / 2),
        5 => format!("{}.0", n),
        _ => n.to_string(),
    }
}

#[derive(Clone)]
enum Case {
    /// Twice the ends of what matches: halves occur.
    Half(i64, i64),
    Text,
    Unknown,
}

fn number(g: &G, half: i64) -> String {
    if half % 2 == 0 {
        int(g, half / 2)
    } else if g.bool() {
        format!("{} / 2", half)
    } else {
        format!("{}{}.5", if half < 0 { "-" } else { "" }, half.abs() / 2)
    }
}

fn rolls(g: &G) -> R {
    let mut lines: Vec<String> = vec!["/proc/test(a)".into()];
    let mut want: Vec<(u32, String)> = vec![];
    let mut free: Vec<(u32, String)> = vec![];
    let mut covered = false;
    for _ in 0..g.len(1, 3) {
        let one = g.chance(1, 3);
        let (lo, hi) = if one {
            (0, g.range(0, 12))
        } else {
            let lo = g.range(-6, 9);
            (lo, lo + g.range(0, 14))
        };
        let roll = if one { format!("rand({})", int(g, hi)) } else { format!("rand({}, {})", int(g, lo), int(g, hi)) };
        let known = !g.chance(1, 12);
        let roll = if known { roll } else { g.pick(&["rand(a, 3)", "rand()", "rand(1, 3) + 1", "roll(1, 6)", "a", "rand(1, 2, 3)", "prob(3)"]).to_string() };
        let default = g.chance(1, 4);
        let mut cases: Vec<Vec<Case>> = vec![];
        // often a partition of the range, a little damaged
        if g.chance(2, 3) {
            let mut at = lo;
            while at <= hi {
                let end = at + g.below(4) as i64;
                if !g.chance(1, 12) {
                    let (mut a, mut b) = (at * 2, end * 2);
                    if g.chance(1, 10) {
                        a -= 1;
                    }
                    if g.chance(1, 10) {
                        b += 1;
                    }
                    cases.push(vec![Case::Half(a, b)]);
                }
                at = end + 1;
            }
            g.shuffle(&mut cases);
        }
        for _ in 0..g.weighted(&[5, 3, 2, 1]) {
            let a = g.range(lo * 2 - 6, hi * 2 + 6);
            let b = match g.usize(4) {
                0 | 1 => a,
                2 => a + g.range(0, 8),
                _ => g.range(lo * 2 - 6, hi * 2 + 6),
            };
            let c = match g.usize(12) {
                0 => Case::Text,
                1 => Case::Unknown,
                _ => Case::Half(a, b),
            };
            if !cases.is_empty() && g.bool() {
                let i = g.usize(cases.len());
                cases[i].push(c);
            } else {
                let i = g.usize(cases.len() + 1);
                cases.insert(i, vec![c]);
            }
        }
        if cases.is_empty() {
            cases.push(vec![Case::Half(lo * 2, lo * 2)]);
        }
        let top = lines.len() as u32 + 1;
        lines.push(format!("\tswitch({})", roll));
        let mut hit = vec![false; (hi - lo + 1) as usize];
        let mut all_known = true;
        let mut reversed = false;
        for c in &cases {
            let line = lines.len() as u32 + 1;
            let mut texts = vec![];
            for part in c {
                match part {
                    Case::Text => texts.push("\"s\"".to_string()),
                    Case::Unknown => {
                        texts.push("FOO".to_string());
                        all_known = false;
                    },
                    Case::Half(a, b) => {
                        texts.push(if a == b && g.chance(4, 5) { number(g, *a) } else { format!("{} to {}", number(g, *a), number(g, *b)) });
                        let mut any = false;
                        for n in lo..=hi {
                            if *a <= 2 * n && 2 * n <= *b {
                                hit[(n - lo) as usize] = true;
                                any = true;
                            }
                        }
                        if known && !any {
                            let show = |h: i64| if h % 2 == 0 { format!("{}", h / 2) } else { format!("{}", h as f64 / 2.0) };
                            let text = format!("Case range '{} to {}' will never trigger as it is outside the rand() range {} to {}", show(*a), show(*b), lo, hi);
                            // what a range whose ends are swapped matches is not settled
                            if a > b {
                                reversed = true;
                                free.push((line, text));
                            } else {
                                want.push((line, text));
                            }
                        }
                    },
                }
            }
            lines.push(format!("\t\tif({})", texts.join(", ")));
            lines.push(g.pick(&["\t\t\ta = 1", "\t\t\tworld.log << a"]).to_string());
        }
        if default {
            lines.push("\t\telse".into());
            lines.push("\t\t\ta = 2".into());
        }
        let gap = hit.iter().position(|h| !h);
        if known && !default && all_known {
            if let Some(i) = gap {
                let text = format!("Switch branches on rand() with range {} to {} but no case branch triggers for {}", lo, hi, lo + i as i64);
                if reversed {
                    free.push((top, text));
                } else {
                    want.push((top, text));
                }
            } else {
                covered = true;
            }
        }
    }
    lines.push("/var/const/FOO = 2".into());
    let text = lines.join("\n") + "\n";
    g.note(&text);
    g.nontrivial(lines.len() >= 8);
    g.label_if(!want.is_empty(), "something to report");
    g.label_if(covered, "everything covered");
    let got = diags(&check(&text));
    let mut rest = want.clone();
    for x in &got {
        // a case is placed on the line of its `if` or at the end of its block, the line below
        let near = |w: &(u32, String)| w.1 == x.1 && (w.0 == x.0 || (x.1.starts_with("Case") && w.0 + 1 == x.0));
        if let Some(i) = rest.iter().position(near) {
            rest.remove(i);
        } else if let Some(i) = free.iter().position(near) {
            free.remove(i);
        } else {
            return fail("roll:unexpected", format!("line {}: {:?}", x.0, x.1));
        }
    }
    match rest.first() {
        Some((l, m)) => fail("roll:missing", format!("line {}: {:?} should have been reported", l, m)),
        None => Ok(()),
    }
}

/// Bounds and cases near the limits of what a number can hold: no panic, no false gap.
fn extremes(g: &G) -> R {
    let big = |g: &G| {
        let n = *g.pick(&["2147483647", "-2147483648", "2147483646", "1e10", "-1e10", "1e38", "16777216", "0", "5", "-7", "1 << 23"]);
        n.to_string()
    };
    let mut lines: Vec<String> = vec!["/proc/test(a)".into()];
    lines.push(format!("\tswitch(rand({}, {}))", big(g), big(g)));
    for _ in 0..g.len(1, 4) {
        lines.push(if g.bool() { format!("\t\tif({})", big(g)) } else { format!("\t\tif({} to {})", big(g), big(g)) });
        lines.push("\t\t\ta = 1".into());
    }
    let all = g.chance(1, 3);
    if all {
        lines.push("\t\tif(-1e38 to 1e38)".into());
        lines.push("\t\t\ta = 1".into());
    }
    let text = lines.join("\n") + "\n";
    g.note(&text);
    g.nontrivial(lines.len() >= 4);
    let got = diags(&check(&text));
    if all {
        ensure!(!got.iter().any(|x| x.1.contains("no case branch triggers")), "roll:false-gap", "everything is covered: {:?}", got);
    }
    Ok(())
}

pub fn d06() -> Prop {
    Prop {
        id: "D06",
        rule: "a switch with at least three cases (extremes: two)",
        assumptions: &["the bounds of rand() are integers, the lower one first", "what a case range with swapped ends matches is not settled"],
        subs: vec![
            Sub { name: "rolls", quick: 60000, thorough: 600000, run: rolls },
            Sub { name: "extremes", quick: 4000, thorough: 40000, run: extremes },
        ],
    }
}
