//! C18: the interval tree against a plain sorted map of intervals.
use engine::*;
use interval_tree::{range, IntervalTree, RangeInclusive};
use std::collections::BTreeMap;

type T = IntervalTree<u64, u32>;
type M = BTreeMap<(u64, u64), Vec<u32>>;

fn r(k: (u64, u64)) -> RangeInclusive<u64> {
    range(k.0, k.1)
}
fn k(r: &RangeInclusive<u64>) -> (u64, u64) {
    (r.start, r.end)
}

fn check_query(t: &T, m: &M, q: (u64, u64)) -> R {
    let got: Vec<((u64, u64), u32)> = t.range(r(q)).map(|(a, &b)| (k(&a), b)).collect();
    let want: Vec<((u64, u64), u32)> = m.iter().filter(|(a, _)| a.0.max(q.0) <= a.1.min(q.1)).flat_map(|(a, v)| v.iter().map(move |&x| (*a, x))).collect();
    ensure_eq!(got, want, "range", "overlap query {:?} on {:?}", q, m.keys().collect::<Vec<_>>());
    Ok(())
}

fn check_all(t: &T, m: &M) -> R {
    let want: Vec<((u64, u64), u32)> = m.iter().flat_map(|(a, v)| v.iter().map(move |&x| (*a, x))).collect();
    let got: Vec<((u64, u64), u32)> = t.iter().map(|(a, &b)| (k(&a), b)).collect();
    ensure_eq!(got, want, "iter", "iteration");
    ensure_eq!(t.is_empty(), m.is_empty(), "is_empty", "is_empty");
    ensure_eq!(t.min().map(|(a, v)| (k(a), v.to_vec())), m.iter().next().map(|(a, v)| (*a, v.clone())), "min", "min");
    ensure_eq!(t.max().map(|(a, v)| (k(a), v.to_vec())), m.iter().next_back().map(|(a, v)| (*a, v.clone())), "max", "max");
    let h = t.height() as u32;
    let n = m.len() as f64;
    // AVL bound: height <= 1.4405 log2(n + 2)
    ensure!(h as f64 <= 1.4405 * (n + 2.0).log2() + 0.01, "height", "height {} for {} keys", h, m.len());
    ensure!((1u64 << h.min(63)) > m.len() as u64, "height", "height {} is too small for {} keys", h, m.len());
    Ok(())
}

fn key(g: &G, span: u64, shape: usize) -> (u64, u64) {
    match shape {
        0 => {
            let a = g.below(span);
            (a, a)
        },
        1 => {
            let a = g.below(span);
            (a, a + g.below(span / 4 + 1))
        },
        2 => {
            let a = g.below(span);
            (a, a + g.below(span))
        },
        // nested around a centre
        3 => {
            let d = g.below(span);
            (span - d.min(span), span + d)
        },
        _ => {
            let a = g.u64() >> 1;
            (a, a + (g.u64() >> 2))
        },
    }
}

fn history(g: &G) -> R {
    let n = g.len(1, 150);
    let span = *g.pick(&[6u64, 20, 60, 1000]);
    let mut t = T::new();
    let mut m = M::new();
    let mut shape = g.weighted(&[2, 3, 4, 2, 1]);
    let mut desc = String::new();
    let (mut removed, mut overlapped) = (0, 0);
    let monotone = g.chance(1, 5);
    let mut next = 0u64;
    for step in 0..n {
        if g.chance(1, 10) {
            shape = g.weighted(&[2, 3, 4, 2, 1]);
        }
        let mut kk = key(g, span, shape);
        if monotone {
            next += g.below(3);
            let w = kk.1 - kk.0;
            kk = (next, next + w % (span + 1));
        }
        // reuse an existing key often
        if !m.is_empty() && g.chance(1, 3) {
            let i = g.usize(m.len());
            kk = *m.keys().nth(i).unwrap();
        }
        match g.weighted(&[10, 5, 4, 2]) {
            0 => {
                desc.push_str(&format!("insert {:?}; ", kk));
                t.insert(r(kk), step as u32);
                m.entry(kk).or_default().push(step as u32);
            },
            1 => {
                desc.push_str(&format!("remove {:?}; ", kk));
                if m.remove(&kk).is_some() {
                    removed += 1;
                }
                t.remove(r(kk));
            },
            2 => {
                desc.push_str(&format!("range {:?}; ", kk));
                let mut q = kk;
                if g.chance(1, 4) {
                    q.1 = q.0;
                }
                if m.keys().any(|a| a.0.max(q.0) <= a.1.min(q.1)) {
                    overlapped += 1;
                }
                if let Err(mut f) = check_query(&t, &m, q) {
                    f.msg = format!("{}\nafter {}", f.msg, desc);
                    return Err(f);
                }
            },
            _ => {
                ensure_eq!(t.get(r(kk)).map(|v| v.to_vec()), m.get(&kk).cloned(), "get", "get {:?} after {}", kk, desc);
                ensure_eq!(t.contains(r(kk)), m.contains_key(&kk), "contains", "contains {:?} after {}", kk, desc);
                ensure_eq!(t.get_or(r(kk), &[7]).to_vec(), m.get(&kk).cloned().unwrap_or(vec![7]), "get_or", "get_or {:?} after {}", kk, desc);
            },
        }
        if let Err(mut f) = check_all(&t, &m) {
            f.msg = format!("{}\nafter {}", f.msg, desc);
            return Err(f);
        }
    }
    // Query at all the interesting points at the end.
    let mut pts: Vec<u64> = m.keys().flat_map(|a| [a.0, a.1, a.1.saturating_add(1), a.0.saturating_sub(1)]).collect();
    pts.sort();
    pts.dedup();
    for (i, &p) in pts.iter().enumerate().take(80) {
        check_query(&t, &m, (p, p)).map_err(|mut f| { f.msg = format!("{}\nafter {}", f.msg, desc); f })?;
        let q = pts[(i * 7 + 3) % pts.len()];
        check_query(&t, &m, (p.min(q), p.max(q))).map_err(|mut f| { f.msg = format!("{}\nafter {}", f.msg, desc); f })?;
    }
    for kk in m.keys() {
        ensure_eq!(t.get(r(*kk)).map(|v| v.to_vec()), m.get(kk).cloned(), "get", "get {:?} after {}", kk, desc);
    }
    // clone and consuming iteration
    let got: Vec<((u64, u64), u32)> = t.clone().into_iter().map(|(a, b)| (k(&a), b)).collect();
    let want: Vec<((u64, u64), u32)> = m.iter().flat_map(|(a, v)| v.iter().map(move |&x| (*a, x))).collect();
    ensure_eq!(got, want, "into_iter", "consuming iteration after {}", desc);
    g.note(&desc);
    g.label_if(removed > 0, "removed existing");
    g.label_if(overlapped > 0, "non-empty overlap query");
    g.nontrivial(m.len() >= 3 && removed > 0);
    Ok(())
}

fn merge(g: &G) -> R {
    let span = *g.pick(&[6u64, 20, 60]);
    let mut trees = vec![];
    let mut all = M::new();
    for ti in 0..2u32 {
        let n = g.len(0, 40);
        let mut t = T::new();
        let mut m = M::new();
        for i in 0..n {
            let shape = g.usize(4);
            let kk = key(g, span, shape);
            t.insert(r(kk), ti * 1000 + i as u32);
            m.entry(kk).or_default().push(ti * 1000 + i as u32);
        }
        g.note(&format!("{:?}", m));
        trees.push(t);
        for (a, v) in m {
            all.entry(a).or_default().extend(v);
        }
    }
    let b = trees.pop().unwrap();
    let mut a = trees.pop().unwrap();
    g.nontrivial(!a.is_empty() && !b.is_empty());
    a.merge(b);
    check_all(&a, &all)?;
    for p in 0..span * 2 {
        check_query(&a, &all, (p, p + p % 3))?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "random histories of up to 150 insert/remove/get/overlap operations (point, short, long, nested, huge, monotone intervals; a third reuse existing keys) compared after every step with a sorted map of intervals; non-trivial: at least 3 keys left and an existing key was removed. Merging of two random trees.",
        assumptions: &["query ranges have start <= end"],
        subs: vec![
            Sub { name: "history", quick: 300_000, thorough: 10_000_000, run: history },
            Sub { name: "merge", quick: 100_000, thorough: 3_000_000, run: merge },
        ],
    }
}
