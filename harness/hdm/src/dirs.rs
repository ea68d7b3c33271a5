//! I03: directions form the compass group.
use dm::dmi::Dir;
use engine::*;

/// Unit vectors (x east, y north) in clockwise order from north.
const COMPASS: [(i32, i32); 8] = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1)];

fn pos(v: (i32, i32)) -> usize {
    COMPASS.iter().position(|&c| c == v).unwrap()
}
fn bits(v: (i32, i32)) -> i32 {
    (if v.1 > 0 { 1 } else { 0 }) | (if v.1 < 0 { 2 } else { 0 }) | (if v.0 > 0 { 4 } else { 0 }) | (if v.0 < 0 { 8 } else { 0 })
}

fn apply(op: usize, d: Dir) -> Dir {
    match op {
        0 => d.flip(),
        1 => d.flip_ns(),
        2 => d.flip_ew(),
        3 => d.clockwise_45(),
        4 => d.counterclockwise_45(),
        5 => d.clockwise_90(),
        _ => d.counterclockwise_90(),
    }
}
fn model(op: usize, v: (i32, i32)) -> (i32, i32) {
    match op {
        0 => (-v.0, -v.1),
        1 => (v.0, -v.1),
        2 => (-v.0, v.1),
        3 => COMPASS[(pos(v) + 1) % 8],
        4 => COMPASS[(pos(v) + 7) % 8],
        5 => COMPASS[(pos(v) + 2) % 8],
        _ => COMPASS[(pos(v) + 6) % 8],
    }
}
const OPS: [&str; 7] = ["flip", "flip_ns", "flip_ew", "cw45", "ccw45", "cw90", "ccw90"];

fn sequences(g: &G) -> R {
    let start = *g.pick(&COMPASS);
    let n = g.len(0, 12);
    let ops: Vec<usize> = (0..n).map(|_| g.usize(7)).collect();
    g.note(&format!("start {:?} ops {:?}", start, ops.iter().map(|&o| OPS[o]).collect::<Vec<_>>()));
    g.nontrivial(n >= 1);
    let mut v = start;
    let Some(mut d) = Dir::from_int(bits(v)) else { return fail("from_int", format!("from_int({}) is None", bits(v))) };
    for &o in &ops {
        let before = d;
        d = apply(o, d);
        v = model(o, v);
        ensure!(d.to_int() == bits(v), OPS[o], "{} of {:?} gives {:?}, compass says {:?}", OPS[o], before, d, v);
    }
    ensure_eq!(d.offset(), v, "offset", "offset of {:?}", d);
    ensure_eq!(d.is_diagonal(), v.0 != 0 && v.1 != 0, "is_diagonal", "is_diagonal of {:?}", d);
    ensure_eq!(Dir::CARDINALS.contains(&d), v.0 == 0 || v.1 == 0, "CARDINALS", "cardinal list and {:?}", d);
    ensure_eq!(Dir::DIAGONALS.contains(&d), v.0 != 0 && v.1 != 0, "DIAGONALS", "diagonal list and {:?}", d);
    ensure!(Dir::ALL.contains(&d), "ALL", "{:?} is not in the list of all", d);
    // containment of cardinal components
    for c in Dir::CARDINALS {
        ensure_eq!(d.contains(*c), d.to_int() & c.to_int() == c.to_int(), "contains", "{:?} contains {:?}", d, c);
    }
    Ok(())
}

fn ints(g: &G) -> R {
    let n = if g.chance(3, 4) { g.range(-4, 20) as i32 } else { g.u64() as i32 };
    g.note(&format!("{}", n));
    g.nontrivial(true);
    let expect = COMPASS.iter().any(|&v| bits(v) == n);
    match Dir::from_int(n) {
        Some(d) => {
            ensure!(expect, "from_int", "from_int({}) = {:?} is not a direction", n, d);
            ensure_eq!(d.to_int(), n, "roundtrip", "to_int(from_int({}))", n);
        },
        None => ensure!(!expect, "from_int", "from_int({}) is None", n),
    }
    ensure!(Dir::ALL.len() == 8 && Dir::CARDINALS.len() == 4 && Dir::DIAGONALS.len() == 4, "lists", "direction lists have wrong sizes");
    for (i, a) in Dir::ALL.iter().enumerate() {
        for b in &Dir::ALL[..i] {
            ensure!(a != b, "lists", "duplicate direction {:?}", a);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "I03",
        rule: "random start direction and sequence of up to 12 of the 7 operations, compared step by step with unit-vector geometry (non-trivial: at least one operation); integers in and around the valid range",
        assumptions: &["compass geometry: x east, y north; direction bits N=1 S=2 E=4 W=8"],
        subs: vec![
            Sub { name: "sequences", quick: 20_000, thorough: 400_000, run: sequences },
            Sub { name: "ints", quick: 5_000, thorough: 50_000, run: ints },
        ],
    }
}
