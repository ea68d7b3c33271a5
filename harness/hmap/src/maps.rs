//! M01 (saving and reloading), M02 (reading), M03 (malformed maps).
use dm::constants::{ConstFn, Constant, Pop};
use dm::Location;
use dmm_tools::dmm::{Coord2, Coord3, Key, Map, Prefab};
use engine::{ensure, ensure_eq, fail, Prop, Sub, G, R};
use std::collections::BTreeMap;
use std::path::PathBuf;

pub const B52: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub fn key_text(mut k: usize, len: usize) -> String {
    let mut v = vec![b'a'; len];
    for c in v.iter_mut().rev() {
        *c = B52[k % 52];
        k /= 52;
    }
    String::from_utf8(v).unwrap()
}

fn keys(n: usize) -> Vec<Key> {
    let mut v = Vec::with_capacity(n);
    let mut k = Key::default();
    for i in 0..n {
        v.push(k);
        if i + 1 < n {
            k = k.next();
        }
    }
    v
}

pub fn write(g: &G, name: &str, bytes: &[u8]) -> PathBuf {
    let p = g.scratch().join(name);
    std::fs::write(&p, bytes).expect("write");
    p
}

fn load(g: &G, name: &str, bytes: &[u8]) -> Result<Map, dm::DMError> {
    Map::from_file(&write(g, name, bytes))
}

// ------------------------------------------------------------------------------------------------
// values

fn rstr(g: &G) -> String {
    let mut s = String::new();
    for _ in 0..g.usize(6) {
        s.push_str(g.pick(&["a", "word", " ", "\\\"", "\\n", "}", "{", ";", ",", ")", "(", "//", "/*", "'", "\\\\", "\t", "é", "=", "#", "\\[", "]"]));
    }
    s
}

fn num(g: &G) -> f32 {
    match g.usize(4) {
        0 => g.range(-20, 20) as f32,
        1 => g.range(-999_999, 999_999) as f32,
        2 => g.range(-999_999, 999_999) as f32 / *g.pick(&[10.0f32, 1000.0, 4.0, 64.0]),
        _ => *g.pick(&[0.5f32, 1e7, 1.5e-7, 1e10, 3.25e20]),
    }
}

fn six(f: f32) -> f32 {
    format!("{:.5e}", f).parse().unwrap()
}

fn path(g: &G) -> String {
    g.pick(&["/obj", "/obj/item/a", "/turf/open", "/mob/living", "/datum/x_1", "/area/a/b/c"]).to_string()
}

pub fn value(g: &G, d: usize) -> Constant {
    let args = |g: &G| -> Box<[(Constant, Option<Constant>)]> {
        (0..g.usize(4))
            .map(|_| {
                let assoc = g.chance(1, 3);
                let k = if assoc { Constant::string(*g.pick(&["k", "a b", "size"])) } else { value(g, d - 1) };
                (k, if assoc { Some(value(g, d - 1)) } else { None })
            })
            .collect::<Vec<_>>()
            .into()
    };
    match if d == 0 { g.usize(5) } else { g.weighted(&[2, 3, 4, 2, 1, 2, 2, 1]) } {
        0 => Constant::Null(None),
        1 => Constant::Float(six(num(g))),
        2 => Constant::string(rstr(g)),
        3 => Constant::Resource((*g.pick(&["a.dmi", "icons/x y.dmi", "it's", "a;b.dmi", "a}b.png", "x//y.ogg", "q\"q.dmi"])).into()),
        4 => Constant::Prefab(Box::new(Pop::from_path_str(&path(g)))),
        5 => Constant::List(args(g)),
        6 => {
            let mut p = Pop::from_path_str(&path(g));
            for n in ["name", "dir", "x"].iter().take(g.usize(4)) {
                p.vars.insert((*n).into(), value(g, d - 1));
            }
            Constant::Prefab(Box::new(p))
        },
        _ => Constant::Call(*g.pick(&[ConstFn::Newlist, ConstFn::Icon, ConstFn::Matrix, ConstFn::Sound]), args(g)),
    }
}

pub fn prefab(g: &G, paths: &[&str], depth: usize) -> Prefab {
    let mut p = Prefab::from_path(*g.pick(paths));
    let mut names = ["name", "dir", "icon_state", "tag", "pixel_x", "_v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10", "v11"];
    g.shuffle(&mut names[..if g.chance(1, 20) { 16 } else { 6 }]);
    let n = if g.chance(1, 30) { 5 + g.usize(11) } else { g.weighted(&[4, 2, 2, 1, 1]) };
    for n in names.iter().take(n) {
        p.vars.insert(n.to_string(), value(g, depth));
    }
    p
}

const PATHS: &[&str] = &["/turf/floor", "/turf/wall", "/area/a", "/obj/item/x_1", "/obj/y", "/mob/living/z"];

fn same_prefabs(a: &[Prefab], b: &[Prefab]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| a.path == b.path && a.vars.len() == b.vars.len() && a.vars.iter().zip(&b.vars).all(|((k, v), (l, w))| k == l && v == w))
}

// ------------------------------------------------------------------------------------------------
// M01

fn same_map(a: &Map, b: &Map, what: &str, text: &str) -> R {
    ensure_eq!(b.dim_xyz(), a.dim_xyz(), "size", "size of the {} map\n{}", what, text);
    ensure_eq!(b.key_length(), a.key_length(), "key length", "key length of the {} map\n{}", what, text);
    let (ka, kb): (Vec<_>, Vec<_>) = (a.dictionary.keys().collect(), b.dictionary.keys().collect());
    ensure_eq!(kb, ka, "keys", "dictionary keys of the {} map\n{}", what, text);
    for (k, v) in &a.dictionary {
        let w = &b.dictionary[k];
        ensure!(same_prefabs(v, w), "prefabs", "{:?} of the {} map is {:?}, not {:?} in\n{}", k, what, w, v, text);
    }
    let (x, y, z) = a.dim_xyz();
    for c in (1..=z as i32).flat_map(|z| (1..=y as i32).flat_map(move |y| (1..=x as i32).map(move |x| Coord3::new(x, y, z)))) {
        ensure_eq!(b[c], a[c], "grid", "key at {} of the {} map\n{}", c, what, text);
    }
    Ok(())
}

fn save_both(g: &G, map: &Map) -> Result<Vec<u8>, engine::Fail> {
    let mut bytes = vec![];
    map.to_writer(&mut bytes).expect("write");
    let p = g.scratch().join("saved.dmm");
    map.to_file(&p).expect("write");
    ensure_eq!(std::fs::read(&p).unwrap(), bytes, "to_file", "to_file and to_writer");
    Ok(bytes)
}

fn round_trip(g: &G, map: &Map) -> R {
    let bytes = save_both(g, map)?;
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let text: String = text.chars().take(6000).collect();
    let back = match Map::from_file(&g.scratch().join("saved.dmm")) {
        Ok(m) => m,
        Err(e) => return fail("reload", format!("{}:{}: {} for\n{}", e.location().line, e.location().column, e.description(), text)),
    };
    same_map(map, &back, "reloaded", &text)?;
    let again = save_both(g, &back)?;
    ensure!(again == bytes, "rewrite", "writing the reloaded map gives\n{}\ninstead of\n{}", String::from_utf8_lossy(&again), text);
    Ok(())
}

fn built(g: &G) -> R {
    let (mut x, mut y, mut z) = (1 + g.usize(6), 1 + g.usize(6), 1 + g.usize(3));
    if g.chance(1, 12) {
        // more than one digit
        *[&mut x, &mut y, &mut z][g.usize(3)] += 6 + g.usize(12);
    }
    let n = match g.weighted(&[60, 12, 3, 1]) {
        0 => 1 + g.usize(6),
        1 => *g.pick(&[51, 52, 53, 54, 104, 105]),
        2 => *g.pick(&[2703, 2704, 2705, 2706, 5500]),
        _ => *g.pick(&[65534, 65535, 40000]),
    };
    let all = keys(n);
    let mut used: Vec<Key> = vec![];
    // the first and last keys, and some in between
    let max = if n > 60 { 8 } else { n };
    for i in 0..max {
        let i = if n > 60 {
            match i {
                0 => n - 1,
                1 => 0,
                2 => 52.min(n - 1),
                _ => g.usize(n),
            }
        } else {
            i
        };
        if !used.contains(&all[i]) && (i == 0 || g.chance(4, 5) || used.is_empty()) {
            used.push(all[i]);
        }
    }
    let mut map = if g.bool() { Map::new(x, y, z, "/turf/floor".into(), "/area/a".into()) } else { Map::with_empty_dictionary(x, y, z) };
    let mut vars = 0;
    for &k in &used {
        let depth = if n > 60 { 0 } else { 2 };
        let v: Vec<Prefab> = (0..1 + g.usize(3)).map(|_| prefab(g, PATHS, depth)).collect();
        vars += v.iter().map(|p| p.vars.len()).sum::<usize>();
        map.dictionary.insert(k, v);
    }
    for c in map.grid.iter_mut() {
        *c = *g.pick(&used);
    }
    map.adjust_key_length();
    let max = *map.dictionary.keys().max().unwrap();
    let want = all.iter().position(|k| *k == max).unwrap();
    let want = if want >= 2704 { 3 } else if want >= 52 { 2 } else { 1 };
    ensure_eq!(map.key_length(), want, "key length", "key length for {} keys", n);
    for (i, k) in all.iter().enumerate().step_by(1 + n / 200) {
        if i < 52usize.pow(want as u32) {
            ensure_eq!(map.format_key(*k).to_string(), key_text(i, want as usize), "key text", "text of key {}", i);
        }
    }
    if n <= 60 {
        let mut s = vec![];
        map.to_writer(&mut s).expect("write");
        g.note(&String::from_utf8_lossy(&s));
    } else {
        g.note(&format!("{}x{}x{} with {} of {} keys {:?}", x, y, z, used.len(), n, map.grid.iter().collect::<Vec<_>>()));
    }
    g.label_if(n > 52, "long keys");
    g.nontrivial(map.dictionary.len() >= 2 && vars >= 1 && x * y * z >= 2);
    round_trip(g, &map)
}

fn reread(g: &G) -> R {
    let m = model(g);
    let text = m.text(g);
    g.note(&text);
    let map = match load(g, "in.dmm", text.as_bytes()) {
        Ok(m) => m,
        Err(e) => return fail("load", format!("{} for\n{}", e, text)),
    };
    g.nontrivial(map.dictionary.len() >= 2 && m.size.0 * m.size.1 * m.size.2 >= 2);
    round_trip(g, &map)
}

pub fn m01() -> Prop {
    Prop {
        id: "M01",
        rule: "at least two keys, two tiles and (for built maps) a variable",
        assumptions: &["numbers have at most six significant digits (the printed precision)", "tiles hold at least one object", "strings are as one quoted literal spells them (no line breaks or bare quotes)"],
        subs: vec![
            Sub { name: "built", quick: 20000, thorough: 600000, run: built },
            Sub { name: "reread", quick: 10000, thorough: 300000, run: reread },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// M02

#[derive(Clone)]
pub struct Model {
    pub size: (usize, usize, usize),
    pub key_len: usize,
    /// key text -> objects (path, variables as text)
    pub dict: Vec<(String, Vec<(String, Vec<(String, String)>)>)>,
    /// index into dict by (x, y, z), 1-based
    pub grid: BTreeMap<(usize, usize, usize), usize>,
}

fn literal(g: &G) -> String {
    let s = |g: &G| {
        let mut s = String::from("\"");
        for _ in 0..g.usize(5) {
            s.push_str(g.pick(&["a", "word", " ", "\\\"", "\\n", "}", "{", ";", ",", ")", "(", "//", "/*", "'", "\\\\", "é", "=", "#", "\\[", "\\]", "\\t"]));
        }
        s.push('"');
        s
    };
    match g.usize(9) {
        0 => g.range(-50, 500).to_string(),
        1 => s(g),
        2 => g.pick(&["'icons/a.dmi'", "'x y.png'", "'a.b.c'"]).to_string(),
        3 => "null".into(),
        4 => path(g),
        5 => format!("list({},{})", s(g), g.range(0, 9)),
        6 => format!("list(\"a\" = {},\"b\" = {})", g.range(0, 9), s(g)),
        7 => format!("{}{{name = {}; dir = {}}}", path(g), s(g), g.range(1, 10)),
        _ => g.pick(&["1.5", "-0.25", "1e+007", "newlist(/obj/x,/obj/y)", "newlist(/obj/x{dir = 4})", "\"\""]).to_string(),
    }
}

pub fn model(g: &G) -> Model {
    let size = (1 + g.usize(5), 1 + g.usize(5), 1 + g.usize(3));
    let key_len = 1 + g.weighted(&[3, 2, 2]);
    let max = [52usize, 2704, 65535][key_len - 1];
    let mut dict: Vec<(String, Vec<(String, Vec<(String, String)>)>)> = vec![];
    for i in 0..1 + g.usize(5) {
        let k = if g.bool() { i } else { g.usize(max) };
        let k = key_text(k, key_len);
        if dict.iter().any(|d| d.0 == k) {
            continue;
        }
        let objs = (0..1 + g.usize(4))
            .map(|_| {
                let mut names = ["name", "dir", "icon_state", "tag", "pixel_x", "_v1"];
                g.shuffle(&mut names);
                (g.pick(PATHS).to_string(), names.iter().take(g.weighted(&[3, 2, 2, 1])).map(|n| (n.to_string(), literal(g))).collect())
            })
            .collect();
        dict.push((k, objs));
    }
    let mut grid = BTreeMap::new();
    for z in 1..=size.2 {
        for y in 1..=size.1 {
            for x in 1..=size.0 {
                grid.insert((x, y, z), g.usize(dict.len()));
            }
        }
    }
    Model { size, key_len, dict, grid }
}

impl Model {
    pub fn text(&self, g: &G) -> String {
        let nl = if g.chance(1, 3) { "\r\n" } else { "\n" };
        let tgm = g.bool();
        let columns = if g.chance(1, 5) { !tgm } else { tgm };
        let mut s = String::new();
        // hand-edited files put spaces where the editor does not
        let loose = g.chance(1, 5);
        let sp = |g: &G, s: &mut String| {
            if loose {
                for _ in 0..g.usize(3) {
                    s.push(' ');
                }
            }
        };
        if tgm {
            s.push_str("//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE");
            s.push_str(nl);
        }
        for (k, objs) in &self.dict {
            if g.chance(1, 12) {
                s.push_str(&format!("// a comment (\"{}\" = ){}", k, nl));
            }
            s.push_str(&format!("\"{}\" = (", k));
            if tgm {
                s.push_str(nl);
            }
            for (i, (p, vars)) in objs.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                    if tgm {
                        s.push_str(nl);
                    }
                }
                sp(g, &mut s);
                s.push_str(p);
                sp(g, &mut s);
                if !vars.is_empty() {
                    s.push('{');
                    for (j, (n, v)) in vars.iter().enumerate() {
                        if tgm {
                            s.push_str(nl);
                            s.push('\t');
                        }
                        sp(g, &mut s);
                        s.push_str(n);
                        s.push_str(if loose { g.pick(&["=", " =", "= ", "  =  ", " =   "]) } else { " = " });
                        s.push_str(v);
                        sp(g, &mut s);
                        if j + 1 < vars.len() {
                            s.push_str(if tgm { ";" } else { "; " });
                        }
                    }
                    sp(g, &mut s);
                    if tgm {
                        s.push_str(nl);
                        s.push('\t');
                    }
                    s.push('}');
                    sp(g, &mut s);
                }
            }
            s.push(')');
            s.push_str(nl);
        }
        s.push_str(nl);
        let key = |x, y, z| &self.dict[self.grid[&(x, y, z)]].0;
        let mut blocks = vec![];
        for z in 1..=self.size.2 {
            if columns {
                for x in 1..=self.size.0 {
                    let mut b = format!("({},1,{}) = {{\"{}", x, z, nl);
                    for y in (1..=self.size.1).rev() {
                        b.push_str(key(x, y, z));
                        b.push_str(nl);
                    }
                    b.push_str("\"}");
                    b.push_str(nl);
                    blocks.push(b);
                }
            } else {
                let mut b = format!("(1,1,{}) = {{\"{}", z, nl);
                for y in (1..=self.size.1).rev() {
                    for x in 1..=self.size.0 {
                        b.push_str(key(x, y, z));
                    }
                    b.push_str(nl);
                }
                b.push_str("\"}");
                b.push_str(nl);
                blocks.push(b);
            }
        }
        if g.chance(1, 8) {
            g.shuffle(&mut blocks);
        }
        for b in blocks {
            s.push_str(&b);
            if g.bool() {
                s.push_str(nl);
            }
        }
        s
    }
}

fn hash(p: &Prefab) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

/// Two objects are equal when they have the same path and the same variables, in any order.
fn equality(g: &G) -> R {
    let a = prefab(g, &PATHS[..2], 1);
    let mut b = Prefab::from_path(if g.chance(1, 6) { g.pick(&PATHS[..2]).to_string() } else { a.path.clone() });
    let mut same = a.path == b.path;
    let mut vars: Vec<(String, Constant)> = a.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    g.shuffle(&mut vars);
    match g.usize(4) {
        0 if !vars.is_empty() => {
            vars.pop();
            same = false;
        },
        1 => {
            vars.push(("another".into(), value(g, 0)));
            same = false;
        },
        2 if !vars.is_empty() => {
            let i = g.usize(vars.len());
            let v = value(g, 1);
            same &= v == vars[i].1;
            vars[i].1 = v;
        },
        3 if !vars.is_empty() => {
            let i = g.usize(vars.len());
            vars[i].0.push('_');
            same = false;
        },
        _ => {},
    }
    b.vars.extend(vars);
    g.note(&format!("{}\n{}", a, b));
    g.nontrivial(a.vars.len() >= 2);
    g.label(if same { "equal" } else { "different" });
    ensure_eq!(a == b, same, "equality", "{} == {}", a, b);
    ensure_eq!(b == a, same, "equality", "{} == {}", b, a);
    ensure_eq!(vec![a.clone()] == vec![b.clone()], same, "equality", "tiles of {} and {}", a, b);
    if same {
        ensure_eq!(hash(&a), hash(&b), "hash", "hashes of {} and {}", a, b);
    }
    Ok(())
}

fn reading(g: &G) -> R {
    let m = model(g);
    let text = m.text(g);
    g.note(&text);
    let map = match load(g, "in.dmm", text.as_bytes()) {
        Ok(m) => m,
        Err(e) => return fail("load", format!("{} for\n{}", e, text)),
    };
    ensure_eq!(map.dim_xyz(), m.size, "size", "size of\n{}", text);
    ensure_eq!(map.dim_z(), m.size.2, "size", "levels of\n{}", text);
    ensure_eq!(map.key_length() as usize, m.key_len, "key length", "key length of\n{}", text);
    ensure_eq!(map.dictionary.len(), m.dict.len(), "keys", "number of keys of\n{}", text);
    let mut want: Vec<(String, Vec<Prefab>)> = vec![];
    for (k, objs) in &m.dict {
        let mut v = vec![];
        for (p, vars) in objs {
            let mut f = Prefab::from_path(p.as_str());
            for (n, t) in vars {
                let c = match dm::constants::evaluate_str(Location::default(), t.as_bytes()) {
                    Ok(c) => c,
                    Err(_) => return g.discard(),
                };
                f.vars.insert(n.clone(), c);
            }
            v.push(f);
        }
        want.push((k.clone(), v));
    }
    let check = |k: Key, x: i32, y: i32, z: i32, how: &str| -> R {
        let w = &want[m.grid[&(x as usize, y as usize, z as usize)]];
        let Some(v) = map.dictionary.get(&k) else {
            return fail("key", format!("({}, {}, {}) ({}) has the key {:?}, which is not in the dictionary of\n{}", x, y, z, how, k, text));
        };
        ensure_eq!(map.format_key(k).to_string(), w.0, "key", "key at ({}, {}, {}) ({}) of\n{}", x, y, z, how, text);
        ensure!(same_prefabs(v, &w.1), "objects", "({}, {}, {}) ({}) holds {:?}, not {:?} in\n{}", x, y, z, how, v, w.1, text);
        Ok(())
    };
    let mut levels = 0;
    for (z, level) in map.iter_levels() {
        levels += 1;
        let mut n = 0;
        for (c, k) in level.iter_top_down() {
            // row-major from the top left
            ensure_eq!(c, Coord2::new(n % m.size.0 as i32 + 1, m.size.1 as i32 - n / m.size.0 as i32), "order", "tile {} of level {} of\n{}", n, z, text);
            check(k, c.x, c.y, z, "iter_top_down")?;
            check(level[c], c.x, c.y, z, "level[xy]")?;
            check(map[c.z(z)], c.x, c.y, z, "map[xyz]")?;
            check(map.z_level(z as usize - 1)[c], c.x, c.y, z, "z_level")?;
            ensure_eq!(c.z(z).xy(), c, "coordinates", "xy of xyz");
            n += 1;
        }
        ensure_eq!(n as usize, m.size.0 * m.size.1, "order", "tiles of level {} of\n{}", z, text);
    }
    ensure_eq!(levels, m.size.2, "size", "levels of\n{}", text);
    for (k, w) in &want {
        let have = map.dictionary.iter().find(|(i, _)| map.format_key(**i).to_string() == *k);
        ensure!(have.is_some_and(|h| same_prefabs(h.1, &w)), "objects", "{} is {:?}, not {:?} in\n{}", k, have, w, text);
    }
    g.nontrivial(m.dict.len() >= 2 && m.size.0 * m.size.1 * m.size.2 >= 4);
    Ok(())
}

pub fn m02() -> Prop {
    Prop {
        id: "M02",
        rule: "at least two keys and four tiles",
        assumptions: &["the value a literal stands for is evaluate_str's (checked on its own by C02, C11, C12)", "files are laid out as the map editor or the TGM converter lay them out, with either line ending, comment lines, and blocks in any order"],
        subs: vec![
            Sub { name: "reading", quick: 40000, thorough: 1000000, run: reading },
            Sub { name: "equality", quick: 20000, thorough: 600000, run: equality },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// M03 (maps)

pub fn mutate(g: &G, mut b: Vec<u8>, tokens: &[&str]) -> Vec<u8> {
    for _ in 0..1 + g.usize(4) {
        let i = g.usize(b.len() + 1);
        match g.usize(7) {
            0 => {
                b.truncate(i);
            },
            1 => {
                let j = (i + 1 + g.usize(8)).min(b.len());
                if i < j {
                    b.drain(i..j);
                }
            },
            2 => {
                let t = g.pick(tokens).as_bytes().to_vec();
                b.splice(i..i, t);
            },
            3 => {
                let t = g.pick(tokens).as_bytes().to_vec();
                let j = (i + t.len()).min(b.len());
                b.splice(i..j, t);
            },
            4 => {
                let j = (i + g.usize(40)).min(b.len());
                let part = b[i..j].to_vec();
                let k = g.usize(b.len() + 1);
                b.splice(k..k, part);
            },
            5 => {
                if i < b.len() {
                    b[i] = g.below(256) as u8;
                }
            },
            _ => {
                if i < b.len() {
                    b[i] ^= 1 << g.usize(8);
                }
            },
        }
    }
    b
}

const MAP_TOKENS: &[&str] = &["\"", "(", ")", "{", "}", ",", ";", "=", "\n", "\r\n", "\t", " ", "//", "/", "\\", "a", "aa", "aaa", "zzz", "ymo", "ymp", "ZZZZ", "(1,1,1) = {\"", "\"}", "/obj", "1", "0", "2", "-1", "99999999999999999999", "4294967296", "2000000000", "500000", "name = 1", "null", "'a'", "list(", "\"a\" = (/turf)", "(0,0,0)", "(1,1)", "(1,1,1,1)", "é", "[", "]", "\0"];

fn bad_map(g: &G) -> R {
    let mut b = match g.usize(4) {
        0 => {
            let mut s = String::new();
            for _ in 0..g.len(1, 60) {
                s.push_str(g.pick(MAP_TOKENS));
            }
            s.into_bytes()
        },
        1 => (0..g.len(0, 200)).map(|_| g.below(256) as u8).collect(),
        _ => {
            let m = model(g);
            mutate(g, m.text(g).into_bytes(), MAP_TOKENS)
        },
    };
    if g.chance(1, 40) {
        // long keys
        let n = *g.pick(&[3usize, 255, 256, 257, 300, 70000]);
        b.splice(0..0, format!("\"{}\" = (/turf)\n", "a".repeat(n)).into_bytes());
    }
    g.note(&format!("{:?}", String::from_utf8_lossy(&b)));
    let p = write(g, "in.dmm", &b);
    match Map::from_file(&p) {
        Ok(m) => {
            let (x, y, z) = m.dim_xyz();
            ensure!(x * y * z <= b.len(), "size", "a map of {} tiles from {} bytes", x * y * z, b.len());
            g.label("loads");
        },
        Err(_) => g.label("rejected"),
    }
    g.nontrivial(b.len() >= 20);
    Ok(())
}

/// After loading, using the map does not crash either.
pub fn m03_sub() -> Sub {
    Sub { name: "map", quick: 60000, thorough: 2000000, run: bad_map }
}

/// A file that ends early is not a smaller map.
fn cut_map(g: &G) -> R {
    let m = model(g);
    let text = m.text(g);
    let grid = text.find("\n(").expect("grid") + 1;
    // mostly within the grid, which may be a small part of it
    let mut i = if g.chance(2, 3) { grid + g.usize(text.len() - grid) } else { g.usize(grid + 1) };
    while !text.is_char_boundary(i) {
        i -= 1;
    }
    let cut = &text[..i];
    // between two blocks, what there is can be a whole map
    let whole = i > grid && cut[cut.rfind("\n(").map_or(0, |b| b + 1)..].split('"').count() == 3;
    g.label(if i <= grid { "in the dictionary" } else if whole { "between blocks" } else { "in a block" });
    g.note(cut);
    g.nontrivial(!whole);
    let p = write(g, "in.dmm", cut.as_bytes());
    let loaded = Map::from_file(&p);
    if let (false, Ok(map)) = (whole, &loaded) {
        return fail("cut", format!("a map of {:?} where it ends after {} of {} bytes: {:?}", map.dim_xyz(), i, text.len(), cut));
    }
    Ok(())
}

pub fn m03_cut() -> Sub {
    Sub { name: "cut-map", quick: 20000, thorough: 500000, run: cut_map }
}

/// A grid that gives a tile nothing, two keys, part of a key, or a key that is not defined.
fn bad_grid(g: &G) -> R {
    let m = model(g);
    let text = m.text(g);
    let nl = if text.contains("\r\n") { "\r\n" } else { "\n" };
    let grid = text.find("\n(").expect("grid") + 1;
    let (head, tail) = text.split_at(grid);
    let mut blocks: Vec<String> = tail.split_inclusive("\"}").map(|b| b.to_string()).collect();
    blocks.retain(|b| b.contains('('));
    let i = g.usize(blocks.len());
    let b = blocks[i].clone();
    let rows = b.find('"').unwrap() + 1 + nl.len();
    let end = b.rfind('"').unwrap();
    let row = b[rows..].find(nl).unwrap();
    let (x, y, z) = m.size;
    let (width, height) = (row / m.key_len, (end - rows) / (row + nl.len()));
    let at = rows + g.usize(height) * (row + nl.len()) + g.usize(width) * m.key_len;
    let (_, coords) = b.split_once('(').unwrap();
    let coords: Vec<&str> = coords[..coords.find(')').unwrap()].split(',').collect();
    let how = g.usize(8);
    let mut b = b.clone();
    let what = match how {
        0 => {
            blocks.push(b.clone());
            "a block twice"
        },
        1 => {
            let used = |k: &str| m.dict.iter().any(|d| d.0 == k);
            let k = key_text(g.usize([52usize, 2704, 65535][m.key_len - 1]), m.key_len);
            if used(&k) {
                return g.discard();
            }
            b.replace_range(at..at + m.key_len, &k);
            "an undefined key"
        },
        2 => {
            // the rest could be a whole map
            if x * y == 1 || z == 1 && (x == 1 || y == 1) {
                return g.discard();
            }
            b.replace_range(at..at + m.key_len, "");
            "a tile left out"
        },
        3 => {
            b.insert_str(at, &b[at..at + 1].to_string());
            if m.key_len == 1 && z == 1 && y == 1 {
                return g.discard();
            }
            "a letter too many"
        },
        4 => {
            if m.key_len == 1 {
                return g.discard();
            }
            b.remove(at);
            "a letter left out"
        },
        5 => {
            let mut c: Vec<&str> = coords.clone();
            if g.bool() {
                c.pop();
            } else {
                c.push("1");
            }
            b = format!("({}){}", c.join(","), &b[b.find(')').unwrap() + 1..]);
            "a wrong number of coordinates"
        },
        6 => {
            let mut c: Vec<&str> = coords.clone();
            c[g.usize(3)] = *g.pick(&["0", "x", "-1", "99999999999999999999"]);
            b = format!("({}){}", c.join(","), &b[b.find(')').unwrap() + 1..]);
            "a bad coordinate"
        },
        _ => {
            if blocks.len() == 1 {
                return g.discard();
            }
            // as if the rows of another column or level were of another height
            let r = if g.bool() { format!("{}{}", &b[rows..rows + row], nl) } else { String::new() };
            b = format!("{}{}{}", &b[..rows], r.repeat(height + 1), &b[end..]);
            "a block of another height"
        },
    };
    if how != 0 {
        blocks[i] = b;
    }
    let bad = format!("{}{}", head, blocks.concat());
    g.label(what);
    g.note(&bad);
    g.nontrivial(x * y * z >= 2);
    if let Ok(map) = Map::from_file(&write(g, "in.dmm", bad.as_bytes())) {
        return fail("bad grid", format!("{} ({} instead of {:?}) is read as a map of {:?}\n{}", what, how, m.size, map.dim_xyz(), bad));
    }
    Ok(())
}

/// Keys of different lengths in one dictionary, or entries without a key.
fn bad_keys(g: &G) -> R {
    let m = model(g);
    let text = m.text(g);
    let i = g.usize(m.dict.len());
    let k = &m.dict[i].0;
    let from = format!("\"{}\" = (", k);
    let (other, what) = match g.usize(3) {
        0 => (key_text(g.usize(52), if m.key_len == 1 { 2 } else { m.key_len - 1 }), "a key of another length"),
        1 => (format!("{}-", &k[1..]), "a key with a sign in it"),
        _ => (String::new(), "an entry without a key"),
    };
    if other.len() != m.key_len && !other.is_empty() && m.dict.len() == 1 {
        return g.discard();
    }
    let to = if other.is_empty() { g.pick(&["(", "\"\" = ("]).to_string() } else { format!("\"{}\" = (", other) };
    // not the mention in a comment
    let Some(at) = text.find(&format!("\n{}", from)).map(|i| i + 1).or(if text.starts_with(&from) { Some(0) } else { None }) else {
        return g.discard();
    };
    let bad = format!("{}{}{}", &text[..at], to, &text[at + from.len()..]);
    g.label(what);
    g.note(&bad);
    g.nontrivial(m.dict.len() >= 2);
    if let Ok(map) = Map::from_file(&write(g, "in.dmm", bad.as_bytes())) {
        return fail("bad keys", format!("{} is read as a map of {:?}\n{}", what, map.dim_xyz(), bad));
    }
    Ok(())
}

pub fn m03_bad() -> Vec<Sub> {
    vec![
        Sub { name: "bad-grid", quick: 20000, thorough: 500000, run: bad_grid },
        Sub { name: "bad-keys", quick: 10000, thorough: 300000, run: bad_keys },
    ]
}
