//! T01, T02: the command line tools for maps.
use crate::maps::{self, Model};
use crate::render::{self, Fab, World};
use dmm_tools::dmi::Image;
use dmm_tools::dmm::Map;
use dmm_tools::minimap;
use engine::{ensure, ensure_eq, fail, Prop, Sub, G, R};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::RwLock;

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}

fn dmm_tools(cwd: &Path, args: &[String], input: Option<&str>) -> Ran {
    let exe = PathBuf::from(std::env::var("PBT_BIN_DIR").expect("PBT_BIN_DIR")).join("dmmcli");
    let mut child = Command::new(exe)
        .args(args)
        .current_dir(cwd)
        .env_clear()
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("dmmcli");
    if let Some(text) = input {
        let mut pipe = child.stdin.take().unwrap();
        let _ = pipe.write_all(text.as_bytes());
    }
    let out = child.wait_with_output().expect("dmmcli");
    Ran { code: out.status.code(), out: String::from_utf8_lossy(&out.stdout).into(), err: String::from_utf8_lossy(&out.stderr).into() }
}

fn sane(r: &Ran, what: &str) -> R {
    ensure!(!r.err.contains("panicked at") && r.code.is_some(), "tool:panic", "ended with {:?}: {}\n{}", r.code, r.err, what);
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// T01

type Tile = Vec<(String, Vec<(String, String)>)>;

/// distinct spellings of distinct values
const VALUES: &[&str] = &["1", "2", "3.5", "\"a\"", "\"b\"", "\"\"", "null", "'i.dmi'", "/obj", "/obj/a", "list(1,2)", "list(2,1)", "list(\"a\" = 1)", "/obj{dir = 4}", "-1", "\"1\""];

fn contents(t: &Tile) -> Vec<(String, BTreeMap<String, String>)> {
    t.iter().map(|(p, v)| (p.clone(), v.iter().cloned().collect())).collect()
}

fn shuffled(g: &G, t: &Tile) -> Tile {
    let mut t = t.clone();
    for o in &mut t {
        g.shuffle(&mut o.1);
    }
    t
}

/// Writes the same map with other keys, some contents under several keys, and unused entries.
fn rekey(g: &G, m: &Model) -> Model {
    let key_len = 1 + g.weighted(&[2, 2, 1]);
    let max = [52usize, 2704, 65535][key_len - 1];
    let mut dict: Vec<(String, Tile)> = vec![];
    let mut places: Vec<Vec<usize>> = vec![vec![]; m.dict.len()];
    let mut order: Vec<usize> = (0..m.dict.len()).collect();
    order.extend((0..g.usize(3)).map(|_| g.usize(m.dict.len())));
    g.shuffle(&mut order);
    for i in order {
        let mut k = g.usize(max);
        while dict.iter().any(|d| d.0 == maps::key_text(k, key_len)) {
            k = (k + 1) % max;
        }
        places[i].push(dict.len());
        dict.push((maps::key_text(k, key_len), shuffled(g, &m.dict[i].1)));
    }
    let grid = m.grid.iter().map(|(c, i)| (*c, *g.pick(&places[*i]))).collect();
    Model { size: m.size, key_len, dict, grid }
}

fn diff(g: &G) -> R {
    let mut a = maps::model(g);
    for (_, t) in &mut a.dict {
        for (_, vars) in t {
            for v in vars {
                v.1 = g.pick(VALUES).to_string();
            }
        }
    }
    let n = g.weighted(&[3, 3, 2, 2, 1]);
    // the same dictionary, with some contents under several keys
    let same_keys = g.chance(1, 4);
    let mut b = rekey(g, &a);
    if same_keys {
        a = b.clone();
        for i in b.grid.values_mut() {
            let now = contents(&a.dict[*i].1);
            let same: Vec<usize> = (0..a.dict.len()).filter(|&j| contents(&a.dict[j].1) == now).collect();
            *i = *g.pick(&same);
        }
        g.label_if(a.grid != b.grid, "other keys of the same dictionary");
    }
    // changes
    for _ in 0..n {
        if same_keys {
            let at = (1 + g.usize(b.size.0), 1 + g.usize(b.size.1), 1 + g.usize(b.size.2));
            b.grid.insert(at, g.usize(b.dict.len()));
            continue;
        }
        let at = (1 + g.usize(b.size.0), 1 + g.usize(b.size.1), 1 + g.usize(b.size.2));
        let mut t = b.dict[b.grid[&at]].1.clone();
        let i = g.usize(t.len());
        match g.below(6) {
            0 => t.swap(0, i),
            1 => t[i].0 = g.pick(&["/obj/new", "/turf/new", "/obj"]).to_string(),
            2 if !t[i].1.is_empty() => {
                let k = g.usize(t[i].1.len());
                t[i].1[k].1 = g.pick(VALUES).to_string();
            },
            3 if !t[i].1.is_empty() => {
                t[i].1.pop();
            },
            4 => t[i].1.push(("extra".into(), g.pick(VALUES).to_string())),
            _ if t.len() > 1 => {
                t.remove(i);
            },
            _ => t.push(t[i].clone()),
        }
        // under a key of its own
        let max = [52usize, 2704, 65535][b.key_len - 1];
        let mut k = g.usize(max);
        while b.dict.iter().any(|d| d.0 == maps::key_text(k, b.key_len)) {
            k = (k + 1) % max;
        }
        b.dict.push((maps::key_text(k, b.key_len), t));
        b.grid.insert(at, b.dict.len() - 1);
    }
    // another size, from the bottom left
    if g.chance(1, 3) {
        let mut s = [b.size.0, b.size.1, b.size.2];
        for d in &mut s {
            match g.below(4) {
                0 => *d += 1 + g.usize(2),
                1 => *d = (*d).saturating_sub(1 + g.usize(2)).max(1),
                _ => {},
            }
        }
        b.size = (s[0], s[1], s[2]);
        let mut grid = BTreeMap::new();
        for z in 1..=b.size.2 {
            for y in 1..=b.size.1 {
                for x in 1..=b.size.0 {
                    grid.insert((x, y, z), b.grid.get(&(x, y, z)).copied().unwrap_or_else(|| g.usize(b.dict.len())));
                }
            }
        }
        b.grid = grid;
    }
    if g.bool() {
        std::mem::swap(&mut a, &mut b);
    }
    let mut want = BTreeSet::new();
    for (c, i) in &a.grid {
        if let Some(j) = b.grid.get(c) {
            if contents(&a.dict[*i].1) != contents(&b.dict[*j].1) {
                want.insert(*c);
            }
        }
    }
    let (ta, tb) = (a.text(g), b.text(g));
    let what = format!("{}\n-------- against\n{}", ta, tb);
    g.note(&what);
    g.nontrivial(n > 0 || a.size != b.size);
    g.label(if a.size != b.size { "different sizes" } else if want.is_empty() { "equal" } else { "different tiles" });
    maps::write(g, "left.dmm", ta.as_bytes());
    maps::write(g, "right.dmm", tb.as_bytes());
    let r = dmm_tools(&g.scratch(), &["diff-maps", "left.dmm", "right.dmm"].map(String::from), None);
    sane(&r, &what)?;
    ensure_eq!(r.code, Some(0), "diff:status", "exit status; {}", r.err);
    let mut got = BTreeSet::new();
    let mut sizes = 0;
    for line in r.out.lines() {
        if let Some(rest) = line.trim().strip_prefix("different tile: ") {
            let c: Vec<usize> = rest.trim_matches(['(', ')']).split(", ").map(|n| n.parse().unwrap_or(0)).collect();
            ensure!(c.len() == 3 && got.insert((c[0], c[1], c[2])), "diff:line", "{:?} is malformed or repeated\n{}", line, r.out);
        } else if let Some(rest) = line.trim().strip_prefix("different size: ") {
            sizes += 1;
            let c: Vec<usize> = rest.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|n| n.parse().unwrap()).collect();
            ensure_eq!(c, vec![a.size.0, a.size.1, a.size.2, b.size.0, b.size.1, b.size.2], "diff:sizes", "sizes in {:?}", line);
        }
    }
    ensure_eq!(sizes, (a.size != b.size) as i32, "diff:sizes", "reports of a different size\n{}", r.out);
    ensure_eq!(got, want, "diff:tiles", "different tiles\n{}", r.out);
    Ok(())
}

pub fn t01() -> Prop {
    Prop {
        id: "T01",
        rule: "the second map was changed after its keys were",
        assumptions: &["different spellings of one value, such as 1.0 and 1, are not generated"],
        subs: vec![Sub { name: "diff", quick: 6000, thorough: 150000, run: diff }],
    }
}

// ------------------------------------------------------------------------------------------------
// T02

/// A map of several levels over the types of `w`: its text, and its tiles by level.
fn levels(g: &G, w: &World, depth: usize) -> (String, Vec<World>) {
    let mut dict = String::new();
    let mut blocks = String::new();
    let mut worlds = vec![];
    let mut n = 0;
    for z in 0..depth {
        let mut l = w.clone();
        for t in &mut l.tiles {
            if z > 0 || g.chance(1, 4) {
                let k = g.usize(w.tiles.len());
                *t = w.tiles[k].clone();
            }
        }
        let mut rows = String::new();
        for y in 0..l.height {
            for x in 0..l.width {
                let key = maps::key_text(n, 2);
                n += 1;
                let fabs: Vec<String> = l.tiles[y * l.width + x].iter().map(fab).collect();
                dict.push_str(&format!("\"{}\" = ({})\n", key, fabs.join(",")));
                rows.push_str(&key);
            }
            rows.push('\n');
        }
        blocks.push_str(&format!("\n(1,1,{}) = {{\"\n{}\"}}\n", z + 1, rows));
        worlds.push(l);
    }
    (dict + &blocks, worlds)
}

fn fab(f: &Fab) -> String {
    if f.vars.is_empty() {
        f.path.clone()
    } else {
        format!("{}{{{}}}", f.path, f.vars.iter().map(|(k, v)| format!("{} = {}", k, v.dm())).collect::<Vec<_>>().join("; "))
    }
}

struct Project {
    dir: PathBuf,
    world: World,
    maps: Vec<(String, (usize, usize, usize))>,
    text: String,
}

fn project(g: &G) -> Result<Project, engine::Fail> {
    let icons = render::gen_icons(g, &[(32, 32), (4, 4), (40, 33)])?;
    let dir = icons.root.clone();
    let world = render::gen_world(g, render::PATHS, true, false);
    let mut text = world.code();
    std::fs::write(dir.join("game.dme"), &text).unwrap();
    if g.chance(1, 4) {
        let toml = format!("[map_renderer]\nrender_passes.{} = {}\n", g.pick(&["hide-areas", "hide-space", "icon-smoothing"]), g.bool());
        text.push_str(&toml);
        std::fs::write(dir.join("SpacemanDMM.toml"), toml).unwrap();
    }
    let mut list = vec![];
    for i in 0..1 + g.usize(3) {
        let depth = 1 + g.usize(3);
        let (t, _) = levels(g, &world, depth);
        let name = format!("{}{}.dmm", g.pick(&["", "sub/", "sub/deep/"]), g.pick(&[["m1", "a.b", "x y"], ["m2", "c.d", "z"], ["m3", "e", "f"]][i]));
        let path = dir.join(&name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(&path, &t).unwrap();
        text.push_str(&format!("-------- {}\n{}", name, t));
        list.push((name, (world.width, world.height, depth)));
    }
    Ok(Project { dir, world, maps: list, text })
}

impl Project {
    /// What the library makes of an area of a level (from 0, inclusive).
    fn render(&self, map: &str, z: usize, min: (usize, usize), max: (usize, usize), enable: &str, disable: &str) -> Image {
        let mut ctx = dm::Context::default();
        let dme = self.dir.join("game.dme");
        ctx.autodetect_config(&dme);
        let pp = dm::preprocessor::Preprocessor::new(&ctx, dme).unwrap();
        let ind = dm::indents::IndentProcessor::new(&ctx, pp);
        let tree = dm::parser::Parser::new(&ctx, ind).parse_object_tree();
        let map = Map::from_file(&self.dir.join(map)).unwrap();
        let mut cache = dmm_tools::IconCache::default();
        cache.set_icons_root(&self.dir);
        let passes = dmm_tools::render_passes::configure(&ctx.config().map_renderer, enable, disable);
        let errors = RwLock::default();
        let bump = bumpalo::Bump::new();
        minimap::generate(
            minimap::Context { objtree: &tree, map: &map, level: map.z_level(z), min, max, render_passes: &passes, errors: &errors, bump: &bump, print_errors: false },
            &cache,
        )
        .expect("generate")
    }
}

fn files_under(dir: &Path) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            out.insert(e.file_name().to_string_lossy().into_owned());
        }
    }
    out
}

fn stem(name: &str) -> String {
    Path::new(name).file_stem().unwrap().to_string_lossy().into_owned()
}

fn passes(g: &G) -> (String, String) {
    let one = |g: &G| -> String {
        match g.below(4) {
            0 => "all".into(),
            1 => g.pick(&["hide-areas", "icon-smoothing", "random", "overlays"]).to_string(),
            _ => String::new(),
        }
    };
    // what is random does not come out the same twice
    let (e, d) = (one(g), one(g));
    let d = if d.is_empty() || d == "all" { format!("{}{}random", d, if d.is_empty() { "" } else { "," }) } else { format!("{},random", d) };
    (e.replace("random", "hide-space"), d)
}

fn minimaps(g: &G) -> R {
    let p = project(g)?;
    let (enable, disable) = passes(g);
    let out = g.pick(&["out", "data/minimaps", "a/b/c", "."]).to_string();
    let (w, h) = (p.world.width, p.world.height);
    let mut args: Vec<String> = vec!["-e".into(), "game.dme".into()];
    if g.bool() {
        args.extend(["--jobs".into(), g.pick(&["1", "2", "4"]).to_string()]);
    }
    args.push("minimap".into());
    if out != "data/minimaps" || g.bool() {
        args.extend(["-o".into(), out.clone()]);
    }
    let (mut lo, mut hi) = ((1, 1, 1), (usize::MAX, usize::MAX, usize::MAX));
    if g.bool() {
        lo = (g.usize(w + 3), g.usize(h + 3), 1);
        if g.bool() {
            lo.2 = 1 + g.usize(4);
            args.push(format!("--min={},{},{}", lo.0, lo.1, lo.2));
        } else {
            args.push(format!("--min={},{}", lo.0, lo.1));
        }
    }
    if g.bool() {
        hi = (1 + g.usize(w + 3), 1 + g.usize(h + 3), 1 + g.usize(4));
        args.push(format!("--max={},{},{}", hi.0, hi.1, hi.2));
    }
    if !enable.is_empty() {
        args.push(format!("--enable={}", enable));
    }
    args.push(format!("--disable={}", disable));
    for m in &p.maps {
        args.push(m.0.clone());
    }
    let broken = g.chance(1, 8);
    if broken {
        maps::write(g, "broken.dmm", b"\"a\" = (\n");
        let at = args.len() - g.usize(p.maps.len() + 1);
        args.insert(at, "broken.dmm".into());
    }
    let what = format!("dmm-tools {:?}\n{}", args, p.text);
    g.note(&what);
    g.nontrivial(p.maps.iter().any(|m| m.1 .2 > 1) && w * h > 1);
    let before = files_under(&p.dir.join(&out));
    let r = dmm_tools(&p.dir, &args, None);
    sane(&r, &what)?;
    ensure_eq!(r.code == Some(0), !broken, "minimap:status", "whether it reports success; {}\n{}", r.err, what);
    let mut want = before;
    let clamp = |v: usize, a: usize, b: usize| v.max(a).min(b);
    for (name, dim) in &p.maps {
        let a = (clamp(lo.0, 1, dim.0), clamp(lo.1, 1, dim.1), clamp(lo.2, 1, dim.2));
        let b = (clamp(hi.0, a.0, dim.0), clamp(hi.1, a.1, dim.1), clamp(hi.2, a.2, dim.2));
        for z in a.2..=b.2 {
            let file = format!("{}-{}.png", stem(name), z);
            let pic = match Image::from_file(&p.dir.join(&out).join(&file)) {
                Ok(p) => p,
                Err(e) => return fail("minimap:missing", format!("{}: {}\nthere is {:?}\n{}\n{}", file, e, files_under(&p.dir.join(&out)), r.out, what)),
            };
            let lib = p.render(name, z - 1, (a.0 - 1, a.1 - 1), (b.0 - 1, b.1 - 1), &enable, &disable);
            render::compare(&pic, &lib, &format!("{} of\n{}", file, what))?;
            want.insert(file);
        }
    }
    if broken && out == "." {
        want.insert("broken.dmm".into());
    }
    ensure_eq!(files_under(&p.dir.join(&out)), want, "minimap:files", "files in the output directory\n{}", what);
    Ok(())
}

fn many(g: &G) -> R {
    let p = project(g)?;
    let (enable, disable) = passes(g);
    let mut args: Vec<String> = vec!["-e".into(), "game.dme".into()];
    args.extend(["--jobs".into(), g.pick(&["1", "2", "4"]).to_string()]);
    args.push("render-many".into());
    let (w, h) = (p.world.width, p.world.height);
    // a file, and the areas of it
    let mut files: Vec<(String, Option<Vec<(usize, [Option<usize>; 4])>>, (usize, usize, usize))> = vec![];
    for i in 0..1 + g.usize(4) {
        let (name, dim) = if i < p.maps.len() && g.chance(3, 4) { p.maps[i].clone() } else { g.pick(&p.maps).clone() };
        let chunks = g.chance(3, 4).then(|| {
            (0..g.usize(5))
                .map(|_| {
                    let x = 1 + g.usize(w);
                    let y = 1 + g.usize(h);
                    let mut c = [Some(x), Some(y), Some(x + g.usize(w)), Some(y + g.usize(h))];
                    for (i, v) in c.iter_mut().enumerate() {
                        if g.chance(1, 4) {
                            *v = None;
                        } else if i < 2 && g.chance(1, 12) {
                            *v = Some(0);
                        }
                    }
                    (1 + g.usize(dim.2), c)
                })
                .collect()
        });
        files.push((name, chunks, dim));
    }
    let twice = (0..files.len()).any(|i| files[..i].iter().any(|f| f.0 == files[i].0));
    g.label_if(twice, "the same file twice");
    let json = serde_json::json!({
        "output_directory": "out/pictures",
        "enable": enable.split(',').filter(|s| !s.is_empty()).collect::<Vec<_>>(),
        "disable": disable.split(',').filter(|s| !s.is_empty()).collect::<Vec<_>>(),
        "files": files.iter().map(|(name, chunks, _)| {
            let mut f = serde_json::json!({ "path": name });
            if let Some(chunks) = chunks {
                f["chunks"] = chunks.iter().map(|(z, c)| {
                    let mut o = serde_json::json!({ "z": z });
                    for (k, v) in ["min_x", "min_y", "max_x", "max_y"].iter().zip(c) {
                        if let Some(v) = v {
                            o[*k] = (*v).into();
                        }
                    }
                    o
                }).collect();
            }
            f
        }).collect::<Vec<_>>(),
    });
    let json = json.to_string();
    let what = format!("dmm-tools {:?}\n{}\n{}", args, json, p.text);
    g.note(&what);
    g.nontrivial(files.len() > 1);
    let r = dmm_tools(&p.dir, &args, Some(&json));
    sane(&r, &what)?;
    ensure_eq!(r.code, Some(0), "many:status", "exit status; {}\n{}", r.err, what);
    let Ok(reply) = serde_json::from_str::<serde_json::Value>(&r.out) else { return fail("many:reply", format!("not JSON: {}\n{}", r.out, what)) };
    let empty = vec![];
    let got = reply["files"].as_array().unwrap_or(&empty);
    ensure_eq!(got.len(), files.len(), "many:reply", "files in {}\n{}", r.out, what);
    let mut names = BTreeSet::new();
    for (f, (name, chunks, dim)) in got.iter().zip(&files) {
        let chunks = chunks.clone().unwrap_or_else(|| (1..=dim.2).map(|z| (z, [None; 4])).collect());
        let pics = f["chunks"].as_array().unwrap_or(&empty);
        ensure_eq!(pics.len(), chunks.len(), "many:reply", "chunks in {}\n{}", r.out, what);
        for (pic, (z, c)) in pics.iter().zip(&chunks) {
            let file = pic["filename"].as_str().unwrap_or("").to_string();
            ensure!(names.insert(file.clone()), "many:same-name", "two pictures are written to {}\n{}\n{}", file, r.out, what);
            let min = (c[0].unwrap_or(1).max(1) - 1, c[1].unwrap_or(1).max(1) - 1);
            let max = (c[2].unwrap_or(dim.0).min(dim.0) - 1, c[3].unwrap_or(dim.1).min(dim.1) - 1);
            let lib = p.render(name, z - 1, min, max, &enable, &disable);
            let shown = match Image::from_file(&p.dir.join("out/pictures").join(&file)) {
                Ok(p) => p,
                Err(e) => return fail("many:missing", format!("{}: {}\n{}", file, e, what)),
            };
            render::compare(&shown, &lib, &format!("{} of\n{}", file, what))?;
        }
    }
    ensure_eq!(files_under(&p.dir.join("out/pictures")), names, "many:files", "files in the output directory\n{}", what);
    Ok(())
}

fn info(g: &G) -> R {
    let mut args = vec!["map-info".to_string(), "--json".into()];
    let mut want = vec![];
    let mut what = String::new();
    for i in 0..1 + g.usize(3) {
        let m = maps::model(g);
        let name = format!("m{}.dmm", i);
        let text = m.text(g);
        maps::write(g, &name, text.as_bytes());
        what.push_str(&text);
        args.push(name.clone());
        want.push((name, m));
    }
    g.note(&what);
    g.nontrivial(want.len() > 1);
    let r = dmm_tools(&g.scratch(), &args, None);
    sane(&r, &what)?;
    ensure_eq!(r.code, Some(0), "info:status", "exit status; {}", r.err);
    let Ok(reply) = serde_json::from_str::<serde_json::Value>(&r.out) else { return fail("info:reply", format!("not JSON: {}", r.out)) };
    ensure_eq!(reply.as_object().map_or(0, |o| o.len()), want.len(), "info:reply", "maps in {}", r.out);
    for (name, m) in &want {
        let o = &reply[name.as_str()];
        ensure_eq!(o["size"], serde_json::json!([m.size.0, m.size.1, m.size.2]), "info:size", "size of {}\n{}", name, what);
        ensure_eq!(o["key_length"], serde_json::json!(m.key_len), "info:key-length", "key length of {}\n{}", name, what);
        ensure_eq!(o["num_keys"], serde_json::json!(m.dict.len()), "info:keys", "keys of {}\n{}", name, what);
    }
    Ok(())
}

pub fn t02() -> Prop {
    Prop {
        id: "T02",
        rule: "a map of several tiles and levels, several files to render, or several maps",
        assumptions: &[
            "what the library renders is right (R01 to R04)",
            "--max is given with z, or not at all",
            "areas to render overlap with the map; files given to minimap have different names",
        ],
        subs: vec![
            Sub { name: "minimaps", quick: 1200, thorough: 30000, run: minimaps },
            Sub { name: "many", quick: 1000, thorough: 25000, run: many },
            Sub { name: "info", quick: 1000, thorough: 20000, run: info },
        ],
    }
}
