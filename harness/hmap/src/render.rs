//! R01-R04: the map renderer against a renderer written from the description, pixel by pixel.
use crate::icons;
use dm::objtree::ObjectTree;
use dmm_tools::dmi::{Dir, IconFile, Image};
use dmm_tools::dmm::Map;
use dmm_tools::IconCache;
use dmm_tools::minimap::{self, Layer};
use dmm_tools::render_passes::{self, RenderPass};
use engine::{ensure, ensure_eq, fail, Prop, Sub, G, R};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, OnceLock, RwLock};

// ------------------------------------------------------------------------------------------------
// The model: types with variables, a grid of tiles with objects

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Num(f32),
    Str(String),
    Res(String),
    Path(String),
    /// anything else, as written
    Raw(String),
    List(Vec<V>),
}

impl V {
    pub fn dm(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Num(f) => format!("{}", f),
            V::Str(s) => format!("\"{}\"", s),
            V::Res(s) => format!("'{}'", s),
            V::Path(s) | V::Raw(s) => s.clone(),
            V::List(l) => format!("list({})", l.iter().map(|v| v.dm()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn truth(&self) -> bool {
        match self {
            V::Null => false,
            V::Num(f) => *f != 0.0,
            V::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
}

pub type Vars = BTreeMap<&'static str, V>;

#[derive(Clone, Debug)]
pub struct Fab {
    pub path: String,
    pub vars: Vars,
}

#[derive(Clone, Debug, Default)]
pub struct World {
    /// declared types and the variables set in them
    pub types: BTreeMap<String, Vars>,
    /// variables declared on /atom for this world (with null)
    pub declare: Vec<&'static str>,
    pub width: usize,
    pub height: usize,
    /// row-major from the top (north)
    pub tiles: Vec<Vec<Fab>>,
}

pub fn under(path: &str, parent: &str) -> bool {
    let p: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    let q: Vec<&str> = parent.split('/').filter(|s| !s.is_empty()).collect();
    p.len() >= q.len() && p[..q.len()] == q[..]
}

impl World {
    pub fn code(&self) -> String {
        let mut s = String::new();
        for v in &self.declare {
            s.push_str(&format!("/atom/var/{}\n", v));
        }
        for (t, vars) in &self.types {
            s.push_str(t);
            s.push('\n');
            for (k, v) in vars {
                s.push_str(&format!("\t{} = {}\n", k, v.dm()));
            }
        }
        s
    }
    pub fn map_text(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tiles.iter().enumerate() {
            let fabs: Vec<String> = t
                .iter()
                .map(|f| {
                    if f.vars.is_empty() {
                        f.path.clone()
                    } else {
                        format!("{}{{{}}}", f.path, f.vars.iter().map(|(k, v)| format!("{} = {}", k, v.dm())).collect::<Vec<_>>().join("; "))
                    }
                })
                .collect();
            s.push_str(&format!("\"{}\" = ({})\n", crate::maps::key_text(i, 2), fabs.join(",")));
        }
        s.push_str("\n(1,1,1) = {\"\n");
        for y in 0..self.height {
            for x in 0..self.width {
                s.push_str(&crate::maps::key_text(y * self.width + x, 2));
            }
            s.push('\n');
        }
        s.push_str("\"}\n");
        s
    }
    pub fn get(&self, a: &Fab, var: &str) -> V {
        if let Some(v) = a.vars.get(var) {
            return v.clone();
        }
        let mut p = a.path.clone();
        while !p.is_empty() {
            if let Some(v) = self.types.get(&p).and_then(|t| t.get(var)) {
                return v.clone();
            }
            p.truncate(p.rfind('/').unwrap());
        }
        match var {
            "layer" => V::Num(match a.path.split('/').nth(1) {
                Some("turf") => 2.0,
                Some("obj") => 3.0,
                Some("mob") => 4.0,
                _ => 1.0,
            }),
            "dir" => V::Num(2.0),
            "alpha" => V::Num(255.0),
            "pixel_x" | "pixel_y" | "pixel_w" | "pixel_z" | "step_x" | "step_y" | "plane" | "invisibility" => V::Num(0.0),
            _ => V::Null,
        }
    }
    pub fn num(&self, a: &Fab, var: &str) -> Option<f32> {
        match self.get(a, var) {
            V::Num(f) => Some(f),
            _ => None,
        }
    }
    pub fn text(&self, a: &Fab, var: &str) -> String {
        match self.get(a, var) {
            V::Str(s) => s,
            _ => String::new(),
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        self.types.keys().any(|t| under(t, path)) || ["/turf", "/obj", "/mob", "/area"].contains(&path)
    }
    pub fn tile(&self, x: i64, y: i64) -> Option<&[Fab]> {
        if x < 0 || y < 0 || x >= self.width as i64 || y >= self.height as i64 {
            return None;
        }
        Some(&self.tiles[y as usize * self.width + x as usize])
    }
}

/// What is painted.
#[derive(Clone, Debug)]
pub struct Look {
    pub icon: String,
    pub state: String,
    pub dir: Dir,
    pub color: [u8; 4],
    pub x: i64,
    pub y: i64,
    pub plane: i64,
    pub layer: f32,
}

const DIRS: [(f32, Dir); 8] = [
    (1.0, Dir::North),
    (2.0, Dir::South),
    (4.0, Dir::East),
    (8.0, Dir::West),
    (5.0, Dir::Northeast),
    (9.0, Dir::Northwest),
    (6.0, Dir::Southeast),
    (10.0, Dir::Southwest),
];

const COLORS: &[(&str, [u8; 3])] = &[
    ("#ff0000", [255, 0, 0]),
    ("#0080fF", [0, 128, 255]),
    ("#123456", [0x12, 0x34, 0x56]),
    ("#f80", [255, 0x88, 0]),
    ("#1a2", [0x11, 0xaa, 0x22]),
    ("black", [0, 0, 0]),
    ("silver", [192, 192, 192]),
    ("grey", [128, 128, 128]),
    ("gray", [128, 128, 128]),
    ("white", [255, 255, 255]),
    ("maroon", [128, 0, 0]),
    ("red", [255, 0, 0]),
    ("purple", [128, 0, 128]),
    ("fuchsia", [255, 0, 255]),
    ("magenta", [255, 0, 255]),
    ("lime", [0, 255, 0]),
    ("yellow", [255, 255, 0]),
    ("navy", [0, 0, 128]),
    ("blue", [0, 0, 255]),
    ("teal", [0, 128, 128]),
    ("aqua", [0, 255, 255]),
    ("cyan", [0, 255, 255]),
];

impl World {
    pub fn look(&self, a: &Fab) -> Look {
        let n = |v: &str| self.num(a, v).unwrap_or(0.0) as i32 as i64;
        let icon = match self.get(a, "icon") {
            V::Str(s) | V::Res(s) => s,
            _ => String::new(),
        };
        let d = self.num(a, "dir").unwrap_or(2.0);
        let alpha = match self.get(a, "alpha") {
            V::Num(f) if (0.0..=255.0).contains(&f) => f as u8,
            _ => 255,
        };
        let c = self.text(a, "color");
        let rgb = COLORS.iter().find(|k| k.0 == c).map_or([255; 3], |k| k.1);
        Look {
            icon,
            state: self.text(a, "icon_state"),
            dir: DIRS.iter().find(|k| k.0 == d).map_or(Dir::South, |k| k.1),
            color: [rgb[0], rgb[1], rgb[2], alpha],
            x: n("pixel_x") + n("pixel_w") + n("step_x"),
            y: n("pixel_y") + n("pixel_z") + n("step_y"),
            plane: n("plane"),
            layer: self.num(a, "layer").unwrap(),
        }
    }
}

pub struct Icons {
    pub root: PathBuf,
    pub by_name: BTreeMap<String, (icons::Icon, usize, Arc<IconFile>)>,
}

impl Icons {
    /// the image rectangle of a state facing a direction
    fn rect(&self, l: &Look) -> Option<Option<(u32, u32, u32, u32)>> {
        let (icon, cols, file) = self.by_name.get(&l.icon)?;
        if icon.states.is_empty() {
            return Some(Some((0, 0, icon.width, icon.height)));
        }
        Some(icon.states.iter().position(|s| s.name == l.state).map(|i| {
            let st = &icon.states[i];
            match icons::dir_pos(st.dirs, l.dir) {
                Some(p) => {
                    let c = icon.offset(i) + p;
                    ((c % cols) as u32 * icon.width, (c / cols) as u32 * icon.height, icon.width, icon.height)
                },
                // which of the four stands in for a diagonal is the icon reader's business (I02)
                None => file.metadata.rect_of(file.image.width, &l.state.as_str().into(), l.dir, 0).unwrap(),
            }
        }))
    }
}

/// Paints the looks (in map order, with their tile) into a picture of the tiles x0..=x1, y0..=y1 (from the top).
pub fn paint(icons: &Icons, mut looks: Vec<((usize, usize), Look)>, x0: usize, y0: usize, x1: usize, y1: usize, bad: &mut Vec<String>) -> Image {
    let (w, h) = ((x1 - x0 + 1) * 32, (y1 - y0 + 1) * 32);
    let mut img = Image::new_rgba(w as u32, h as u32);
    // insertion sort, keeping the order of equals
    let mut sorted: Vec<((usize, usize), Look)> = vec![];
    for l in looks.drain(..) {
        let mut i = sorted.len();
        while i > 0 && (sorted[i - 1].1.plane > l.1.plane || sorted[i - 1].1.plane == l.1.plane && sorted[i - 1].1.layer > l.1.layer) {
            i -= 1;
        }
        sorted.insert(i, l);
    }
    for ((tx, ty), l) in sorted {
        let Some(rect) = icons.rect(&l) else { continue };
        let Some((cx, cy, iw, ih)) = rect else {
            bad.push(format!("{} {}", l.icon, l.state));
            continue;
        };
        let file = &icons.by_name[&l.icon].2;
        let left = (tx - x0) as i64 * 32 + l.x;
        let bottom = (ty - y0) as i64 * 32 + 32 - l.y;
        for py in 0..ih {
            for px in 0..iw {
                let (x, y) = (left + px as i64, bottom - ih as i64 + py as i64);
                if x >= 0 && y >= 0 && x < w as i64 && y < h as i64 {
                    img.composite(&file.image, (x as u32, y as u32), (cx + px, cy + py, 1, 1), l.color);
                }
            }
        }
    }
    img
}

/// the parts of a rendering
pub struct Scene {
    pub tree: ObjectTree,
    pub map: Map,
    pub cache: IconCache,
}

pub fn scene(g: &G, w: &World, icons: &Icons) -> Result<Scene, engine::Fail> {
    let ctx = dm::Context::default();
    let tree = {
        let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), w.code());
        let ind = dm::indents::IndentProcessor::new(&ctx, pp);
        dm::parser::Parser::new(&ctx, ind).parse_object_tree()
    };
    let errors: Vec<String> = ctx.errors().iter().map(|e| e.to_string()).collect();
    assert!(errors.is_empty(), "code of the harness: {:?}\n{}", errors, w.code());
    let path = crate::maps::write(g, "map.dmm", w.map_text().as_bytes());
    let map = match Map::from_file(&path) {
        Ok(m) => m,
        Err(e) => return fail("map", format!("{}\n{}", e, w.map_text())),
    };
    let mut cache = IconCache::default();
    cache.set_icons_root(&icons.root);
    Ok(Scene { tree, map, cache })
}

impl Scene {
    /// min and max are tiles counted from 0 at the bottom left, inclusive
    pub fn render(&self, passes: &[Box<dyn RenderPass>], min: (usize, usize), max: (usize, usize)) -> (Image, Vec<String>) {
        let errors = RwLock::default();
        let bump = bumpalo::Bump::new();
        let img = minimap::generate(
            minimap::Context {
                objtree: &self.tree,
                map: &self.map,
                level: self.map.z_level(0),
                min,
                max,
                render_passes: passes,
                errors: &errors,
                bump: &bump,
                print_errors: false,
            },
            &self.cache,
        )
        .expect("generate");
        let mut e: Vec<String> = errors.into_inner().unwrap().into_iter().collect();
        e.sort();
        (img, e)
    }
}

pub fn compare(got: &Image, want: &Image, what: &str) -> R {
    ensure_eq!((got.width, got.height), (want.width, want.height), "size", "size of the picture\n{}", what);
    let (a, b) = (got.data.as_slice().unwrap(), want.data.as_slice().unwrap());
    if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
        let n = (0..a.len()).filter(|i| a[*i] != b[*i]).count();
        let (x, y) = (i % got.width as usize, i / got.width as usize);
        return fail("picture", format!("pixel {},{} (tile {},{} from the top left) is {:?}, should be {:?}; {} pixels differ\n{}", x, y, x / 32, y / 32, a[i], b[i], n, what));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Generation

fn mix(mut x: u64) -> u64 {
    x ^= x >> 31;
    x = x.wrapping_mul(0x7fb5d329728ea185);
    x ^= x >> 27;
    x = x.wrapping_mul(0x81dadef4bc2dd44d);
    x ^ x >> 33
}

const STATES: &[&str] = &["", "a", "b", "a-1"];

pub fn gen_icons(g: &G, sizes: &[(u32, u32)]) -> Result<Icons, engine::Fail> {
    let root = g.scratch();
    let mut by_name = BTreeMap::new();
    for (i, name) in ["i0.dmi", "i1.dmi", "i2.dmi"].iter().enumerate() {
        let mut icon = icons::icon(g, 4, |g| g.pick(STATES).to_string());
        if i == 2 && g.chance(1, 3) {
            icon.states.clear();
        }
        (icon.width, icon.height) = *g.pick(sizes);
        let total = icon.total().max(1);
        let cols = 1 + g.usize(total.min(5));
        let rows = total.div_ceil(cols);
        let seed = g.below(1000);
        let n = cols * rows * (icon.width * icon.height) as usize;
        let px: Vec<_> = (0..n)
            .map(|k| {
                let m = mix(seed * 1_000_003 + k as u64 + (i as u64) << 40);
                let a = match m % 4 {
                    0 => 0,
                    1 => [1, 128, 254, 90][(m >> 8) as usize % 4],
                    _ => 255,
                };
                dmm_tools::dmi::Rgba8::new((m >> 16) as u8, (m >> 24) as u8, (m >> 32) as u8, a)
            })
            .collect();
        let text = icon.text(g);
        let data = icons::png(g, icon.width * cols as u32, icon.height * rows as u32, &px, Some(&text));
        std::fs::write(root.join(name), &data).unwrap();
        let file = match IconFile::from_bytes(&data) {
            Ok(f) => f,
            Err(e) => return fail("icon", format!("{} for\n{}", e, text)),
        };
        by_name.insert(name.to_string(), (icon, cols, Arc::new(file)));
    }
    Ok(Icons { root, by_name })
}

/// Variables of an appearance. `reach`: may be painted outside its tile.
fn gen_vars(g: &G, reach: bool, n: usize) -> Vars {
    let mut vars = Vars::new();
    for _ in 0..n {
        let (k, v): (&str, V) = match g.weighted(&[5, 5, 2, 3, 2, 4, 4, 2]) {
            0 => ("icon", match g.weighted(&[12, 1, 1, 1]) {
                0 => V::Res(format!("i{}.dmi", g.usize(3))),
                1 => V::Null,
                2 => V::Res("missing.dmi".into()),
                _ => V::Str(format!("i{}.dmi", g.usize(3))),
            }),
            1 => ("icon_state", if g.chance(1, 10) { V::Null } else { V::Str(g.pick(&["", "a", "b", "a-1", "nothing"]).to_string()) }),
            2 => ("dir", V::Num(*g.pick(&[1.0, 2.0, 4.0, 8.0, 5.0, 6.0, 9.0, 10.0, 0.0, 3.0, 16.0]))),
            3 => ("color", if g.chance(1, 8) { V::Null } else { V::Str(g.pick(COLORS).0.to_string()) }),
            4 => ("alpha", V::Num(*g.pick(&[255.0, 0.0, 128.0, 1.0, 200.5]))),
            5 => {
                let k = *g.pick(&["pixel_x", "pixel_y", "pixel_w", "pixel_z", "step_x", "step_y"]);
                let k = if k == "step_x" { "pixel_x" } else if k == "step_y" { "pixel_y" } else { k };
                let f = if reach { *g.pick(&[1.0, -1.0, 5.0, -8.0, 16.0, -16.0, 32.0, -32.0, 33.5, -70.0, 300.0, -300.0, 7.0]) } else { g.range(0, 4) as f32 };
                (k, V::Num(f))
            },
            6 => ("layer", V::Num(*g.pick(&[0.0, 1.0, 2.0, 2.5, 3.0, 3.01, 3.02, 4.0, -1.0, -0.5, -1.5, 4.25, 100.0, 2.999]))),
            _ => ("plane", V::Num(*g.pick(&[0.0, 1.0, -1.0, 5.0, -10.0, 100.0]))),
        };
        vars.insert(k, v);
    }
    vars
}

pub fn gen_world(g: &G, paths: &[&str], reach: bool, unknown: bool) -> World {
    let mut w = World::default();
    for p in paths {
        let mut vars = gen_vars(g, reach, g.len(0, 4));
        if (p.starts_with("/obj") || p.starts_with("/mob")) && reach && g.chance(1, 5) {
            vars.insert(*g.pick(&["step_x", "step_y"]), V::Num(*g.pick(&[3.0, -9.0, 32.0])));
        }
        if p.matches('/').count() == 2 && g.chance(9, 10) {
            vars.insert("icon", V::Res(format!("i{}.dmi", g.usize(3))));
        }
        w.types.insert(p.to_string(), vars);
    }
    w.width = 1 + g.usize(5);
    w.height = 1 + g.usize(5);
    for _ in 0..w.width * w.height {
        let n = g.len(1, 3);
        let tile = (0..n)
            .map(|_| {
                let path = if unknown && g.chance(1, 30) { "/obj/unknown".to_string() } else { g.pick(paths).to_string() };
                let vars = if g.chance(1, 3) { gen_vars(g, reach, g.len(1, 3)) } else { Vars::new() };
                Fab { path, vars }
            })
            .collect();
        w.tiles.push(tile);
    }
    w
}

pub const PATHS: &[&str] = &["/turf/one", "/turf/one/two", "/obj/a", "/obj/a/b", "/obj/a/b/c", "/obj/ab", "/mob/m", "/area/z"];

fn check_errors(w: &World, got: &[String], bad: &[String], shown: &[Fab], what: &str) -> R {
    let mut unknown: Vec<&str> = shown.iter().map(|f| f.path.as_str()).filter(|p| !w.exists(p)).collect();
    unknown.sort();
    unknown.dedup();
    let mut bad: Vec<&String> = bad.iter().collect();
    bad.sort();
    bad.dedup();
    ensure_eq!(got.len(), unknown.len() + bad.len(), "errors", "number of problems noted: {:?}; unknown types {:?}, missing states {:?}\n{}", got, unknown, bad, what);
    for u in unknown {
        ensure!(got.iter().any(|e| e.ends_with(u)), "errors", "no note about the unknown type {} in {:?}\n{}", u, got, what);
    }
    Ok(())
}

/// Every object's own appearance, no passes.
fn plain(g: &G) -> R {
    let icons = gen_icons(g, &[(32, 32), (4, 4), (1, 7), (40, 33), (64, 12)])?;
    let w = gen_world(g, PATHS, true, true);
    let what = format!("{}\n{}", w.code(), w.map_text());
    g.note(&what);
    let s = scene(g, &w, &icons)?;
    let mut looks = vec![];
    for y in 0..w.height {
        for x in 0..w.width {
            for f in w.tile(x as i64, y as i64).unwrap() {
                if w.exists(&f.path) {
                    let l = w.look(f);
                    if !l.icon.is_empty() {
                        looks.push(((x, y), l));
                    }
                }
            }
        }
    }
    g.nontrivial(looks.len() >= 4);
    g.label_if(looks.iter().any(|l| l.1.x < -32 || l.1.x > 32), "reaches another tile");
    let mut bad = vec![];
    let want = paint(&icons, looks, 0, 0, w.width - 1, w.height - 1, &mut bad);
    let (got, errors) = s.render(&[], (0, 0), (w.width - 1, w.height - 1));
    compare(&got, &want, &what)?;
    let all: Vec<Fab> = w.tiles.iter().flatten().cloned().collect();
    check_errors(&w, &errors, &bad, &all, &what)
}

/// Layers sort like the numbers they come from.
fn layers(g: &G) -> R {
    let num = |g: &G| -> f32 {
        match g.usize(6) {
            0 => g.range(-100, 100) as f32,
            1 => g.range(-4000, 4000) as f32 / 100.0,
            2 => g.range(-100, 100) as f32 + *g.pick(&[1e-3f32, -1e-3, 1e-5, -1e-5, 1e-7, -1e-7]),
            3 => *g.pick(&[1e-9f32, -1e-9, -1e-30, 1e-30, -0.0, 0.0, -1e-7, 20000.0, 30000.5, -30000.25]),
            4 => f32::from_bits(g.below(1 << 32) as u32).clamp(-30000.0, 30000.0),
            _ => 0.5 * g.range(-60000, 60000) as f32,
        }
    };
    let a = num(g);
    let b = if g.bool() { num(g) } else { f32::from_bits(a.to_bits().wrapping_add(g.range(-3, 3) as u32)).clamp(-30000.0, 30000.0) };
    if a.is_nan() || b.is_nan() {
        return g.discard();
    }
    g.note(&format!("{:?} {:?}", a, b));
    g.nontrivial(a != b);
    let (la, lb) = (Layer::from(a), Layer::from(b));
    if a <= b {
        ensure!(la <= lb, "order", "{:?} becomes {:?} and {:?} becomes {:?}", a, la, b, lb);
    }
    if b <= a {
        ensure!(lb <= la, "order", "{:?} becomes {:?} and {:?} becomes {:?}", a, la, b, lb);
    }
    if (a as f64 - b as f64).abs() > 1.0 / 16384.0 {
        ensure!(la != lb, "distinct", "{:?} and {:?} are both {:?}", a, b, la);
    }
    if a.fract() == 0.0 {
        ensure_eq!(Layer::from(a as i32), la, "whole", "{:?}", a);
    }
    Ok(())
}

/// Offsets and colours far outside the ordinary never end the renderer.
fn extreme(g: &G) -> R {
    let icons = gen_icons(g, &[(32, 32), (4, 4)])?;
    let mut w = gen_world(g, &["/turf/one", "/obj/a", "/obj/a/b"], true, false);
    for t in w.tiles.iter_mut() {
        for f in t.iter_mut() {
            if g.chance(1, 3) {
                f.vars.insert(
                    *g.pick(&["pixel_x", "pixel_y", "pixel_w", "pixel_z", "dir", "alpha", "plane"]),
                    V::Num(*g.pick(&[1e10, -1e10, 2147483500.0, -2147483600.0, 1e38, -1e38, 65536.0, -40000.0])),
                );
            }
            if g.chance(1, 5) {
                f.vars.insert("color", V::Str(g.pick(&["#", "#ff", "#ff0000ff0000", "#gggggg", "#éé1", "#ffffffffffffffff", "##", "red ", "", "#12345é"]).to_string()));
            }
        }
    }
    let what = format!("{}\n{}", w.code(), w.map_text());
    g.note(&what);
    g.nontrivial(true);
    let s = scene(g, &w, &icons)?;
    let (got, _) = s.render(&[], (0, 0), (w.width - 1, w.height - 1));
    ensure_eq!((got.width as usize, got.height as usize), (w.width * 32, w.height * 32), "size", "{}", what);
    Ok(())
}

pub fn r01() -> Prop {
    Prop {
        id: "R01",
        rule: "at least four objects painted (layers: two different numbers)",
        assumptions: &["the painting of one pixel over another is the image code's own (decided by I04)", "which image stands in for a diagonal direction an icon state lacks is the icon reader's own choice (I02)"],
        subs: vec![
            Sub { name: "plain", quick: 2500, thorough: 60_000, run: plain },
            Sub { name: "layers", quick: 20_000, thorough: 2_000_000, run: layers },
            Sub { name: "extreme", quick: 600, thorough: 10_000, run: extreme },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// R02

fn crop(img: &Image, x: usize, y: usize, w: usize, h: usize) -> Image {
    let mut o = Image::new_rgba(w as u32, h as u32);
    let src = img.data.as_slice().unwrap();
    let dst = o.data.as_slice_mut().unwrap();
    for j in 0..h {
        for i in 0..w {
            dst[j * w + i] = src[(y + j) * img.width as usize + x + i];
        }
    }
    o
}

fn region(g: &G, w: &World) -> ((usize, usize), (usize, usize)) {
    let x0 = g.usize(w.width);
    let x1 = x0 + g.usize(w.width - x0);
    let y0 = g.usize(w.height);
    let y1 = y0 + g.usize(w.height - y0);
    ((x0, y0), (x1, y1))
}

/// The part is the whole, cropped; what sticks out of other tiles is blanked first.
fn part(g: &G) -> R {
    let reach = g.bool();
    let icons = gen_icons(g, if reach { &[(32, 32), (40, 33), (4, 4)] } else { &[(28, 28), (4, 4), (7, 1)] })?;
    let w = gen_world(g, PATHS, reach, false);
    let (min, max) = region(g, &w);
    let what = format!("tiles {:?} to {:?} of\n{}\n{}", min, max, w.code(), w.map_text());
    g.note(&what);
    g.nontrivial(w.width * w.height > (max.0 - min.0 + 1) * (max.1 - min.1 + 1));
    g.label_if(reach, "objects may reach out of their tile");
    let s = scene(g, &w, &icons)?;
    let (part, _) = s.render(&[], min, max);
    let whole = if reach {
        let mut v = w.clone();
        v.types.insert("/obj/blank".into(), Vars::from([("icon", V::Null)]));
        for y in 0..v.height {
            for x in 0..v.width {
                let from_bottom = v.height - 1 - y;
                if x < min.0 || x > max.0 || from_bottom < min.1 || from_bottom > max.1 {
                    v.tiles[y * w.width + x] = vec![Fab { path: "/obj/blank".into(), vars: Vars::new() }];
                }
            }
        }
        scene(g, &v, &icons)?.render(&[], (0, 0), (w.width - 1, w.height - 1)).0
    } else {
        s.render(&[], (0, 0), (w.width - 1, w.height - 1)).0
    };
    let (tw, th) = (max.0 - min.0 + 1, max.1 - min.1 + 1);
    compare(&part, &crop(&whole, min.0 * 32, (w.height - 1 - max.1) * 32, tw * 32, th * 32), &what)
}

/// The same with smoothing and wiring, which look at the tiles around.
fn part_smooth(g: &G) -> R {
    let icons = shared_icons();
    let mut w = smooth_world(g, *g.pick(&[2016, 2020, 2025]), false);
    for f in w.tiles.iter_mut().flatten().filter(|f| f.path == "/turf/closed/mineral") {
        // these are drawn four pixels further out
        f.path = "/turf/closed/wall".into();
    }
    let (min, max) = region(g, &w);
    let names = ["icon-smoothing-2016", "icon-smoothing", "icon-smoothing-2025", "smart-cables"];
    let passes = render_passes::configure_list(&Default::default(), &names, &["all"]);
    let what = format!("tiles {:?} to {:?} of\n{}\n{}", min, max, w.code(), w.map_text());
    g.note(&what);
    g.nontrivial(w.width * w.height > (max.0 - min.0 + 1) * (max.1 - min.1 + 1));
    let s = scene(g, &w, icons)?;
    let (part, _) = s.render(&passes, min, max);
    let (whole, _) = s.render(&passes, (0, 0), (w.width - 1, w.height - 1));
    let (tw, th) = (max.0 - min.0 + 1, max.1 - min.1 + 1);
    compare(&part, &crop(&whole, min.0 * 32, (w.height - 1 - max.1) * 32, tw * 32, th * 32), &what)
}

pub fn r02() -> Prop {
    Prop {
        id: "R02",
        rule: "the part is smaller than the whole",
        assumptions: &["objects of tiles outside the part are left out of the part even where they reach into it, as the property allows"],
        subs: vec![
            Sub { name: "plain", quick: 1500, thorough: 40_000, run: part },
            Sub { name: "smoothed", quick: 1000, thorough: 30_000, run: part_smooth },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// R03

const PASSES: &[(&str, bool)] = &[
    ("hide-space", true),
    ("hide-areas", true),
    ("hide-invisible", true),
    ("random", true),
    ("pretty", true),
    ("spawners", true),
    ("overlays", true),
    ("transit-tube", true),
    ("gravity-gen", true),
    ("only-powernet", false),
    ("only-pipenet", false),
    ("fancy-layers", true),
    ("icon-smoothing-2016", false),
    ("icon-smoothing", true),
    ("icon-smoothing-2025", false),
    ("smart-cables", true),
    ("only-wires-and-pipes", false),
];

/// What a pass is, told from what it does to a few objects.
struct Probe {
    tree: ObjectTree,
}

const PROBE: &str = "
/atom/var/smooth
/atom/var/smoothing_flags
/atom/var/post_init_icon_state
/atom/var/spawn_list
/atom/var/welded
/atom/var/base_icon_state
/turf/open/space
/turf/s16
\tsmooth = 1
/turf/s20
\tsmoothing_flags = 2
/turf/s25
\tsmoothing_flags = 1
/obj/plain
\tplane = 5
/obj/structure/cable
/obj/structure/bookcase
/obj/structure/closet/crate
\twelded = 1
/obj/structure/transit_tube
/obj/machinery/atmospherics/pipe
/obj/machinery/gravity_generator/main
/obj/machinery/gravity_generator/part
/obj/effect/spawner/lootdrop
/obj/effect/spawner/structure
\tspawn_list = list(/obj/plain)
";

impl Probe {
    fn name(&self, pass: &dyn RenderPass) -> Vec<&'static str> {
        let t = &self.tree;
        let atom = |p: &str| {
            let mut a = minimap::Atom::from(t.find(p).unwrap_or_else(|| panic!("no type {}", p)));
            a.sprite = minimap::Sprite::from_vars(t, &a);
            a
        };
        let bump = bumpalo::Bump::new();
        let mut names = vec![];
        let late = |p: &str| pass.late_filter(&atom(p), t);
        match (late("/obj/plain"), late("/obj/structure/cable"), late("/obj/machinery/atmospherics/pipe")) {
            (true, true, true) => {},
            (false, true, false) => names.push("only-powernet"),
            (false, false, true) => names.push("only-pipenet"),
            (false, true, true) => names.push("only-wires-and-pipes"),
            _ => names.push("unknown filter"),
        }
        if late("/obj/plain") && !late("/turf/open/space") {
            names.push("hide-space");
        }
        if !pass.path_filter("/area/x") {
            names.push("hide-areas");
        }
        if !pass.path_filter("/obj/effect/spawner/xmastree") {
            names.push("hide-invisible");
        }
        if !pass.expand(&atom("/obj/effect/spawner/lootdrop"), t, &mut vec![]) {
            names.push("random");
        }
        if !pass.expand(&atom("/obj/effect/spawner/structure"), t, &mut vec![]) {
            names.push("spawners");
        }
        let adjusted = |p: &str| {
            let a = atom(p);
            let mut s = a.sprite.clone();
            pass.adjust_sprite(&a, &mut s, t, &bump);
            s
        };
        if adjusted("/obj/structure/bookcase").icon_state == "book-0" {
            names.push("pretty");
        }
        if adjusted("/obj/plain").plane == 0 {
            names.push("fancy-layers");
        }
        let overlays = |p: &str| {
            let (mut u, mut o) = (vec![], vec![]);
            let a = atom(p);
            pass.overlays(&a, t, &mut u, &mut o, &bump);
            u.len() + o.len()
        };
        for (p, name) in [("/obj/structure/closet/crate", "overlays"), ("/obj/structure/transit_tube", "transit-tube"), ("/obj/machinery/gravity_generator/main", "gravity-gen")] {
            if overlays(p) > 0 {
                names.push(name);
            }
        }
        let near = |p: &str| {
            let mut out = vec![];
            let a = atom(p);
            let list = [a.clone()];
            let n = minimap::Neighborhood::new([&[], &[], &[], &[], &list, &[], &[], &[], &[]]);
            pass.neighborhood_appearance(&a, t, &n, &mut out, &bump)
        };
        if !near("/turf/s16") {
            names.push("icon-smoothing-2016");
        }
        match (near("/turf/s20"), near("/turf/s25")) {
            (true, true) => {},
            (false, false) => names.push("icon-smoothing"),
            (true, false) => names.push("icon-smoothing-2025"),
            _ => names.push("unknown smoothing"),
        }
        if !near("/obj/structure/cable") {
            names.push("smart-cables");
        }
        names
    }
}

thread_local! {
    static PROBES: Probe = {
        let ctx = dm::Context::default();
        let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "probe.dm".into(), PROBE);
        let ind = dm::indents::IndentProcessor::new(&ctx, pp);
        Probe { tree: dm::parser::Parser::new(&ctx, ind).parse_object_tree() }
    };
}

fn switches(g: &G) -> R {
    let list = |g: &G| -> Vec<&'static str> {
        let n = *g.pick(&[0usize, 1, 1, 2, 3, 6]);
        (0..n).map(|_| if g.chance(1, 6) { "all" } else if g.chance(1, 10) { *g.pick(&["", "hide", "hide-spaces", "ALL", "icon-smoothin"]) } else { g.pick(PASSES).0 }).collect()
    };
    let (include, exclude) = (list(g), list(g));
    let mut config = BTreeMap::new();
    for _ in 0..g.len(0, 5) {
        config.insert(if g.chance(1, 10) { "all" } else { g.pick(PASSES).0 }, g.bool());
    }
    // through a configuration file
    let mut toml = String::from("[map_renderer]\n");
    if !config.is_empty() {
        toml.push_str("[map_renderer.render_passes]\n");
        for (k, v) in &config {
            toml.push_str(&format!("{} = {}\n", k, v));
        }
    }
    let what = format!("include {:?} exclude {:?} with\n{}", include, exclude, toml);
    g.note(&what);
    g.nontrivial(!include.is_empty() && !exclude.is_empty() && !config.is_empty());
    let path = crate::maps::write(g, "SpacemanDMM.toml", toml.as_bytes());
    let mut ctx = dm::Context::default();
    ctx.force_config(&path);
    ensure!(ctx.errors().is_empty(), "config", "configuration refused: {}", what);
    let cfg = ctx.config().map_renderer.clone();
    let mut want = vec![];
    for (name, default) in PASSES {
        let on = if include.contains(name) {
            true
        } else if exclude.contains(name) {
            false
        } else if include.contains(&"all") {
            true
        } else if exclude.contains(&"all") {
            false
        } else {
            *config.get(name).unwrap_or(default)
        };
        if on {
            want.push(*name);
        }
    }
    let passes = if g.bool() { render_passes::configure_list(&cfg, &include, &exclude) } else { render_passes::configure(&cfg, &include.join(","), &exclude.join(",")) };
    let got: Vec<String> = PROBES.with(|p| passes.iter().map(|x| p.name(&**x).join("+")).collect());
    ensure_eq!(got, want, "passes", "active passes for {}", what);
    let have: Vec<(&str, bool)> = render_passes::RENDER_PASSES.iter().map(|p| (p.name, p.default)).collect();
    ensure_eq!(&have[..], PASSES, "list", "the list of passes");
    Ok(())
}

pub fn r03() -> Prop {
    Prop {
        id: "R03",
        rule: "include list, exclude list and configuration all given",
        assumptions: &["a pass is recognised by what it does to a few probe objects", "the default of each pass is the one listed in RENDER_PASSES on the pinned tree"],
        subs: vec![Sub { name: "switches", quick: 5000, thorough: 100_000, run: switches }],
    }
}

// ------------------------------------------------------------------------------------------------
// R04

/// Two icons with every state the smoothing and wiring passes can name; made once per process.
fn shared_icons() -> &'static Icons {
    static S: OnceLock<Icons> = OnceLock::new();
    S.get_or_init(|| {
        let root = engine::scratch_base().join(format!("shared-{}", std::process::id()));
        std::fs::create_dir_all(&root).unwrap();
        let mut names: Vec<String> = ["", "a", "b", "c"].iter().map(|s| s.to_string()).collect();
        for (q, v, h) in [("1", "n", "w"), ("2", "n", "e"), ("3", "s", "w"), ("4", "s", "e")] {
            for e in ["i".to_string(), v.to_string(), h.to_string(), format!("{}{}", v, h), "f".to_string()] {
                names.push(format!("{}-{}", q, e));
            }
        }
        for d in ["se", "sw", "ne", "nw"] {
            for e in ["", "-0", "-1"] {
                names.push(format!("d-{}{}", d, e));
            }
        }
        for b in ["base", "x"] {
            for n in 0..256 {
                names.push(format!("{}-{}", b, n));
                names.push(format!("{}-{}-d", b, n));
            }
        }
        for l in ["l1", "l2", "l3"] {
            names.push(format!("{}-noconnection", l));
            for n in 1..16 {
                let parts: Vec<String> = [1, 2, 4, 8].iter().filter(|b| n & **b != 0).map(|b| b.to_string()).collect();
                names.push(format!("{}-{}", l, parts.join("-")));
                names.push(format!("{}-{}-node", l, parts.join("-")));
            }
        }
        names.push("vent_off".into());
        names.push("vent_map-1".into());
        let mut by_name = BTreeMap::new();
        for (k, file) in ["s0.dmi", "s1.dmi", "icons/turf/space.dmi", "icons/obj/items_and_weapons.dmi"].iter().enumerate() {
            let (w, h, cols) = (4u32, 4u32, 32usize);
            let mut all = names.clone();
            if k == 3 {
                all.push("syndballoon".into());
            }
            let rows = all.len().div_ceil(cols);
            let (iw, ih) = (w * cols as u32, h * rows as u32);
            let mut text = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {}\n\theight = {}\n", w, h);
            for n in &all {
                text.push_str(&format!("state = \"{}\"\n\tdirs = 1\n\tframes = 1\n", n));
            }
            text.push_str("# END DMI\n");
            let px: Vec<u8> = (0..(iw * ih) as u64)
                .flat_map(|i| {
                    let m = mix(i * 4 + k as u64 + 77);
                    [(m >> 16) as u8, (m >> 24) as u8, (m >> 32) as u8, [255u8, 128, 0, 128, 200][m as usize % 5]]
                })
                .collect();
            let mut data = vec![];
            {
                let mut e = png::Encoder::new(&mut data, iw, ih);
                e.set_depth(png::BitDepth::Eight);
                e.set_color(png::ColorType::Rgba);
                e.add_ztxt_chunk("Description".into(), text).unwrap();
                let mut wr = e.write_header().unwrap();
                wr.write_image_data(&px).unwrap();
            }
            let path = root.join(file);
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, &data).unwrap();
            let states = all
                .iter()
                .map(|n| icons::St { name: n.clone(), dirs: 1, frames: 1, delays: vec![1.0], loop_: 0, rewind: false, movement: false, lines: vec![] })
                .collect();
            by_name.insert(file.to_string(), (icons::Icon { width: w, height: h, states }, cols, Arc::new(IconFile::from_bytes(&data).expect("shared icon"))));
        }
        Icons { root, by_name }
    })
}

const SMOOTH_PATHS: &[&str] = &["/turf/closed/wall", "/turf/closed/wall/r", "/turf/closed/mineral", "/turf/open/floor", "/turf/open/floor/b", "/turf/other", "/obj/window", "/obj/window/full", "/obj/windows", "/mob/m"];

fn smooth_vars(g: &G, year: u32, vars: &mut Vars, n: usize) {
    for _ in 0..n {
        match g.usize(8) {
            0 | 1 => {
                if year == 2016 {
                    vars.insert("smooth", V::Num(*g.pick(&[1.0, 2.0, 3.0, 5.0, 6.0, 7.0, 9.0, 10.0, 13.0, 14.0, 4.0, 0.0, 8.0])));
                } else {
                    vars.insert("smoothing_flags", V::Num(*g.pick(&[1.0, 2.0, 5.0, 6.0, 9.0, 10.0, 13.0, 14.0, 3.0, 7.0, 4.0, 0.0])));
                }
            },
            2 | 3 => {
                let l = if g.chance(1, 8) {
                    V::Null
                } else if year == 2016 {
                    V::List((0..g.len(0, 3)).map(|_| if g.chance(1, 6) { V::Str(g.pick(&["/turf/closed", "/obj/window"]).to_string()) } else { V::Path(g.pick(&["/turf/closed", "/turf/closed/wall", "/turf/closed/wall/r", "/obj/window", "/obj/window/full", "/obj", "/turf/open/floor"]).to_string()) }).collect())
                } else {
                    V::List((0..g.len(0, 3)).map(|_| if g.chance(1, 6) { V::Str(g.pick(&["s", "1"]).to_string()) } else { V::Num(g.range(1, 4) as f32) }).collect())
                };
                vars.insert("canSmoothWith", l);
            },
            4 => {
                let l = if g.chance(1, 8) { V::Null } else { V::List((0..g.len(0, 3)).map(|_| if g.chance(1, 6) { V::Str("s".into()) } else { V::Num(g.range(1, 4) as f32) }).collect()) };
                vars.insert("smoothing_groups", l);
            },
            5 => {
                vars.insert("base_icon_state", V::Str(g.pick(&["base", "x"]).to_string()));
            },
            6 => {
                let (k, v) = match g.usize(7) {
                    0 => ("smooth_icon", V::Res(g.pick(&["s0.dmi", "s1.dmi"]).to_string())),
                    1 => ("broken", V::Num(g.below(2) as f32)),
                    2 => ("burnt", V::Num(g.below(2) as f32)),
                    3 => ("can_be_unanchored", V::Num(g.below(2) as f32)),
                    4 => ("anchored", V::Num(g.below(2) as f32)),
                    5 => ("post_init_icon_state", if g.bool() { V::Null } else { V::Str("a".into()) }),
                    _ => ("icon_state", V::Str(g.pick(&["a", "b", "c"]).to_string())),
                };
                vars.insert(k, v);
            },
            _ => {
                let (k, v) = match g.usize(3) {
                    0 => ("layer", V::Num(*g.pick(&[2.0, 2.5, 3.0, 1.0]))),
                    1 => ("color", V::Str(g.pick(COLORS).0.to_string())),
                    _ => ("pixel_x", V::Num(g.range(0, 3) as f32)),
                };
                vars.insert(k, v);
            },
        }
    }
}

fn smooth_world(g: &G, year: u32, cables: bool) -> World {
    let mut w = World { declare: vec!["smooth", "canSmoothWith", "smoothing_flags", "smoothing_groups", "base_icon_state", "smooth_icon", "broken", "burnt", "can_be_unanchored", "anchored", "post_init_icon_state", "fixed_underlay", "cable_layer"], ..World::default() };
    for p in SMOOTH_PATHS {
        let mut vars = Vars::new();
        if p.matches('/').count() == 2 || *p == "/turf/closed/wall" || *p == "/turf/closed/mineral" {
            vars.insert("icon", V::Res(g.pick(&["s0.dmi", "s1.dmi"]).to_string()));
            vars.insert("base_icon_state", V::Str("base".into()));
            vars.insert("icon_state", V::Str("a".into()));
        }
        if *p == "/turf/open/floor" {
            vars.insert("icon", V::Res("s1.dmi".into()));
            vars.insert("icon_state", V::Str("b".into()));
        }
        if g.chance(3, 4) {
            if year == 2016 {
                vars.insert("smooth", V::Num(*g.pick(&[1.0, 2.0, 5.0, 6.0, 10.0])));
            } else {
                vars.insert("smoothing_flags", V::Num(*g.pick(&[1.0, 2.0, 5.0, 6.0, 10.0])));
            }
        }
        smooth_vars(g, year, &mut vars, g.len(0, 4));
        w.types.insert(p.to_string(), vars);
    }
    if !g.chance(1, 12) {
        w.types.insert("/turf/open/space/basic".into(), Vars::from([("icon", V::Res("s0.dmi".into())), ("icon_state", V::Str("c".into()))]));
    }
    // not every code base has them
    if !g.chance(1, 12) {
        w.types.insert("/turf/open/floor/plating".into(), Vars::from([("icon", V::Res("s0.dmi".into())), ("icon_state", V::Str("b".into()))]));
    }
    if g.chance(1, 4) {
        let v = g.pick(&["list(\"space\" = 1)", "list(\"space\" = 1)", "list(\"icon\" = 'a.dmi')", "null", "list(\"space\")"]).to_string();
        w.types.get_mut(*g.pick(&["/turf/closed/wall", "/turf/closed/wall/r"])).unwrap().insert("fixed_underlay", V::Raw(v));
    }
    let mut used = vec![];
    for _ in 0..1 + g.usize(4) {
        used.push(*g.pick(SMOOTH_PATHS));
    }
    if cables {
        used.clear();
        for p in ["/obj/structure/cable", "/obj/structure/cable/sub", "/obj/structure/cable/multilayer", "/obj/structure/cables", "/obj/machinery/power/terminal", "/obj/machinery/power/smes", "/obj/machinery/power/smes/x", "/obj/machinery/power/other", "/obj/structure/grille", "/obj/structure/cable_bridge"] {
            w.types.insert(p.to_string(), Vars::from([("icon", V::Res("s0.dmi".into()))]));
            if g.chance(2, 3) {
                used.push(p);
            }
        }
        used.extend(["/obj/structure/cable"; 4]);
        if g.chance(1, 3) {
            w.types.get_mut("/obj/structure/cable").unwrap().insert("cable_layer", V::Str(g.pick(&["l1", "l2"]).to_string()));
        }
    }
    w.width = 1 + g.usize(5);
    w.height = 1 + g.usize(5);
    for _ in 0..w.width * w.height {
        let n = if cables { g.len(1, 3) } else { g.len(1, 2) };
        let mut tile = vec![];
        for _ in 0..n {
            let mut vars = Vars::new();
            if g.chance(1, 8) {
                smooth_vars(g, year, &mut vars, 1);
            }
            let path = g.pick(&used).to_string();
            if path.starts_with("/obj/structure/cable") && g.chance(1, 3) {
                vars.insert("cable_layer", V::Str(g.pick(&["l1", "l2", "l3"]).to_string()));
            }
            tile.push(Fab { path, vars });
        }
        w.tiles.push(tile);
    }
    w
}

/// (dx, dy with y growing downwards)
const STEP: [(&str, i64, i64); 8] = [("n", 0, -1), ("s", 0, 1), ("e", 1, 0), ("w", -1, 0), ("ne", 1, -1), ("se", 1, 1), ("sw", -1, 1), ("nw", -1, -1)];

/// Which of the eight neighbours an object joins with; corners only between two joined sides.
fn joins(w: &World, x: usize, y: usize, a: &Fab, year: u32, flags: i32) -> BTreeMap<&'static str, bool> {
    let one = |dx: i64, dy: i64| -> bool {
        let Some(tile) = w.tile(x as i64 + dx, y as i64 + dy) else { return flags & 8 != 0 };
        match w.get(a, "canSmoothWith") {
            V::List(want) if year == 2016 => tile.iter().any(|b| {
                want.iter().any(|v| match v {
                    V::Path(p) | V::Str(p) => if flags & 2 != 0 { under(&b.path, p) } else { *p == b.path },
                    _ => false,
                })
            }),
            V::List(want) => tile.iter().any(|b| match w.get(b, "smoothing_groups") {
                V::List(have) => want.iter().any(|v| have.contains(v)),
                _ => false,
            }),
            _ => tile.iter().any(|b| b.path == a.path),
        }
    };
    let mut m: BTreeMap<&'static str, bool> = STEP.iter().map(|s| (s.0, one(s.1, s.2))).collect();
    let loose = year != 2016 && (a.path.starts_with("/obj") || a.path.starts_with("/mob")) && w.get(a, "can_be_unanchored").truth() && !w.get(a, "anchored").truth();
    for s in ["n", "s", "e", "w"] {
        if loose {
            m.insert(s, false);
        }
    }
    for c in ["ne", "se", "sw", "nw"] {
        let ok = m[&c[..1]] && m[&c[1..]] && m[c];
        m.insert(c, ok);
    }
    m
}

/// If exactly one corner's two sides are joined: that corner.
fn only_corner(m: &BTreeMap<&'static str, bool>) -> Option<&'static str> {
    let sides: String = ["n", "s"].iter().chain(&["e", "w"]).filter(|s| m[**s]).copied().collect();
    ["ne", "se", "sw", "nw"].into_iter().find(|c| *c == sides)
}

fn opposite(c: &str) -> Vec<(i64, i64)> {
    // straight away from the corner, then 45 degrees left, then right
    let ring = ["n", "ne", "e", "se", "s", "sw", "w", "nw"];
    let i = ring.iter().position(|r| *r == c).unwrap() + 4;
    [i, i + 7, i + 1].iter().map(|k| STEP.iter().find(|s| s.0 == ring[k % 8]).map(|s| (s.1, s.2)).unwrap()).collect()
}

fn underlay(w: &World, x: usize, y: usize, a: &Fab, c: &str) -> Option<Look> {
    let bare = |p: &str| if w.types.contains_key(p) { Some(w.look(&Fab { path: p.into(), vars: Vars::new() })) } else { None };
    if w.get(a, "fixed_underlay") == V::Raw("list(\"space\" = 1)".into()) {
        return bare("/turf/open/space/basic");
    }
    for (dx, dy) in opposite(c) {
        if let Some(t) = w.tile(x as i64 + dx, y as i64 + dy) {
            if let Some(b) = t.iter().find(|b| under(&b.path, "/turf/open")) {
                return Some(w.look(b));
            }
        }
    }
    bare("/turf/open/floor/plating")
}

fn smoothed(w: &World, x: usize, y: usize, a: &Fab, year: u32) -> Vec<Look> {
    let mut me = w.look(a);
    if under(&a.path, "/turf/closed/mineral") {
        me.x -= 4;
        me.y -= 4;
    }
    let flags = w.num(a, if year == 2016 { "smooth" } else { "smoothing_flags" }).unwrap_or(0.0) as i32;
    let (corners, bits) = match year {
        2016 => (flags & 3 != 0, false),
        2020 => (flags & 1 != 0, flags & 3 == 2),
        _ => (false, flags & 1 != 0),
    };
    if !corners && !bits {
        return vec![me];
    }
    let m = joins(w, x, y, a, year, flags);
    let mut out = vec![];
    let show = |state: String| {
        let mut l = me.clone();
        l.state = state;
        if let V::Res(i) = w.get(a, "smooth_icon") {
            l.icon = i;
        }
        l
    };
    let corner = only_corner(&m).filter(|_| flags & 4 != 0);
    if corners {
        if let Some(c) = corner {
            if under(&a.path, "/turf/closed/wall") {
                out.extend(underlay(w, x, y, a, c));
            }
            let opp = match c {
                "ne" => "sw",
                "nw" => "se",
                "se" => "nw",
                _ => "ne",
            };
            out.push(show(format!("d-{}", opp)));
            out.push(show(format!("d-{}-{}", opp, m[c] as u8)));
        } else {
            for (q, v, h) in [("1", "n", "w"), ("2", "n", "e"), ("3", "s", "w"), ("4", "s", "e")] {
                let both = format!("{}{}", v, h);
                out.push(show(format!(
                    "{}-{}",
                    q,
                    match (m[v], m[h]) {
                        (true, true) if m[both.as_str()] => "f",
                        (true, true) => &both,
                        (true, false) => v,
                        (false, true) => h,
                        _ => "i",
                    }
                )));
            }
        }
    } else {
        let mut d = "";
        if under(&a.path, "/turf/open/floor") {
            if w.get(a, "broken").truth() || w.get(a, "burnt").truth() {
                return vec![me];
            }
        } else if under(&a.path, "/turf/closed") && flags & 4 != 0 {
            let sides: Vec<&str> = ["n", "s", "e", "w"].into_iter().filter(|s| m[s]).collect();
            // a single joined side is cut off as well
            let c = corner.or(if sides.len() == 1 { Some(sides[0]) } else { None });
            if let Some(c) = c {
                out.extend(underlay(w, x, y, a, c));
                d = "-d";
            }
        }
        if year == 2025 && w.get(a, "post_init_icon_state") != V::Null {
            out.push(me);
            return out;
        }
        let n: u32 = STEP.iter().enumerate().map(|(i, s)| (m[s.0] as u32) << i).sum();
        out.push(show(format!("{}-{}{}", w.text(a, "base_icon_state"), n, d)));
    }
    out
}

fn whole(g: &G, w: &World, icons: &Icons, passes: &[Box<dyn RenderPass>], looks: Vec<((usize, usize), Look)>, what: &str) -> R {
    let s = scene(g, w, icons)?;
    let mut bad = vec![];
    let want = paint(icons, looks, 0, 0, w.width - 1, w.height - 1, &mut bad);
    let (got, errors) = s.render(passes, (0, 0), (w.width - 1, w.height - 1));
    compare(&got, &want, what)?;
    bad.sort();
    bad.dedup();
    ensure_eq!(errors.len(), bad.len(), "errors", "problems noted {:?}, expected for {:?}\n{}", errors, bad, what);
    Ok(())
}

fn smoothing(g: &G) -> R {
    let year = *g.pick(&[2016, 2020, 2025]);
    let w = smooth_world(g, year, false);
    let pass = match year {
        2016 => "icon-smoothing-2016",
        2020 => "icon-smoothing",
        _ => "icon-smoothing-2025",
    };
    let what = format!("{}\n{}\n{}", pass, w.code(), w.map_text());
    g.note(&what);
    g.label(pass);
    let passes = render_passes::configure_list(&Default::default(), &[pass], &["all"]);
    let mut looks = vec![];
    for y in 0..w.height {
        for x in 0..w.width {
            for a in w.tile(x as i64, y as i64).unwrap() {
                if w.look(a).icon.is_empty() {
                    continue;
                }
                let v = smoothed(&w, x, y, a, year);
                g.nontrivial(v.iter().any(|l| l.state.contains('-') && l.state != "base-0" && !l.state.ends_with("-i")));
                g.label_if(v.iter().any(|l| l.state.starts_with("d-") || l.state.ends_with("-d")), "diagonal");
                looks.extend(v.into_iter().map(|l| ((x, y), l)));
            }
        }
    }
    whole(g, &w, shared_icons(), &passes, looks, &what)
}

fn cables(g: &G) -> R {
    let w = smooth_world(g, 2020, true);
    let what = format!("{}\n{}", w.code(), w.map_text());
    g.note(&what);
    let passes = render_passes::configure_list(&Default::default(), &["smart-cables"], &["all"]);
    let mut looks = vec![];
    let has = |t: &[Fab], p: &str| t.iter().any(|b| under(&b.path, p));
    let layer = |a: &Fab| match w.get(a, "cable_layer") {
        V::Str(s) => s,
        _ => "l2".into(),
    };
    for y in 0..w.height {
        for x in 0..w.width {
            let here = w.tile(x as i64, y as i64).unwrap();
            for a in here {
                let mut l = w.look(a);
                if under(&a.path, "/obj/structure/cable") && !under(&a.path, "/obj/structure/cable/multilayer") {
                    let (smes, term) = (has(here, "/obj/machinery/power/smes"), has(here, "/obj/machinery/power/terminal"));
                    let mut s = layer(a);
                    let mut n = 0;
                    for (bit, dx, dy) in [(1, 0, -1), (2, 0, 1), (4, 1, 0), (8, -1, 0)] {
                        let Some(t) = w.tile(x as i64 + dx, y as i64 + dy) else { continue };
                        let cut = if smes { has(t, "/obj/machinery/power/terminal") } else { term && has(t, "/obj/machinery/power/smes") };
                        if !cut && t.iter().any(|b| under(&b.path, "/obj/structure/cable") && layer(b) == layer(a)) {
                            s.push_str(&format!("-{}", bit));
                            n += 1;
                        }
                    }
                    if n == 0 {
                        s.push_str("-noconnection");
                    } else if n > 1 && (has(here, "/obj/structure/grille") || has(here, "/obj/structure/cable_bridge") || has(here, "/obj/machinery/power")) {
                        s.push_str("-node");
                    }
                    g.nontrivial(n >= 2);
                    l.state = s;
                }
                looks.push(((x, y), l));
            }
        }
    }
    whole(g, &w, shared_icons(), &passes, looks, &what)
}

const HIDE_PATHS: &[&str] = &[
    "/area/z",
    "/turf/open/space",
    "/turf/open/space/x",
    "/turf/template_noop",
    "/turf/open/floor/plating",
    "/turf/open/floor",
    "/turf/closed/mineral",
    "/turf/closed/wall",
    "/turf/open/lava",
    "/obj/a",
    "/obj/a/b",
    "/obj/ab",
    "/obj/structure/cable",
    "/obj/structure/cables",
    "/obj/structure/disposalpipe/x",
    "/obj/structure/lattice",
    "/obj/machinery/atmospherics/pipe",
    "/obj/machinery/atmospherics/pipe/visible",
    "/obj/machinery/atmospherics/components/unary/vent",
    "/obj/machinery/power/terminal",
    "/obj/machinery/navbeacon",
    "/obj/effect/turf_decal/x",
    "/obj/effect/mapping_helpers/x",
    "/obj/effect/mapping_helper",
    "/obj/effect/spawner/xmastree",
    "/obj/effect/spawner/structure/w",
    "/obj/item/toy/syndicateballoon",
    "/obj/item/x",
];

const HIDERS: &[&str] = &["hide-space", "hide-areas", "hide-invisible", "only-powernet", "only-pipenet", "only-wires-and-pipes", "fancy-layers", "spawners"];

fn fancy(p: &str) -> Option<f32> {
    let u = |q: &str| under(p, q);
    if u("/turf") {
        return Some(if u("/turf/open/floor/plating") || u("/turf/open/space") {
            -10.0
        } else if u("/turf/closed/mineral") {
            -3.0
        } else if u("/turf/open/floor") || u("/turf/closed") {
            -2.0
        } else {
            -10.0
        });
    }
    for (q, l) in [
        ("/obj/effect/turf_decal", -1.0),
        ("/obj/structure/disposalpipe", -6.0),
        ("/obj/structure/cable", -4.0),
        ("/obj/machinery/power/terminal", -3.5),
        ("/obj/structure/lattice", -8.0),
        ("/obj/machinery/navbeacon", -3.0),
    ] {
        if u(q) {
            return Some(l);
        }
    }
    if u("/obj/machinery/atmospherics/pipe") && !p.contains("visible") {
        return Some(-5.0);
    }
    None
}

fn hiding(g: &G) -> R {
    let mut w = World { declare: vec!["spawn_list"], ..World::default() };
    for p in HIDE_PATHS {
        let mut v = Vars::from([("icon", V::Res(g.pick(&["s0.dmi", "s1.dmi", "s0.dmi", "s1.dmi", "icons/turf/space.dmi", "icons/obj/items_and_weapons.dmi"]).to_string())), ("icon_state", V::Str(g.pick(&["a", "b", "c", "syndballoon"]).to_string()))]);
        if g.chance(1, 5) {
            v.insert("invisibility", V::Num(*g.pick(&[0.0, 60.0, 61.0, 101.0, 60.5])));
        }
        if g.chance(1, 4) {
            v.insert("layer", V::Num(*g.pick(&[1.0, 2.0, 3.5, -5.0])));
        }
        if g.chance(1, 4) {
            v.insert("plane", V::Num(*g.pick(&[1.0, -2.0])));
        }
        w.types.insert(p.to_string(), v);
    }
    w.types.insert("/obj/structure/grille".into(), Vars::from([("icon", V::Res("s0.dmi".into())), ("icon_state", V::Str("b".into()))]));
    w.types.insert("/obj/structure/window/reinforced".into(), Vars::from([("icon", V::Res("s1.dmi".into())), ("icon_state", V::Str("c".into()))]));
    if g.chance(4, 5) {
        let l = (0..g.len(0, 3)).map(|_| V::Path(g.pick(&["/obj/structure/grille", "/obj/structure/window/reinforced"]).to_string())).collect();
        w.types.get_mut("/obj/effect/spawner/structure/w").unwrap().insert("spawn_list", V::List(l));
    }
    // passes
    let on: Vec<&str> = HIDERS.iter().copied().filter(|p| if p.starts_with("only") { g.chance(1, 10) } else { g.chance(2, 3) }).collect();
    let mut cfg = dm::config::MapRenderer::default();
    let mut hide: Vec<String> = vec![];
    for _ in 0..*g.pick(&[0usize, 0, 1, 2, 3]) {
        hide.push(format!("{}{}", g.pick(&["/obj/a", "/obj/a/b", "/obj/item", "/turf/open", "/obj/machinery/atmospherics", "/obj/structure/cable", "/mob"]), g.pick(&["", "/"])));
    }
    let mut layer: BTreeMap<String, f32> = BTreeMap::new();
    for _ in 0..*g.pick(&[0usize, 0, 1, 2, 3]) {
        layer.insert(g.pick(&["/obj/a", "/obj/a/b", "/obj", "/turf/open", "/turf/open/floor/plating", "/obj/machinery/atmospherics", "/obj/structure/cable"]).to_string(), g.range(-8, 8) as f32 / 2.0);
    }
    cfg.hide_invisible = hide.clone();
    cfg.fancy_layers = layer.iter().map(|(k, v)| (if g.chance(1, 4) { format!("{}/", k) } else { k.clone() }, *v)).collect();
    let passes = render_passes::configure_list(&cfg, &on, &["all"]);
    let used: Vec<&str> = (0..2 + g.usize(8)).map(|_| *g.pick(HIDE_PATHS)).collect();
    w.width = 1 + g.usize(3);
    w.height = 1 + g.usize(3);
    for _ in 0..w.width * w.height {
        let tile = (0..g.len(1, 4))
            .map(|_| {
                let mut vars = Vars::new();
                if g.chance(1, 5) {
                    let (k, v) = match g.usize(5) {
                        0 => ("invisibility", V::Num(*g.pick(&[0.0, 60.0, 61.0, 101.0, 1.0]))),
                        1 => ("icon_state", V::Str(g.pick(&["a", "vent_map-1", "syndballoon"]).to_string())),
                        2 => ("icon", V::Res(g.pick(&["s0.dmi", "icons/turf/space.dmi", "icons/obj/items_and_weapons.dmi"]).to_string())),
                        3 => ("layer", V::Num(*g.pick(&[1.0, 2.0, 3.5, -5.0, -3.0]))),
                        _ => ("plane", V::Num(*g.pick(&[1.0, -2.0]))),
                    };
                    vars.insert(k, v);
                }
                Fab { path: g.pick(&used).to_string(), vars }
            })
            .collect();
        w.tiles.push(tile);
    }
    let what = format!("{:?} hide {:?} layers {:?}\n{}\n{}", on, hide, layer, w.code(), w.map_text());
    g.note(&what);
    let is = |p: &str| on.contains(&p);
    let mut looks = vec![];
    let mut hidden = 0;
    for y in 0..w.height {
        for x in 0..w.width {
            for a in w.tile(x as i64, y as i64).unwrap() {
                let gone = is("hide-areas") && under(&a.path, "/area")
                    || is("hide-invisible")
                        && (under(&a.path, "/obj/effect/spawner/xmastree")
                            || hide.iter().any(|h| under(&a.path, h))
                            || w.num(a, "invisibility").unwrap_or(0.0) > 60.0
                            || under(&a.path, "/obj/effect/mapping_helpers")
                            || w.look(a).icon == "icons/obj/items_and_weapons.dmi" && w.look(a).state == "syndballoon" && !under(&a.path, "/obj/item/toy/syndicateballoon"));
                if gone {
                    hidden += 1;
                    continue;
                }
                let bare = |p: &str| Fab { path: p.into(), vars: Vars::new() };
                let mut parts = vec![a.clone()];
                if is("hide-space") && under(&a.path, "/turf/template_noop") {
                    parts = vec![bare("/turf/open/space")];
                } else if is("spawners") && under(&a.path, "/obj/effect/spawner/structure") {
                    if let V::List(l) = w.get(a, "spawn_list") {
                        parts = l.iter().map(|v| if let V::Path(p) = v { bare(p) } else { unreachable!() }).collect();
                        g.label("spawner replaced");
                    }
                }
                for b in parts {
                    let cable = under(&b.path, "/obj/structure/cable");
                    let pipe = under(&b.path, "/obj/machinery/atmospherics/pipe");
                    if is("hide-space") && under(&b.path, "/turf/open/space") || is("only-powernet") && !cable || is("only-pipenet") && !pipe || is("only-wires-and-pipes") && !cable && !pipe {
                        hidden += 1;
                        continue;
                    }
                    let mut l = w.look(&b);
                    let mut over = None;
                    if is("fancy-layers") {
                        l.plane = 0;
                        let best = layer.iter().filter(|(k, _)| under(&b.path, k)).max_by_key(|(k, _)| k.len());
                        let original = l.layer;
                        if let Some(f) = best.map(|k| *k.1).or(fancy(&b.path)) {
                            l.layer = f;
                        }
                        if under(&b.path, "/obj/machinery/atmospherics/components/unary") && l.state == "vent_map-1" {
                            l.layer = -5.0;
                            let mut o = l.clone();
                            o.layer = original;
                            o.state = "vent_off".into();
                            over = Some(o);
                            g.label("vent in two layers");
                        }
                    }
                    for s in std::iter::once(l).chain(over) {
                        if is("hide-space") && s.icon == "icons/turf/space.dmi" {
                            hidden += 1;
                        } else {
                            looks.push(((x, y), s));
                        }
                    }
                }
            }
        }
    }
    g.nontrivial(hidden > 0 && looks.len() > 1);
    whole(g, &w, shared_icons(), &passes, looks, &what)
}

pub fn r04() -> Prop {
    Prop {
        id: "R04",
        rule: "some object joins a neighbour (smoothing), some cable has two connections (cables), something is hidden and something shown (hiding)",
        assumptions: &[
            "every tile holds at least one object of a known type",
            "in the bitmask systems a closed turf with diagonal corners that joins on a single side shows the cut-off state and an underlay too, as the code does",
        ],
        subs: vec![
            Sub { name: "smoothing", quick: 4000, thorough: 100_000, run: smoothing },
            Sub { name: "cables", quick: 1500, thorough: 40_000, run: cables },
            Sub { name: "hiding", quick: 3000, thorough: 80_000, run: hiding },
        ],
    }
}
