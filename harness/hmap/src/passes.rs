//! R05: what the cosmetic, structure, spawner and random passes make of an object.
use crate::render::{under, Fab, Look, Vars, World, V};
use dm::objtree::ObjectTree;
use dmm_tools::dmi::Dir;
use dmm_tools::dmm::Prefab;
use dmm_tools::minimap::{Atom, GetVar, Layer, Sprite};
use dmm_tools::render_passes::{self, RenderPass};
use engine::{ensure, fail, Prop, Sub, G, R};
use std::collections::BTreeMap;

fn tree_of(w: &World) -> ObjectTree {
    let ctx = dm::Context::default();
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), w.code());
    let ind = dm::indents::IndentProcessor::new(&ctx, pp);
    let tree = dm::parser::Parser::new(&ctx, ind).parse_object_tree();
    let errors: Vec<String> = ctx.errors().iter().map(|e| e.to_string()).collect();
    assert!(errors.is_empty(), "code of the harness: {:?}\n{}", errors, w.code());
    tree
}

fn prefab_of(a: &Fab) -> Prefab {
    let mut p = Prefab::from_path(a.path.as_str());
    for (k, v) in &a.vars {
        p.vars.insert(k.to_string(), dm::constants::evaluate_str(Default::default(), v.dm().as_bytes()).expect("value"));
    }
    p
}

fn passes(on: &[&str]) -> Vec<Box<dyn RenderPass>> {
    render_passes::configure_list(&dm::config::MapRenderer::default(), on, &["all"])
}

fn bare(path: &str) -> Fab {
    Fab { path: path.into(), vars: Vars::new() }
}

type Seen = (String, String, i32, i64, i64, String, i64, [u8; 4]);

fn seen(s: &Sprite) -> Seen {
    (s.icon.into(), s.icon_state.into(), s.dir.to_int(), s.ofs_x as i64, s.ofs_y as i64, format!("{:?}", s.layer), s.plane as i64, s.color)
}

fn want(l: &Look) -> Seen {
    (l.icon.clone(), l.state.clone(), l.dir.to_int(), l.x, l.y, format!("{:?}", Layer::from(l.layer)), l.plane, l.color)
}

// ------------------------------------------------------------------------------------------------
// overlays

const OBJS: &[(&str, &[&str])] = &[
    ("/turf/closed/indestructible/fakeglass", &[]),
    ("/turf/closed/indestructible/fakeglass/b", &[]),
    ("/turf/closed/indestructible/fakeglasses", &[]),
    ("/obj/structure/closet/crate", &["opened", "broken", "locked", "secure", "welded", "weld_w", "weld_z", "lid_icon_state", "lid_icon", "lid_w", "lid_z", "enable_door_overlay"]),
    ("/obj/structure/closet/crate/secure", &["opened", "broken", "locked", "secure", "welded", "weld_w", "weld_z", "lid_icon_state", "lid_icon", "lid_w", "lid_z"]),
    ("/obj/structure/closet", &["opened", "broken", "locked", "secure", "welded", "icon_door", "icon_door_override", "enable_door_overlay", "has_closed_overlay", "lid_icon_state"]),
    ("/obj/structure/closet/cabinet", &["opened", "broken", "locked", "secure", "welded", "icon_door", "icon_door_override", "enable_door_overlay", "has_closed_overlay"]),
    ("/obj/structure/closet/crates", &["opened", "secure", "icon_door", "enable_door_overlay", "has_closed_overlay"]),
    ("/obj/structure/closets", &["opened", "secure", "welded", "enable_door_overlay"]),
    ("/obj/machinery/computer", &["icon_screen", "icon_keyboard"]),
    ("/obj/machinery/computer/arcade", &["icon_screen", "icon_keyboard"]),
    ("/obj/machinery/power/solar_control", &["icon_screen", "icon_keyboard"]),
    ("/obj/machinery/computerframe", &["icon_screen", "icon_keyboard"]),
    ("/obj/machinery/door/airlock", &["glass", "overlays_file", "can_be_glass"]),
    ("/obj/machinery/door/airlock/public", &["glass", "overlays_file", "can_be_glass"]),
    ("/obj/machinery/door", &["glass", "overlays_file", "can_be_glass"]),
    ("/obj/machinery/power/apc", &[]),
    ("/obj/machinery/power/apc/auto", &[]),
    ("/obj/structure/bookcase", &[]),
    ("/obj/structure/bookcase/random", &[]),
    ("/obj/item/storage/box", &["illustration"]),
    ("/obj/item/storage/box/lights", &["illustration"]),
    ("/obj/item/storage/box/papersack", &["illustration"]),
    ("/obj/item/storage/boxes", &["illustration"]),
    ("/obj/machinery/firealarm", &[]),
    ("/obj/structure/tank_dispenser", &["oxygentanks", "plasmatanks"]),
    ("/obj/structure/tank_dispenser/oxygen", &["oxygentanks", "plasmatanks"]),
    ("/obj/machinery/gravity_generator/main", &[]),
    ("/obj/machinery/gravity_generator/main/station", &[]),
    ("/obj/machinery/gravity_generator", &[]),
    ("/mob/m", &["opened", "glass"]),
];

const DECLARE: &[&str] = &[
    "opened", "broken", "locked", "secure", "welded", "weld_w", "weld_z", "lid_icon_state", "lid_icon", "lid_w", "lid_z", "enable_door_overlay", "icon_door", "icon_door_override", "has_closed_overlay", "icon_screen",
    "icon_keyboard", "glass", "overlays_file", "can_be_glass", "illustration", "oxygentanks", "plasmatanks", "loot", "lootcount", "lootdoubles", "spawn_list",
];

fn val(g: &G, name: &str) -> V {
    match name {
        "weld_w" | "weld_z" | "lid_w" | "lid_z" => V::Num(g.range(-20, 20) as f32),
        "oxygentanks" | "plasmatanks" => V::Num(g.range(-1, 12) as f32),
        "lid_icon_state" | "icon_door" | "icon_screen" | "icon_keyboard" | "illustration" => {
            if g.chance(1, 6) {
                V::Null
            } else {
                V::Str(g.pick(&["a", "door", "lid", "x_1"]).to_string())
            }
        },
        "lid_icon" | "overlays_file" => match g.usize(4) {
            0 => V::Null,
            1 => V::Str("text.dmi".into()),
            _ => V::Res("other.dmi".into()),
        },
        _ => match g.usize(8) {
            0 => V::Null,
            1 => V::Str(g.pick(&["", "yes"]).to_string()),
            2 | 3 | 4 => V::Num(0.0),
            5 => V::Num(2.0),
            _ => V::Num(1.0),
        },
    }
}

fn looks(g: &G, v: &mut Vars, n: usize) {
    for _ in 0..n {
        let (k, x) = match g.usize(8) {
            0 => ("icon", V::Res(g.pick(&["s0.dmi", "s1.dmi"]).to_string())),
            1 => ("icon_state", V::Str(g.pick(&["a", "b", "closed"]).to_string())),
            2 | 3 => ("dir", V::Num(*g.pick(&[1.0, 2.0, 4.0, 8.0, 5.0, 9.0, 6.0, 10.0, 0.0, 3.0]))),
            4 => (*g.pick(&["pixel_x", "pixel_y", "pixel_w", "pixel_z"]), V::Num(g.range(-32, 32) as f32)),
            5 => ("layer", V::Num(*g.pick(&[1.0, 2.5, 4.25, -1.0]))),
            6 => ("plane", V::Num(*g.pick(&[0.0, 1.0, -2.0]))),
            _ => ("color", V::Str(g.pick(&["#ff0000", "#0080fF"]).to_string())),
        };
        v.insert(k, x);
    }
}

/// The object itself, what is under it and what is over it.
fn cosmetics(w: &World, a: &Fab, on: &[&str], has: &dyn Fn(&str) -> bool) -> (Look, Vec<Look>, Vec<Look>) {
    let is = |p: &str| under(&a.path, p);
    let yes = |v: &str| match w.get(a, v) {
        V::Null => false,
        V::Num(f) => f != 0.0,
        V::Str(s) => !s.is_empty(),
        _ => true,
    };
    let text = |v: &str| match w.get(a, v) {
        V::Str(s) => Some(s),
        _ => None,
    };
    let file = |v: &str| match w.get(a, v) {
        V::Str(s) | V::Res(s) => Some(s),
        _ => None,
    };
    let int = |v: &str| w.num(a, v).unwrap_or(0.0) as i64;
    let mut base = w.look(a);
    let dir = w.num(a, "dir").unwrap();
    let (mut below, mut above) = (vec![], vec![]);
    if on.contains(&"pretty") && is("/obj/structure/bookcase") {
        base.state = "book-0".into();
    }
    if on.contains(&"overlays") && is("/obj/machinery/power/apc") {
        match dir as i32 {
            1 => base.y = 23,
            2 => base.y = -23,
            4 => base.x = 24,
            8 => base.x = -25,
            _ => {},
        }
    }
    let add = |s: &str| Look { state: s.into(), ..base.clone() };
    if on.contains(&"pretty") {
        if is("/obj/item/storage/box") && !is("/obj/item/storage/box/papersack") {
            above.extend(text("illustration").map(|s| add(&s)));
        }
        if is("/obj/machinery/firealarm") {
            above.extend([add("fire_overlay"), add("fire_disabled")]);
        }
        if is("/obj/structure/tank_dispenser") {
            for (v, name, most) in [("oxygentanks", "oxygen", 4), ("plasmatanks", "plasma", 5)] {
                let n = int(v).min(most);
                if n > 0 {
                    above.push(add(&format!("{}-{}", name, n)));
                }
            }
        }
    }
    if on.contains(&"overlays") {
        if is("/turf/closed/indestructible/fakeglass") {
            below.push(Look { icon: "icons/turf/floors.dmi".into(), ..add("plating") });
            below.push(Look { icon: "icons/obj/structures.dmi".into(), ..add("grille") });
        } else if is("/obj/structure/closet/crate") {
            if !yes("opened") {
                let light = [("broken", "securecrateemag"), ("locked", "securecrater"), ("secure", "securecrateg")];
                above.extend(light.iter().find(|l| yes(l.0)).map(|l| add(l.1)));
            }
            if yes("welded") {
                above.push(Look { x: base.x + int("weld_w"), y: base.y + int("weld_z"), ..add("welded") });
            }
            if let (true, Some(s)) = (yes("opened"), text("lid_icon_state")) {
                above.push(Look { icon: file("lid_icon").unwrap_or(base.icon.clone()), x: base.x + int("lid_w"), y: base.y + int("lid_z"), ..add(&s) });
            }
        } else if is("/obj/structure/closet") && yes("enable_door_overlay") {
            if yes("opened") {
                let s = text(if yes("icon_door_override") { "icon_door" } else { "icon_state" });
                above.extend(s.map(|s| add(&format!("{}_open", s))));
            } else {
                if yes("has_closed_overlay") {
                    let s = text("icon_door").or(text("icon_state"));
                    above.extend(s.map(|s| add(&format!("{}_door", s))));
                }
                if yes("welded") {
                    above.push(add("welded"));
                }
                if yes("secure") && !yes("broken") {
                    above.push(add(if yes("locked") { "locked" } else { "unlocked" }));
                }
            }
        } else if is("/obj/machinery/computer") || is("/obj/machinery/power/solar_control") {
            above.extend(text("icon_screen").map(|s| add(&s)));
            above.extend(text("icon_keyboard").map(|s| add(&s)));
        } else if is("/obj/machinery/door/airlock") {
            if yes("glass") {
                above.extend(file("overlays_file").map(|f| Look { icon: f, ..add("glass_closed") }));
            } else if yes("can_be_glass") {
                above.push(add("fill_closed"));
            }
        } else if is("/obj/machinery/power/apc") {
            above.extend(["apcox-1", "apco3-2", "apco0-3", "apco1-3", "apco2-3"].map(|s| add(s)));
            if has("/obj/machinery/power/terminal") {
                below.push(Look { dir: base.dir, plane: 0, layer: -3.5, ..w.look(&bare("/obj/machinery/power/terminal")) });
            }
        }
    }
    if on.contains(&"gravity-gen") && is("/obj/machinery/gravity_generator/main") && has("/obj/machinery/gravity_generator/part") {
        let part = w.look(&bare("/obj/machinery/gravity_generator/part"));
        // three rows of three, the eighth being the main one, at the bottom in the middle
        for n in [1, 2, 3, 4, 5, 6, 7, 9i64] {
            let (row, column) = ((n - 1) / 3, (n - 1) % 3);
            let at = Look { x: part.x + 32 * (1 - column), y: part.y + 32 * (2 - row), plane: 0, layer: if row == 0 { 4.25 } else { part.layer }, state: format!("on_{}", n), ..part.clone() };
            let glow = Look { state: "activated".into(), ..at.clone() };
            above.push(at);
            if n == 5 {
                above.push(glow);
            }
        }
    }
    (base, below, above)
}

fn overlays(g: &G) -> R {
    let mut w = World { declare: DECLARE.to_vec(), ..World::default() };
    let (path, names) = *g.pick(OBJS);
    let fill = |g: &G, p: f64, looks_n: usize| {
        let mut v = Vars::new();
        for n in names {
            if g.chance((p * 100.0) as u64, 100) {
                v.insert(*n, val(g, n));
            }
        }
        looks(g, &mut v, looks_n);
        v
    };
    let mut own = fill(g, 0.6, g.usize(4));
    own.entry("icon").or_insert(V::Res("s0.dmi".into()));
    w.types.insert(path.into(), own);
    // its parent, so that some variables are inherited
    let parent = &path[..path.rfind('/').unwrap()];
    if parent.matches('/').count() >= 2 {
        let v = fill(g, 0.4, g.usize(2));
        w.types.insert(parent.into(), v);
    }
    let mut extra = vec![];
    for t in ["/obj/machinery/power/terminal", "/obj/machinery/gravity_generator/part"] {
        if !g.chance(1, 12) {
            let mut v = Vars::from([("icon", V::Res("part.dmi".into()))]);
            looks(g, &mut v, g.usize(3));
            w.types.insert(t.into(), v);
            extra.push(t);
        }
    }
    let a = Fab { path: path.into(), vars: if g.bool() { fill(g, 0.3, g.usize(3)) } else { Vars::new() } };
    let mut on: Vec<&str> = ["pretty", "overlays", "gravity-gen", "transit-tube"].into_iter().filter(|_| g.chance(3, 4)).collect();
    g.shuffle(&mut on);
    let what = format!("{:?} {}{:?}\n{}", on, a.path, a.vars, w.code());
    g.note(&what);
    let (base, below, above) = cosmetics(&w, &a, &on, &|p| extra.contains(&p));
    g.nontrivial(!below.is_empty() || !above.is_empty());
    let tree = tree_of(&w);
    let fab = prefab_of(&a);
    let bump = bumpalo::Bump::new();
    let mut atom = Atom::from_prefab(&tree, &fab).expect("type");
    let passes = passes(&on);
    let mut out = vec![];
    let mut sprite = Sprite::from_vars(&tree, &atom);
    for p in &passes {
        ensure!(p.path_filter(&a.path) && p.early_filter(&atom, &tree) && p.late_filter(&atom, &tree), "hidden", "the object is hidden in {}", what);
        ensure!(p.expand(&atom, &tree, &mut out), "expanded", "the object is taken away in {}", what);
        p.adjust_sprite(&atom, &mut sprite, &tree, &bump);
        ensure!(p.sprite_filter(&sprite), "hidden", "the sprite is hidden in {}", what);
    }
    ensure!(out.is_empty(), "expanded", "the object is joined by {} others in {}", out.len(), what);
    ensure!(seen(&sprite) == want(&base), "sprite", "the object looks like {:?}, not like {:?} in {}", sprite, base, what);
    atom.sprite = sprite;
    let (mut b, mut o) = (vec![], vec![]);
    for p in &passes {
        p.overlays(&atom, &tree, &mut b, &mut o, &bump);
    }
    let (got, wanted): (Vec<_>, Vec<_>) = (b.iter().map(seen).collect(), below.iter().map(want).collect());
    ensure!(got == wanted, "underlays", "the underlays are {:?}, not {:?} in {}", got, wanted, what);
    let (mut got, mut wanted): (Vec<_>, Vec<_>) = (o.iter().map(seen).collect(), above.iter().map(want).collect());
    if under(&a.path, "/obj/machinery/gravity_generator") {
        // apart from the glow over the middle, the parts don't overlap
        got.sort();
        wanted.sort();
        let at = |s: &str| o.iter().position(|l| l.icon_state == s);
        ensure!(at("activated") >= at("on_5"), "overlays", "the glow is under the middle part in {}", what);
    }
    ensure!(got == wanted, "overlays", "the overlays are {:?}, not {:?} in {}", got, wanted, what);
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// transit tubes

const RING: [Dir; 8] = [Dir::North, Dir::Northeast, Dir::East, Dir::Southeast, Dir::South, Dir::Southwest, Dir::West, Dir::Northwest];

fn tubes(g: &G) -> R {
    // the openings of a tube that faces north, in eighths of a turn clockwise from north
    let (path, openings): (&str, &[usize]) = *g.pick(&[
        ("/obj/structure/transit_tube", &[0, 4][..]),
        ("/obj/structure/transit_tube/horizontal", &[0, 4]),
        ("/obj/structure/transit_tube/station", &[2, 6]),
        ("/obj/structure/transit_tube/station/dispenser", &[2, 6]),
        ("/obj/structure/transit_tube/station/reverse", &[2]),
        ("/obj/structure/transit_tube/station/reverse/flipped", &[2]),
        ("/obj/structure/transit_tube/junction", &[0, 3, 5]),
        ("/obj/structure/transit_tube/junction/flipped", &[0, 3, 5]),
        ("/obj/structure/transit_tube/curved", &[0, 5]),
        ("/obj/structure/transit_tube/curved/flipped", &[0, 3]),
        ("/obj/structure/transit_tube/diagonal", &[1, 5]),
        ("/obj/structure/transit_tube/diagonal/topleft", &[1, 5]),
        ("/obj/structure/transit_tubes", &[]),
        ("/obj/structure/transit_tube_pod", &[]),
    ]);
    let mut w = World { ..World::default() };
    let mut v = Vars::from([("icon", V::Res("tube.dmi".into()))]);
    if g.chance(1, 3) {
        v.insert("layer", V::Num(*g.pick(&[3.1, 2.5, 4.0])));
    }
    if g.chance(1, 3) {
        v.insert("dir", V::Num(*g.pick(&[1.0, 2.0, 4.0, 8.0])));
    }
    w.types.insert(path.into(), v);
    let d = *g.pick(&[0usize, 2, 4, 6, 1, 3, 5, 7]);
    let mut a = bare(path);
    if g.chance(4, 5) {
        a.vars.insert("dir", V::Num(RING[d].to_int() as f32));
    }
    let what = format!("{}{:?}\n{}", a.path, a.vars, w.code());
    g.note(&what);
    let look = w.look(&a);
    let facing = RING.iter().position(|r| *r == look.dir).unwrap();
    let mut wanted = vec![];
    if facing % 2 == 0 {
        for o in openings {
            let k = (o + facing) % 8;
            if k % 2 == 0 {
                wanted.push(("decorative".to_string(), RING[k].to_int(), 0, 0));
            } else if k == 1 || k == 7 {
                // the corner is shared: both tiles next to it show a piece (the southern ones are drawn by the tube to the south)
                let (x, across, up) = if k == 1 { (32, 7, 3) } else { (-32, 1, 5) };
                wanted.push(("decorative_diag".to_string(), RING[up].to_int(), 0, 32));
                wanted.push(("decorative_diag".to_string(), RING[across].to_int(), x, 0));
            }
        }
    }
    let tree = tree_of(&w);
    let fab = prefab_of(&a);
    let bump = bumpalo::Bump::new();
    let mut atom = Atom::from_prefab(&tree, &fab).expect("type");
    atom.sprite = Sprite::from_vars(&tree, &atom);
    let (mut b, mut o) = (vec![], vec![]);
    for p in &passes(&["transit-tube"]) {
        p.overlays(&atom, &tree, &mut b, &mut o, &bump);
    }
    ensure!(b.is_empty(), "underlays", "underlays in {}", what);
    for s in &o {
        ensure!(s.icon == "tube.dmi" && s.layer == Layer::from(look.layer), "sprite", "{:?} in {}", s, what);
    }
    let mut got: Vec<_> = o.iter().map(|s| (s.icon_state.to_string(), s.dir.to_int(), s.ofs_x, s.ofs_y)).collect();
    got.sort();
    wanted.sort();
    g.nontrivial(!wanted.is_empty());
    ensure!(got == wanted, "tubes", "the overlays (state, direction, offset) are {:?}, not {:?} in {}", got, wanted, what);
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// spawners and random objects

const CONTRABAND: &[&str] = &["aspev_syndie", "microwave", "singletank_bomb", "kudzu", "free_drone", "lusty_xenomorph"];
const LEGIT: &[&str] = &[
    "aspev_hardhat", "aspev_piping", "aspev_meth", "aspev_epi", "aspev_delam", "cleanliness", "help_others", "build", "bless_this_spess", "science", "ue_no", "safety_internals", "safety_eye_protection",
];

/// What the passes put in the object's place, and whether the object stays.
fn expand<'a>(tree: &'a ObjectTree, fab: &'a Prefab, on: &[&str]) -> (Vec<String>, bool) {
    let atom = Atom::from_prefab(tree, fab).expect("type");
    let mut out = vec![];
    for p in &passes(on) {
        if !p.expand(&atom, tree, &mut out) {
            return (out.iter().map(|a| a.get_path().to_string()).collect(), false);
        }
    }
    (out.iter().map(|a| a.get_path().to_string()).collect(), true)
}

fn families(g: &G) -> R {
    let (root, random, own) = *g.pick(&[
        ("/obj/machinery/vending/snack", "random", false),
        ("/obj/machinery/vending/cola", "random", false),
        ("/obj/item/bedsheet", "random", true),
        // not random
        ("/obj/machinery/vending/snack", "green", false),
        ("/obj/item/bedsheet", "blue", false),
        ("/obj/item/other", "random", false),
    ]);
    let mut w = World { declare: DECLARE.to_vec(), ..World::default() };
    w.types.insert(root.into(), Vars::new());
    w.types.insert(format!("{}/{}", root, random), Vars::new());
    let mut offered = vec![];
    if own {
        offered.push(root.to_string());
    }
    for c in ["teal", "orange", "pink", "randomish"] {
        if g.bool() {
            w.types.insert(format!("{}/{}", root, c), Vars::new());
            offered.push(format!("{}/{}", root, c));
            if g.chance(1, 3) {
                w.types.insert(format!("{}/{}/sub", root, c), Vars::new());
            }
        }
    }
    let mut path = format!("{}/{}", root, random);
    if g.chance(1, 4) {
        path += "/sub";
        w.types.insert(path.clone(), Vars::new());
    }
    let on = g.pick(&[&["random"][..], &["random", "spawners"], &["spawners"]]).to_vec();
    let what = format!("{:?} {}\n{}", on, path, w.code());
    g.note(&what);
    let tree = tree_of(&w);
    let fab = prefab_of(&bare(&path));
    let replaced = on.contains(&"random") && random == "random" && root != "/obj/item/other" && !offered.is_empty();
    g.nontrivial(replaced && offered.len() >= 2);
    let mut all = BTreeMap::new();
    for _ in 0..if offered.len() > 1 && replaced { 200 } else { 5 } {
        let (out, stays) = expand(&tree, &fab, &on);
        ensure!(stays == !replaced, "stays", "the object {} in {}", if stays { "stays" } else { "is taken away" }, what);
        ensure!(out.len() == replaced as usize, "count", "{:?} take its place in {}", out, what);
        for o in out {
            ensure!(offered.contains(&o), "offer", "{} takes its place, which is none of {:?} in {}", o, offered, what);
            *all.entry(o).or_insert(0) += 1;
        }
    }
    // each of at most five is missed in 200 draws with a probability of 4e-20
    ensure!(!replaced || all.len() == offered.len(), "all", "of {:?} only {:?} are ever used in {}", offered, all, what);
    Ok(())
}

fn loot(g: &G) -> R {
    let mut w = World { declare: DECLARE.to_vec(), ..World::default() };
    let things = ["/obj/item/one", "/obj/item/two", "/obj/item/two/three", "/obj/four"];
    for t in things {
        w.types.insert(t.into(), Vars::new());
    }
    let path = *g.pick(&["/obj/effect/spawner/lootdrop", "/obj/effect/spawner/lootdrop/toys", "/obj/effect/spawner/lootdrops"]);
    let mut items: Vec<(Option<&str>, Option<i64>)> = vec![];
    let mut text = vec![];
    for t in things {
        if g.chance(2, 3) {
            let weight = match g.usize(6) {
                0 => None,
                1 => Some(0),
                2 => Some(1),
                3 => Some(9),
                _ => Some(g.range(1, 6)),
            };
            items.push((Some(t), weight));
            text.push(match weight {
                None => t.to_string(),
                Some(n) => format!("{} = {}", t, n),
            });
        }
    }
    if g.chance(1, 6) {
        // nothing is one of the possibilities
        items.push((None, Some(2)));
        text.push("\"\" = 2".into());
    }
    if g.chance(1, 8) {
        items.push((None, None));
        text.push("/obj/missing".into());
    }
    let mut v = Vars::new();
    let listed = g.chance(9, 10);
    v.insert("loot", if listed { V::Raw(format!("list({})", text.join(", "))) } else { V::Null });
    let count = match g.usize(5) {
        0 => 0,
        1 => 1,
        _ => g.range(1, 6),
    };
    v.insert("lootcount", V::Num(count as f32));
    let doubles = g.bool();
    v.insert("lootdoubles", V::Num(doubles as i32 as f32));
    w.types.insert(path.into(), v);
    let what = format!("{}\n{}", path, w.code());
    g.note(&what);
    let tree = tree_of(&w);
    let fab = prefab_of(&bare(path));
    let spawner = path != "/obj/effect/spawner/lootdrops";
    let weight = |i: &(Option<&str>, Option<i64>)| i.1.unwrap_or(1);
    let positive: Vec<_> = items.iter().filter(|i| weight(i) > 0).collect();
    g.nontrivial(spawner && listed && count > 0 && positive.len() > 1);
    let none = positive.iter().any(|i| i.0.is_none());
    let mut tally: BTreeMap<String, i32> = BTreeMap::new();
    let draws = if count == 1 && positive.len() > 1 { 300 } else { 5 };
    for _ in 0..draws {
        let (out, stays) = expand(&tree, &fab, &["random"]);
        ensure!(stays == !spawner, "stays", "the spawner {} in {}", if stays { "stays" } else { "is taken away" }, what);
        for o in &out {
            ensure!(positive.iter().any(|i| i.0 == Some(o)), "offer", "{} is spawned, of {:?} in {}", o, items, what);
            *tally.entry(o.clone()).or_insert(0) += 1;
        }
        let most = if !spawner || !listed || positive.is_empty() {
            0
        } else if doubles {
            count as usize
        } else {
            positive.len().min(count as usize)
        };
        ensure!(out.len() <= most, "count", "{:?} are spawned, of {:?} in {}", out, items, what);
        ensure!(none || out.len() == most, "count", "only {:?} are spawned, of {:?} in {}", out, items, what);
        if !doubles {
            let mut once = out.clone();
            once.sort();
            once.dedup();
            ensure!(once.len() == out.len(), "doubles", "{:?} are spawned without lootdoubles in {}", out, what);
        }
    }
    if spawner && listed && draws == 300 {
        for i in &positive {
            if let Some(t) = i.0 {
                let total: i64 = positive.iter().map(|i| weight(i)).sum();
                let mean = 300.0 * weight(i) as f64 / total as f64;
                let sd = (mean * (1.0 - weight(i) as f64 / total as f64)).sqrt();
                let n = *tally.get(t).unwrap_or(&0) as f64;
                // nine standard deviations
                ensure!((n - mean).abs() <= 9.0 * sd + 9.0, "weights", "{} is spawned {} times of 300, with {:?} in {}", t, n, items, what);
            }
        }
    }
    Ok(())
}

fn structures(g: &G) -> R {
    let mut w = World { declare: DECLARE.to_vec(), ..World::default() };
    let path = *g.pick(&["/obj/effect/spawner/structure", "/obj/effect/spawner/structure/window", "/obj/effect/spawner/structure/window/r", "/obj/effect/spawner/structures"]);
    for t in ["/obj/grille", "/obj/window", "/obj/window/full"] {
        w.types.insert(t.into(), Vars::new());
    }
    let mut v = Vars::new();
    let mut out: Option<Vec<String>> = None;
    if g.chance(5, 6) {
        let mut l = vec![];
        let mut o = vec![];
        for _ in 0..g.usize(4) {
            let t = *g.pick(&["/obj/grille", "/obj/window", "/obj/window/full", "/obj/missing"]);
            if t != "/obj/missing" {
                o.push(t.to_string());
            } else if g.chance(2, 3) {
                continue;
            }
            l.push(match g.usize(6) {
                0 => V::Str(t.into()),
                _ => V::Path(t.into()),
            });
        }
        if g.chance(1, 8) {
            l.push(V::Num(1.0));
        }
        v.insert("spawn_list", V::List(l));
        out = Some(o);
    }
    w.types.insert("/obj/effect/spawner/structure".into(), Vars::new());
    // on the type itself or on one above it
    let on = if g.chance(1, 3) { "/obj/effect/spawner/structure" } else { path };
    w.types.insert(path.into(), Vars::new());
    let mut a = bare(path);
    let given = if g.chance(1, 4) {
        a.vars = v.clone();
        path
    } else {
        w.types.insert(on.into(), v);
        on
    };
    if !under(path, given) {
        out = None;
    }
    let what = format!("{}{:?}\n{}", path, a.vars, w.code());
    g.note(&what);
    let tree = tree_of(&w);
    let fab = prefab_of(&a);
    let spawner = path != "/obj/effect/spawner/structures";
    let (got, stays) = expand(&tree, &fab, &["spawners"]);
    let want = if spawner { out.clone() } else { None };
    g.nontrivial(want.as_ref().is_some_and(|w| !w.is_empty()));
    ensure!(stays == want.is_none(), "stays", "the spawner {} in {}", if stays { "stays" } else { "is taken away" }, what);
    ensure!(got == want.clone().unwrap_or_default(), "spawned", "{:?} are spawned, not {:?} in {}", got, want, what);
    Ok(())
}

fn states(g: &G) -> R {
    let path = *g.pick(&[
        "/obj/structure/sign/poster/contraband/random", "/obj/structure/sign/poster/official/random", "/obj/structure/sign/poster/random", "/obj/structure/sign/poster/contraband/fun", "/obj/structure/sign/barsign",
        "/obj/structure/sign/barsign/all", "/obj/structure/sign/barsigns",
    ]);
    let mut w = World { declare: vec![], ..World::default() };
    w.types.insert(path.into(), Vars::from([("icon", V::Res("p.dmi".into())), ("icon_state", V::Str("plain".into()))]));
    let mut code = String::from("/datum/barsign\n\tvar/icon\n\tvar/hidden = 0\n");
    let mut signs = vec![];
    if !g.chance(1, 8) {
        for (i, n) in ["one", "two", "three", "four"].iter().enumerate() {
            if g.chance(2, 3) {
                let hidden = g.usize(4);
                let icon = g.chance(5, 6);
                code += &format!("/datum/barsign/{}\n\tparent_type = /datum/barsign\n", n);
                if icon {
                    code += &format!("\ticon = \"sign{}\"\n", i);
                }
                if hidden < 2 {
                    code += &format!("\thidden = {}\n", hidden);
                }
                if icon && hidden != 1 {
                    signs.push(format!("sign{}", i));
                }
            }
        }
    } else {
        code.clear();
    }
    let what = format!("{}\n{}{}", path, w.code(), code);
    g.note(&what);
    let ctx = dm::Context::default();
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "test.dm".into(), format!("{}{}", w.code(), code));
    let tree = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp)).parse_object_tree();
    let fab = prefab_of(&bare(path));
    let atom = Atom::from_prefab(&tree, &fab).expect("type");
    let mut offered: Vec<String> = match path {
        "/obj/structure/sign/poster/contraband/random" => CONTRABAND.iter().map(|s| s.to_string()).collect(),
        "/obj/structure/sign/poster/official/random" => LEGIT.iter().map(|s| s.to_string()).collect(),
        "/obj/structure/sign/poster/random" => CONTRABAND.iter().chain(LEGIT).map(|s| s.to_string()).collect(),
        _ if under(path, "/obj/structure/sign/barsign") => signs,
        _ => vec![],
    };
    if offered.is_empty() {
        offered.push("plain".into());
    }
    g.nontrivial(offered.len() > 1);
    let bump = bumpalo::Bump::new();
    let passes = passes(&["random"]);
    for _ in 0..20 {
        let mut s = Sprite::from_vars(&tree, &atom);
        let mut plain = s.clone();
        for p in &passes {
            p.adjust_sprite(&atom, &mut s, &tree, &bump);
        }
        if !offered.iter().any(|o| o == s.icon_state) {
            return fail("state", format!("it shows {:?}, none of {:?}: {}", s.icon_state, offered, what));
        }
        plain.icon_state = s.icon_state;
        ensure!(seen(&plain) == seen(&s), "sprite", "more than the state differs: {:?} in {}", s, what);
    }
    Ok(())
}

pub fn r05() -> Prop {
    Prop {
        id: "R05",
        rule: "something is added, replaced or chosen from at least two",
        assumptions: &[
            "the weights of a random spawner are not negative",
            "which states posters can show is the list given with the pass",
            "each statistical bound is missed by chance in less than one of 1e15 runs",
        ],
        subs: vec![
            Sub { name: "overlays", quick: 12000, thorough: 300_000, run: overlays },
            Sub { name: "tubes", quick: 2000, thorough: 30_000, run: tubes },
            Sub { name: "families", quick: 1500, thorough: 30_000, run: families },
            Sub { name: "loot", quick: 3000, thorough: 60_000, run: loot },
            Sub { name: "structures", quick: 2500, thorough: 50_000, run: structures },
            Sub { name: "states", quick: 1500, thorough: 30_000, run: states },
        ],
    }
}
