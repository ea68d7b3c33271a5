#![allow(dead_code)]
use dmm_tools::{dmi::*, dmm::*, minimap, render_passes::RenderPass};
pub use dmm_tools::IconCache;

/// Writes an icon of plain squares, one per state.
pub fn icon(name: &str, size: u32, states: &[(&str, [u8; 4])]) {
    let mut text = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {size}\n\theight = {size}\n");
    let width = size * states.len() as u32;
    let mut data = vec![0u8; (width * size * 4) as usize];
    for (i, (state, color)) in states.iter().enumerate() {
        text.push_str(&format!("state = \"{state}\"\n\tdirs = 1\n\tframes = 1\n"));
        for y in 0..size {
            for x in 0..size {
                let at = ((y * width + i as u32 * size + x) * 4) as usize;
                data[at..at + 4].copy_from_slice(color);
            }
        }
    }
    text.push_str("# END DMI\n");
    let mut encoder = png::Encoder::new(std::fs::File::create(name).unwrap(), width, size);
    encoder.set_color(png::ColorType::Rgba);
    encoder.set_depth(png::BitDepth::Eight);
    encoder.add_text_chunk("Description".into(), text).unwrap();
    encoder.write_header().unwrap().write_image_data(&data).unwrap();
}

pub fn tree(code: &str) -> dm::objtree::ObjectTree {
    let ctx = dm::Context::default();
    let pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, "a.dm".into(), code);
    let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, pp));
    parser.enable_procs();
    let tree = parser.parse_object_tree();
    for e in ctx.errors().iter() { eprintln!("{e}"); }
    tree
}

/// Builds a one-level map from rows (top first) of tile contents.
pub fn map(rows: &[&[&str]]) -> Map {
    let mut text = String::new();
    let mut grid = String::from("(1,1,1) = {\"\n");
    let mut n = 0u8;
    for row in rows {
        for tile in *row {
            let key = (b'a' + n) as char;
            n += 1;
            text.push_str(&format!("\"{key}\" = ({tile})\n"));
            grid.push(key);
        }
        grid.push('\n');
    }
    std::fs::write("map.dmm", format!("{text}\n{grid}\"}}\n")).unwrap();
    Map::from_file("map.dmm".as_ref()).unwrap()
}

pub fn draw(tree: &dm::objtree::ObjectTree, map: &Map, min: (usize, usize), max: (usize, usize), passes: &[Box<dyn RenderPass>]) -> Image {
    let errors = Default::default();
    let bump = bumpalo::Bump::new();
    let image = minimap::generate(minimap::Context {
        objtree: tree, map, level: map.z_level(0), min, max,
        render_passes: passes, errors: &errors, bump: &bump, print_errors: false,
    }, &IconCache::default()).unwrap();
    image
}

/// Draws the whole map with the passes which are on by default.
pub fn draw_all(tree: &dm::objtree::ObjectTree, map: &Map) -> Image {
    let (x, y, _) = map.dim_xyz();
    draw(tree, map, (0, 0), (x - 1, y - 1), &passes())
}

pub fn passes() -> Vec<Box<dyn RenderPass>> {
    dmm_tools::render_passes::configure(&Default::default(), "", "")
}

pub fn pixel(image: &Image, x: u32, y: u32) -> [u8; 4] {
    let p = image.data.as_slice().unwrap()[(y * image.width + x) as usize];
    [p.r, p.g, p.b, p.a]
}
