//! I01 (icon metadata), I02 (picture selection and rendering), I04 (composition), M03 (malformed icons).
use crate::maps::mutate;
use dmm_tools::dmi::render::{IconRenderer, RenderType};
use dmm_tools::dmi::{Dir, Dirs, IconFile, Image, Metadata, Rgba8, StateIndex};
use engine::{ensure, ensure_eq, fail, Prop, Sub, G, R};

pub const ORDER: [Dir; 8] = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];

#[derive(Clone, Debug)]
pub struct St {
    pub name: String,
    pub dirs: usize,
    pub frames: usize,
    pub delays: Vec<f32>,
    pub loop_: u32,
    pub rewind: bool,
    pub movement: bool,
    /// lines as written
    pub lines: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Icon {
    pub width: u32,
    pub height: u32,
    pub states: Vec<St>,
}

fn name(g: &G) -> String {
    g.pick(&["", "a", "b", "wall", "wall-1", "a b", "é", "x = y", "#", "dirs = 4", "'q'", "[1]", "A", "0"]).to_string()
}

fn num(f: f32) -> String {
    format!("{}", f)
}

pub fn icon(g: &G, max_states: usize, names: fn(&G) -> String) -> Icon {
    let (width, height) = (1 + g.usize(5) as u32, 1 + g.usize(5) as u32);
    let mut states = vec![];
    for _ in 0..g.len(1, max_states) {
        let name = names(g);
        let dirs = *g.pick(&[1usize, 4, 8]);
        let mut st = St { name: name.clone(), dirs, frames: 1, delays: vec![1.0], loop_: 0, rewind: false, movement: false, lines: vec![] };
        if dirs != 1 || g.chance(4, 5) {
            st.lines.push(format!("dirs = {}", dirs));
        }
        if g.chance(2, 3) {
            st.frames = 1 + g.usize(5);
        }
        st.delays = vec![1.0; st.frames];
        let explicit = st.frames != 1 || g.chance(4, 5);
        if explicit {
            st.lines.push(format!("frames = {}", st.frames));
        }
        if g.chance(1, 2) && (explicit || st.frames == 1) {
            let same = g.chance(1, 4);
            st.delays = (0..st.frames).map(|_| if same { 1.0 } else { *g.pick(&[1.0f32, 2.0, 0.5, 10.0, 1.25, 0.1, 3.0]) }).collect();
            let mut written = st.delays.clone();
            if explicit && g.chance(1, 5) {
                for _ in 0..1 + g.usize(3) {
                    written.push(*g.pick(&[1.0f32, 2.0, 0.5]));
                }
            }
            st.lines.push(format!("delay = {}", written.iter().map(|f| num(*f)).collect::<Vec<_>>().join(",")));
        }
        if g.chance(1, 4) {
            st.loop_ = g.below(4) as u32;
            st.lines.push(format!("loop = {}", st.loop_));
        }
        if g.chance(1, 4) {
            st.rewind = g.chance(4, 5);
            st.lines.push(format!("rewind = {}", st.rewind as u8));
        }
        if g.chance(1, 4) {
            st.movement = g.chance(4, 5);
            st.lines.push(format!("movement = {}", st.movement as u8));
        }
        for _ in 0..g.weighted(&[8, 1, 1]) {
            st.lines.push(format!("hotspot = {},{},{}", g.range(0, 32), g.range(0, 32), g.range(1, 3)));
        }
        states.push(st);
    }
    Icon { width, height, states }
}

fn quoted(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"")
}

impl Icon {
    pub fn text(&self, g: &G) -> String {
        let mut s = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {}\n\theight = {}\n", self.width, self.height);
        for st in &self.states {
            s.push_str(&format!("state = \"{}\"\n", quoted(&st.name)));
            for l in &st.lines {
                s.push_str(&format!("\t{}\n", l));
            }
        }
        s.push_str("# END DMI");
        if g.chance(3, 4) {
            s.push('\n');
        }
        s
    }
    pub fn total(&self) -> usize {
        self.states.iter().map(|s| s.dirs * s.frames).sum()
    }
    pub fn offset(&self, i: usize) -> usize {
        self.states[..i].iter().map(|s| s.dirs * s.frames).sum()
    }
    pub fn dup(&self, i: usize) -> usize {
        self.states[..i].iter().filter(|s| s.name == self.states[i].name).count()
    }
}

fn dirs_of(d: Dirs) -> usize {
    match d {
        Dirs::One => 1,
        Dirs::Four => 4,
        Dirs::Eight => 8,
    }
}

fn check_meta(icon: &Icon, m: &Metadata, text: &str) -> R {
    ensure_eq!((m.width, m.height), (icon.width, icon.height), "size", "size of\n{}", text);
    ensure_eq!(m.states.len(), icon.states.len(), "states", "number of states of\n{}", text);
    for (i, (have, want)) in m.states.iter().zip(&icon.states).enumerate() {
        ensure_eq!(have.name, want.name, "name", "name of state {} of\n{}", i, text);
        ensure_eq!(dirs_of(have.dirs), want.dirs, "dirs", "directions of state {} of\n{}", i, text);
        ensure_eq!(have.dirs.count(), want.dirs, "dirs", "directions of state {} of\n{}", i, text);
        ensure_eq!(have.frames.count(), want.frames, "frames", "frames of state {} of\n{}", i, text);
        ensure_eq!(have.num_sprites(), want.frames * want.dirs, "frames", "images of state {} of\n{}", i, text);
        for f in 0..want.frames {
            ensure_eq!(have.frames.delay(f), want.delays[f], "delay", "delay of frame {} of state {} of\n{}", f, i, text);
        }
        ensure_eq!((have.loop_, have.rewind, have.movement), (want.loop_, want.rewind, want.movement), "flags", "loop, rewind and movement of state {} of\n{}", i, text);
        ensure_eq!(have.duplicate_index as usize, icon.dup(i), "duplicates", "number of earlier states with the name of state {} of\n{}", i, text);
        ensure_eq!(have.offset, icon.offset(i), "offset", "first image of state {} of\n{}", i, text);
        if want.frames > 1 {
            ensure!(have.is_animated(), "animated", "state {} is not animated in\n{}", i, text);
        }
        let found = m.get_icon_state(&have.get_state_name_index());
        ensure!(found.is_some_and(|s| std::ptr::eq(s, have)), "lookup", "state {} is not found by name and repetition in\n{}", i, text);
        if icon.dup(i) == 0 {
            let found = m.get_icon_state(&StateIndex::from(want.name.as_str()));
            ensure!(found.is_some_and(|s| std::ptr::eq(s, have)), "lookup", "state {} is not found by name in\n{}", i, text);
        }
    }
    ensure!(m.get_icon_state(&StateIndex::from("no such state")).is_none(), "lookup", "a state that isn't there is found");
    Ok(())
}

fn pixels(g: &G, n: usize, alpha: bool) -> Vec<Rgba8> {
    (0..n)
        .map(|i| {
            let a = if !alpha || !g.chance(1, 3) { 255 } else { *g.pick(&[0u8, 1, 127, 128, 254]) };
            // distinct colours
            Rgba8::new((i * 7 % 256) as u8, (i / 256) as u8, g.below(256) as u8, a)
        })
        .collect()
}

/// A PNG with the description in a text chunk, as Dream Maker writes it.
pub fn png(g: &G, w: u32, h: u32, px: &[Rgba8], text: Option<&str>) -> Vec<u8> {
    let mut out = vec![];
    {
        let mut e = png::Encoder::new(&mut out, w, h);
        let indexed = {
            let mut seen: Vec<Rgba8> = vec![];
            for p in px {
                if seen.len() <= 256 && !seen.contains(p) {
                    seen.push(*p);
                }
            }
            if seen.len() <= 256 && g.bool() { Some(seen) } else { None }
        };
        e.set_depth(png::BitDepth::Eight);
        let data: Vec<u8> = match &indexed {
            Some(pal) => {
                e.set_color(png::ColorType::Indexed);
                e.set_palette(pal.iter().flat_map(|p| [p.r, p.g, p.b]).collect::<Vec<u8>>());
                e.set_trns(pal.iter().map(|p| p.a).collect::<Vec<u8>>());
                px.iter().map(|p| pal.iter().position(|q| p == q).unwrap() as u8).collect()
            },
            None => {
                e.set_color(png::ColorType::Rgba);
                px.iter().flat_map(|p| [p.r, p.g, p.b, p.a]).collect()
            },
        };
        if g.chance(1, 4) {
            e.add_text_chunk("Software".into(), "# BEGIN DMI".into()).unwrap();
        }
        if let Some(t) = text {
            if t.is_ascii() && g.bool() {
                e.add_text_chunk("Description".into(), t.into()).unwrap();
            } else if t.is_ascii() {
                e.add_ztxt_chunk("Description".into(), t.into()).unwrap();
            }
        }
        let mut w = e.write_header().unwrap();
        w.write_image_data(&data).unwrap();
    }
    out
}

fn metadata(g: &G) -> R {
    let ic = icon(g, 8, |g| if g.chance(1, 12) { g.pick(&["a\"b", "\\", "\"", "\\\"", "c\\d"]).to_string() } else { name(g) });
    let text = ic.text(g);
    g.note(&text);
    let m = match Metadata::meta_from_str(&text) {
        Ok(m) => m,
        Err(e) => return fail("refused", format!("{} for\n{}", e, text)),
    };
    g.nontrivial(ic.states.len() >= 2 && ic.total() > ic.states.len());
    g.label_if((0..ic.states.len()).any(|i| ic.dup(i) > 0), "repeated names");
    check_meta(&ic, &m, &text)?;
    let ascii = text.is_ascii();
    if g.chance(1, 4) && ascii {
        let px = pixels(g, ic.total() * (ic.width * ic.height) as usize, true);
        let data = png(g, ic.width, ic.height * ic.total() as u32, &px, Some(&text));
        let f = IconFile::from_bytes(&data).map_err(|e| engine::Fail { sig: "refused".into(), msg: format!("{} for\n{}", e, text) })?;
        check_meta(&ic, &f.metadata, &text)?;
        let p = crate::maps::write(g, "x.dmi", &data);
        let f = IconFile::from_file(&p).map_err(|e| engine::Fail { sig: "refused".into(), msg: format!("{} for\n{}", e, text) })?;
        check_meta(&ic, &f.metadata, &text)?;
        ensure_eq!(f.image.data.as_slice().unwrap(), &px[..], "pixels", "pixels of the image");
    }
    Ok(())
}

pub fn i01() -> Prop {
    Prop {
        id: "I01",
        rule: "at least two states, one of them with several images",
        assumptions: &["the hotspot of a state is accepted and not kept (there is no field for it)", "a state's delays are at least as many as its frames"],
        subs: vec![Sub { name: "metadata", quick: 150000, thorough: 4000000, run: metadata }],
    }
}

// ------------------------------------------------------------------------------------------------
// I02

pub struct Sheet {
    pub icon: Icon,
    pub cols: usize,
    pub px: Vec<Rgba8>,
    pub file: IconFile,
}

impl Sheet {
    pub fn cell(&self, i: usize) -> (usize, usize) {
        (i % self.cols * self.icon.width as usize, i / self.cols * self.icon.height as usize)
    }
    pub fn at(&self, x: usize, y: usize) -> Rgba8 {
        self.px[y * self.cols * self.icon.width as usize + x]
    }
}

pub fn dir_pos(dirs: usize, d: Dir) -> Option<usize> {
    ORDER.iter().position(|x| *x == d).filter(|p| *p < dirs)
}

pub fn sheet(g: &G, max_states: usize, alpha: bool, names: fn(&G) -> String) -> Result<Sheet, engine::Fail> {
    let icon = icon(g, max_states, names);
    let total = icon.total();
    let cols = 1 + g.usize(total.min(7) + 2);
    let rows = total.div_ceil(cols) + g.weighted(&[4, 1]);
    let px = pixels(g, cols * rows * (icon.width * icon.height) as usize, alpha);
    let text = icon.text(g);
    let data = png(g, icon.width * cols as u32, icon.height * rows as u32, &px, Some(&text));
    match IconFile::from_bytes(&data) {
        Ok(file) => Ok(Sheet { icon, cols, px, file }),
        Err(e) => fail("refused", format!("{} for\n{}", e, text)),
    }
}

fn want_frame(s: &Sheet, i: usize, frame: usize) -> Vec<Rgba8> {
    let st = &s.icon.states[i];
    let (w, h) = (s.icon.width as usize, s.icon.height as usize);
    let mut v = vec![Rgba8::default(); w * st.dirs * h];
    for d in 0..st.dirs {
        let (cx, cy) = s.cell(s.icon.offset(i) + frame * st.dirs + d);
        for y in 0..h {
            for x in 0..w {
                let p = s.at(cx + x, cy + y);
                if p.a != 0 {
                    v[y * w * st.dirs + d * w + x] = p;
                }
            }
        }
    }
    v
}

fn select(g: &G) -> R {
    let s = sheet(g, 5, true, |g| g.pick(&["", "a", "b", "wall", "a b"]).to_string())?;
    g.note(&format!("{:?} in {} columns", s.icon, s.cols));
    g.nontrivial(s.icon.states.len() >= 2 && s.icon.total() > s.icon.states.len());
    ensure_eq!(s.file.image.data.as_slice().unwrap(), &s.px[..], "pixels", "pixels of the sheet");
    for i in 0..s.icon.total() {
        let (x, y) = s.cell(i);
        ensure_eq!(s.file.rect_of_index(i as u32), (x as u32, y as u32, s.icon.width, s.icon.height), "cell", "cell {} of {} columns", i, s.cols);
    }
    let r = IconRenderer::new(&s.file);
    for (i, st) in s.icon.states.iter().enumerate() {
        let idx = s.file.metadata.states[i].get_state_name_index();
        let have = s.file.get_icon_state(&idx).map_err(|e| engine::Fail { sig: "lookup".into(), msg: e.to_string() })?;
        for d in ORDER {
            for f in 0..st.frames {
                let index = have.index_of_frame(d, f as u32) as usize;
                let base = s.icon.offset(i) + f * st.dirs;
                match dir_pos(st.dirs, d) {
                    Some(p) => ensure_eq!(index, base + p, "index", "image of state {} direction {:?} frame {} of {:?}", i, d, f, s.icon),
                    None => ensure_eq!(index, base, "fallback", "image of state {} direction {:?}, which it lacks, frame {} of {:?}", i, d, f, s.icon),
                }
                let (x, y) = s.cell(index);
                let rect = s.file.metadata.rect_of(s.file.image.width, &idx, d, f as u32);
                ensure_eq!(rect, Some((x as u32, y as u32, s.icon.width, s.icon.height)), "rect", "rectangle of state {} direction {:?} frame {} of {:?}", i, d, f, s.icon);
                if f == 0 {
                    ensure_eq!(s.file.rect_of(&idx, d), rect, "rect", "rectangle of the first frame");
                    ensure_eq!(have.index_of_dir(d) as usize, index, "index", "first frame");
                }
            }
        }
        // still images of each frame
        let seq: Vec<usize> = if st.rewind { (0..st.frames).chain((0..st.frames).rev()).collect() } else { (0..st.frames).collect() };
        let images = r.render_to_images(&idx).map_err(|e| engine::Fail { sig: "render".into(), msg: e.to_string() })?;
        ensure_eq!(images.len(), seq.len(), "frames", "number of rendered frames of state {} of {:?}", i, s.icon);
        for (img, f) in images.iter().zip(&seq) {
            ensure_eq!((img.width, img.height), (s.icon.width * st.dirs as u32, s.icon.height), "frame size", "size of a rendered frame of state {} of {:?}", i, s.icon);
            let want = want_frame(&s, i, *f);
            ensure!(img.data.as_slice().unwrap() == &want[..], "frame pixels", "frame {} of state {} of {:?} in {} columns is\n{:?}, not\n{:?}", f, i, s.icon, s.cols, img.data.as_slice().unwrap(), want);
        }
    }
    ensure!(s.file.rect_of(&"no such state".into(), Dir::South).is_none(), "missing", "a state that isn't there has a rectangle");
    ensure!(r.render_to_images(&"no such state".into()).is_err(), "missing", "a state that isn't there is rendered");
    Ok(())
}

fn animate(g: &G) -> R {
    let mut s = sheet(g, 3, false, |g| g.pick(&["", "a", "b"]).to_string())?;
    // some fully transparent pixels, and few enough colours for one palette
    for p in s.px.iter_mut() {
        *p = if g.chance(1, 6) { Rgba8::default() } else { Rgba8::new(p.r & 0xe0, p.g, 0x80, 255) };
    }
    s.file.image.data.as_slice_mut().unwrap().copy_from_slice(&s.px);
    g.note(&format!("{:?} in {} columns", s.icon, s.cols));
    g.nontrivial(s.icon.states.iter().any(|s| s.frames >= 2));
    let r = IconRenderer::new(&s.file);
    for (i, st) in s.icon.states.iter().enumerate() {
        let state = &s.file.metadata.states[i];
        let by_name = g.bool();
        let idx = state.get_state_name_index();
        let guard = if by_name { r.prepare_render(&idx) } else { r.prepare_render_state(state) };
        let guard = guard.map_err(|e| engine::Fail { sig: "render".into(), msg: e.to_string() })?;
        let kind = guard.render_type;
        let mut out = vec![];
        guard.render(&mut out).map_err(|e| engine::Fail { sig: "render".into(), msg: e.to_string() })?;
        let (w, h) = (s.icon.width * st.dirs as u32, s.icon.height);
        match kind {
            RenderType::Png => {
                ensure!(st.frames == 1, "type", "state {} with {} frames is a still image in {:?}", i, st.frames, s.icon);
                let img = Image::from_bytes(&out).map_err(|e| engine::Fail { sig: "png".into(), msg: e.to_string() })?;
                ensure_eq!((img.width, img.height), (w, h), "frame size", "size of state {} of {:?}", i, s.icon);
                ensure_eq!(img.data.as_slice().unwrap(), &want_frame(&s, i, 0)[..], "frame pixels", "picture of state {} of {:?}", i, s.icon);
            },
            RenderType::Gif => {
                ensure!(st.frames > 1 || st.delays[0] != 1.0, "type", "state {} with one frame is animated in {:?}", i, s.icon);
                let seq: Vec<usize> = if st.rewind { (0..st.frames).chain((0..st.frames).rev()).collect() } else { (0..st.frames).collect() };
                let mut opts = gif::DecodeOptions::new();
                opts.set_color_output(gif::ColorOutput::RGBA);
                let mut d = opts.read_info(&out[..]).map_err(|e| engine::Fail { sig: "gif".into(), msg: e.to_string() })?;
                ensure_eq!((d.width() as u32, d.height() as u32), (w, h), "frame size", "size of state {} of {:?}", i, s.icon);
                ensure_eq!(d.repeat(), gif::Repeat::Infinite, "repeat", "repetition of state {}", i);
                let mut n = 0;
                while let Some(f) = d.read_next_frame().map_err(|e| engine::Fail { sig: "gif".into(), msg: e.to_string() })? {
                    ensure!(n < seq.len(), "frames", "state {} of {:?} has more than {} frames", i, s.icon, seq.len());
                    ensure_eq!((f.left, f.top, f.width as u32, f.height as u32), (0, 0, w, h), "frame size", "frame {} of state {} of {:?}", n, i, s.icon);
                    ensure_eq!(f.delay, (st.delays[seq[n]] * 10.0) as u16, "delay", "delay of frame {} of state {} of {:?}", n, i, s.icon);
                    ensure_eq!(f.dispose, gif::DisposalMethod::Background, "dispose", "frame {}", n);
                    let got: Vec<Rgba8> = f.buffer.chunks(4).map(|c| if c[3] == 0 { Rgba8::default() } else { Rgba8::new(c[0], c[1], c[2], c[3]) }).collect();
                    let want = want_frame(&s, i, seq[n]);
                    ensure!(got == want, "frame pixels", "frame {} of state {} of {:?} in {} columns is\n{:?}, not\n{:?}", n, i, s.icon, s.cols, got, want);
                    n += 1;
                }
                ensure_eq!(n, seq.len(), "frames", "frames of state {} of {:?}", i, s.icon);
            },
        }
    }
    Ok(())
}

pub fn i02() -> Prop {
    Prop {
        id: "I02",
        rule: "select: at least two states, one with several images; animate: a state with at least two frames",
        assumptions: &["sheets have room for every image", "animated pictures use at most 256 colours and no partial transparency (what GIF can hold)", "a rewinding state plays its frames forwards and then all of them backwards"],
        subs: vec![
            Sub { name: "select", quick: 30000, thorough: 600000, run: select },
            Sub { name: "animate", quick: 20000, thorough: 400000, run: animate },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// I04

fn image(g: &G, w: u32, h: u32) -> Image {
    let mut i = Image::new_rgba(w, h);
    let mode = g.usize(4);
    for p in i.data.as_slice_mut().unwrap() {
        let v = |g: &G| if g.bool() { *g.pick(&[255u8, 0, 1, 2, 3, 127, 128, 254]) } else { g.below(256) as u8 };
        let a = match mode {
            0 => 255,
            1 => *g.pick(&[255u8, 0]),
            2 => g.below(8) as u8,
            _ => v(g),
        };
        *p = Rgba8::new(v(g), v(g), v(g), a);
    }
    i
}

pub fn over(src: Rgba8, dst: Rgba8, tint: [u8; 4]) -> ([f64; 3], f64) {
    let m = |a: u8, b: u8| (a as u32 * b as u32 / 255) as f64;
    let s = [m(src.r, tint[0]), m(src.g, tint[1]), m(src.b, tint[2])];
    let sa = m(src.a, tint[3]) / 255.0;
    let da = dst.a as f64 / 255.0;
    let oa = sa + da * (1.0 - sa);
    let d = [dst.r as f64, dst.g as f64, dst.b as f64];
    let mut o = [0.0; 3];
    if oa > 0.0 {
        for i in 0..3 {
            o[i] = (s[i] * sa + d[i] * da * (1.0 - sa)) / oa;
        }
    }
    (o, oa * 255.0)
}

pub fn close(got: Rgba8, want: ([f64; 3], f64), tol: f64) -> bool {
    let near = |g: u8, w: f64| (g as f64 - w).abs() <= tol + 1e-6;
    near(got.a, want.1) && (want.1 == 0.0 || near(got.r, want.0[0]) && near(got.g, want.0[1]) && near(got.b, want.0[2]))
}

fn compose(g: &G) -> R {
    let (sw, sh) = (1 + g.usize(6) as u32, 1 + g.usize(6) as u32);
    let (dw, dh) = (1 + g.usize(8) as u32, 1 + g.usize(8) as u32);
    let src = image(g, sw, sh);
    let mut dst = image(g, dw, dh);
    let steps = 1 + g.usize(3);
    for _ in 0..steps {
        let (w, h) = (g.usize(sw.min(dw) as usize + 1) as u32, g.usize(sh.min(dh) as usize + 1) as u32);
        let (cx, cy) = (g.usize((sw - w) as usize + 1) as u32, g.usize((sh - h) as usize + 1) as u32);
        let (x, y) = (g.usize((dw - w) as usize + 1) as u32, g.usize((dh - h) as usize + 1) as u32);
        let tint = if g.bool() { [255; 4] } else { [g.below(256) as u8, *g.pick(&[255, 0, 128]), g.below(256) as u8, *g.pick(&[255u8, 0, 1, 128, 254])] };
        let before = dst.clone();
        dst.composite(&src, (x, y), (cx, cy, w, h), tint);
        let d = format!("{}x{} at {},{} of a {}x{} source onto {},{} of {}x{} tinted {:?}", w, h, cx, cy, sw, sh, x, y, dw, dh, tint);
        g.note(&d);
        ensure_eq!((dst.width, dst.height, dst.data.len()), (dw, dh, (dw * dh) as usize), "size", "{}", d);
        for py in 0..dh {
            for px in 0..dw {
                let i = (py * dw + px) as usize;
                let (a, b) = (before.data.as_slice().unwrap()[i], dst.data.as_slice().unwrap()[i]);
                if px < x || px >= x + w || py < y || py >= y + h {
                    ensure_eq!(b, a, "outside", "pixel {},{} of {}", px, py, d);
                } else {
                    let s = src.data.as_slice().unwrap()[((py - y + cy) * sw + px - x + cx) as usize];
                    let want = over(s, a, tint);
                    ensure!(close(b, want, 1.0), "blend", "pixel {},{} is {:?}, should be {:?} ({:?} over {:?}): {}", px, py, b, want, s, a, d);
                    g.nontrivial(s.a > 0 && a.a > 0);
                    g.label_if(s.a > 0 && s.a < 255 && a.a > 0 && a.a < 255, "translucent over translucent");
                }
            }
        }
    }
    Ok(())
}

/// One pixel over another, many at a time.
fn single(g: &G) -> R {
    let sa = g.below(256) as u8;
    let da = g.below(256) as u8;
    let tint = [255, 255, 255, if g.bool() { 255 } else { g.below(256) as u8 }];
    let n = 64;
    let mut src = Image::new_rgba(n, 1);
    let mut dst = Image::new_rgba(n, 1);
    for i in 0..n as usize {
        let v = |g: &G| if g.bool() { *g.pick(&[255u8, 0, 1, 254]) } else { g.below(256) as u8 };
        src.data.as_slice_mut().unwrap()[i] = Rgba8::new(v(g), v(g), v(g), sa);
        dst.data.as_slice_mut().unwrap()[i] = Rgba8::new(v(g), v(g), v(g), da);
    }
    let before = dst.clone();
    dst.composite(&src, (0, 0), (0, 0, n, 1), tint);
    g.note(&format!("alpha {} over alpha {} tinted {:?}: {:?} over {:?}", sa, da, tint, &src.data.as_slice().unwrap()[..4], &before.data.as_slice().unwrap()[..4]));
    g.nontrivial(sa > 0 && da > 0);
    for i in 0..n as usize {
        let (s, a, b) = (src.data.as_slice().unwrap()[i], before.data.as_slice().unwrap()[i], dst.data.as_slice().unwrap()[i]);
        let want = over(s, a, tint);
        ensure!(close(b, want, 1.0), "blend", "{:?} over {:?} tinted {:?} is {:?}, should be {:?}", s, a, tint, b, want);
    }
    Ok(())
}

pub fn i04() -> Prop {
    Prop {
        id: "I04",
        rule: "a visible source pixel over a visible destination pixel",
        assumptions: &["the part and its target lie within the two images (callers clip)", "the tint is applied to 8-bit channels rounding down; the blend is then exact within 1", "the colour of a fully transparent pixel is of no account"],
        subs: vec![
            Sub { name: "compose", quick: 60000, thorough: 2000000, run: compose },
            Sub { name: "single", quick: 60000, thorough: 2000000, run: single },
        ],
    }
}

// ------------------------------------------------------------------------------------------------
// M03 (icons)

const META_TOKENS: &[&str] = &[
    "\n", "# BEGIN DMI", "# END DMI", "version = 4.0", "version = 3.0", "width = ", "height = ", "state = ", "dirs = ", "frames = ", "delay = ", "loop = ", "rewind = ", "movement = ", "hotspot = ", "\"", "\\", "=", " = ", "\t", ",",
    "0", "1", "-1", "4", "8", "2", "256", "99999999999", "4294967295", "18446744073709551615", "1.5", "nan", "inf", "\"a\"", "é", "x", " ",
];

fn bad_meta(g: &G) -> R {
    let text = match g.usize(4) {
        1 => {
            let mut s = String::from("# BEGIN DMI\nversion = 4.0\n");
            for _ in 0..g.len(1, 12) {
                let k = *g.pick(&["state", "state", "state", "frames", "dirs", "frames", "dirs", "delay", "width", "height", "loop", "rewind", "movement", "hotspot", "other"]);
                let v = match (k, g.usize(4)) {
                    ("state", 1..) => "\"a\"",
                    ("frames" | "width" | "height" | "loop", 2..) => g.pick(&["18446744073709551615", "2305843009213693952", "4294967295", "0", "3"]),
                    ("delay", 2..) => g.pick(&["1,2", "1", "nan", "1,1,1"]),
                    ("dirs", 1..) => g.pick(&["1", "4", "8"]),
                    _ => g.pick(META_TOKENS),
                };
                s.push_str(&format!("\t{} = {}\n", k, v));
            }
            s
        },
        0 => {
            let mut s = String::from(if g.bool() { "# BEGIN DMI\nversion = 4.0\n" } else { "" });
            for _ in 0..g.len(0, 40) {
                s.push_str(g.pick(META_TOKENS));
                s.push_str(*g.pick(&["", "", "\n"]));
            }
            s
        },
        _ => {
            let ic = icon(g, 4, name);
            let b = mutate(g, ic.text(g).into_bytes(), META_TOKENS);
            String::from_utf8_lossy(&b).into_owned()
        },
    };
    g.note(&text);
    g.nontrivial(text.len() >= 20);
    match Metadata::meta_from_str(&text) {
        Ok(_) => g.label("loads"),
        Err(_) => g.label("rejected"),
    }
    Ok(())
}

fn crc(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

/// Recompute chunk checksums so that damage gets past them.
fn fix_crc(b: &mut [u8]) {
    let mut i = 8;
    while i + 12 <= b.len() {
        let n = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        if n > b.len() || i + 12 + n > b.len() {
            break;
        }
        let c = crc(&b[i + 4..i + 8 + n]);
        b[i + 8 + n..i + 12 + n].copy_from_slice(&c.to_be_bytes());
        i += 12 + n;
    }
}

fn bad_icon(g: &G) -> R {
    let ic = icon(g, 3, |g| g.pick(&["", "a", "b"]).to_string());
    let total = ic.total();
    let px = pixels(g, total * (ic.width * ic.height) as usize, true);
    let text = if g.chance(1, 3) { String::from_utf8_lossy(&mutate(g, ic.text(g).into_bytes(), META_TOKENS)).into_owned() } else { ic.text(g) };
    let cells = if g.chance(1, 4) { 1 + g.usize(total) } else { total };
    let px = &px[..cells * (ic.width * ic.height) as usize];
    let mut b = png(g, ic.width * cells as u32, ic.height, px, Some(&text));
    if g.chance(2, 3) {
        b = mutate(g, b, &["IHDR", "IDAT", "IEND", "zTXt", "tEXt", "iTXt", "PLTE", "tRNS", "\0", "\0\0\0\0", "Description", "\u{89}PNG"]);
    }
    if b.len() > 24 && g.chance(1, 8) {
        // size in the header
        let v = *g.pick(&[0u32, 1, 7, 1000, 65535, 0x7fffffff, 0xffffffff]);
        let at = if g.bool() { 16 } else { 20 };
        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
    if g.bool() {
        fix_crc(&mut b);
    }
    g.note(&format!("{:?}", String::from_utf8_lossy(&b)));
    g.nontrivial(b.len() >= 20);
    match IconFile::from_bytes(&b) {
        Ok(f) => {
            g.label("loads");
            ensure_eq!(f.image.data.len(), (f.image.width * f.image.height) as usize, "size", "pixels of a loaded image");
            // every picture the icon then offers lies within it
            let m = &f.metadata;
            for s in &m.states {
                for d in ORDER {
                    for n in 0..s.frames.count().clamp(1, 4) {
                        if let Some((x, y, w, h)) = m.rect_of(f.image.width, &s.get_state_name_index(), d, n as u32) {
                            ensure!(x + w <= f.image.width && y + h <= f.image.height, "outside", "state {:?} is at {},{} {}x{} of a {}x{} bitmap\n{}", s.name, x, y, w, h, f.image.width, f.image.height, text);
                        }
                    }
                }
            }
            if let Some((x, y, w, h)) = m.rect_of(f.image.width, &"".into(), Dir::South, 0) {
                ensure!(x + w <= f.image.width && y + h <= f.image.height, "outside", "at {},{} {}x{} of a {}x{} bitmap\n{}", x, y, w, h, f.image.width, f.image.height, text);
            }
        },
        Err(_) => g.label("rejected"),
    }
    let _ = Image::from_bytes(&b);
    Ok(())
}

pub fn m03_subs() -> Vec<Sub> {
    vec![Sub { name: "metadata", quick: 100000, thorough: 4000000, run: bad_meta }, Sub { name: "icon", quick: 60000, thorough: 2000000, run: bad_icon }]
}

