extern crate dreammaker as dm;
mod icons;
mod maps;
mod passes;
mod render;
mod tools;

fn m03() -> engine::Prop {
    let mut subs = vec![maps::m03_sub(), maps::m03_cut()];
    subs.extend(maps::m03_bad());
    subs.extend(icons::m03_subs());
    engine::Prop { id: "M03", rule: "at least 20 bytes", assumptions: &["each worker has 6 GB of address space: a request beyond that ends it and counts as a crash"], subs }
}

fn main() {
    engine::main(vec![maps::m01(), maps::m02(), m03(), icons::i01(), icons::i02(), icons::i04(), render::r01(), render::r02(), render::r03(), render::r04(), passes::r05(), tools::t01(), tools::t02()]);
}
