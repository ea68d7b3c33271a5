extern crate dreammaker as dm;
mod world;
mod rules;
mod calls;
mod vars;
mod branches;
mod rolls;
mod args;
mod config;
mod robust;
mod types;

fn main() {
    engine::main(vec![rules::d01(), calls::d02(), calls::d03(), vars::d04(), branches::d05(), rolls::d06(), args::d07(), types::d08(), config::c17(), robust::c01()]);
}
