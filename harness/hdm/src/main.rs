extern crate dreammaker as dm;
mod dirs;
mod intervals;
mod exprs;
mod lexing;
mod model;
mod stmts;
mod tree;
mod layout;
mod objects;
mod prep;
mod macros;
mod includes;
mod consts;
mod docs;
mod places;

fn main() {
    engine::main(vec![intervals::prop(), dirs::prop(), lexing::c02(), lexing::c03(), exprs::c09(), stmts::c10(), layout::c04(), objects::c13(), objects::c14(), prep::c05(), macros::c06(), macros::c08(), includes::c07(), consts::c11(), consts::c12(), docs::c15(), places::c16()]);
}
