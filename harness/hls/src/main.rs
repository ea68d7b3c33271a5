//! L01 to L05: the language server.
mod client;
mod code;
mod diags;
mod nav;
mod outline;
mod proto;
mod sync;

use engine::{Prop, Sub};

fn main() {
    engine::main(vec![
        Prop {
            id: "L01",
            rule: "at least two edits",
            assumptions: &[],
            subs: vec![Sub { name: "single", quick: 1000, thorough: 20000, run: sync::single }, Sub { name: "workspace", quick: 1000, thorough: 20000, run: sync::workspace }],
        },
        Prop {
            id: "L02",
            rule: "a program with at least 10 names (definitions), 6 uses of symbols (references), or 5 completable names (descriptions)",
            assumptions: &[],
            subs: vec![
                Sub { name: "definitions", quick: 4000, thorough: 60000, run: nav::definitions },
                Sub { name: "references", quick: 4000, thorough: 60000, run: nav::references },
                Sub { name: "descriptions", quick: 4000, thorough: 60000, run: nav::descriptions },
            ],
        },
        Prop {
            id: "L03",
            rule: "at least four symbols at the margin of the documents (documents), or six names to search for (symbols)",
            assumptions: &[],
            subs: vec![Sub { name: "documents", quick: 6000, thorough: 120000, run: outline::documents }, Sub { name: "symbols", quick: 4000, thorough: 80000, run: outline::symbols }],
        },
        Prop {
            id: "L04",
            rule: "at least two questions about a document among at least six other messages",
            assumptions: &[],
            subs: vec![Sub { name: "session", quick: 6000, thorough: 120000, run: proto::session }],
        },
        Prop {
            id: "L05",
            rule: "at least four diagnostics due (workspace), or two (single)",
            assumptions: &["the oracle is the parser and checker, called directly on the same files"],
            subs: vec![Sub { name: "workspace", quick: 3000, thorough: 60000, run: diags::workspace }, Sub { name: "single", quick: 2000, thorough: 40000, run: diags::single }],
        },
    ]);
}
