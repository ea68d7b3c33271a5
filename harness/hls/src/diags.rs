//! L05: what is published is what the checker finds.
use crate::client::*;
use crate::sync::text;
use engine::{ensure, G, R};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

extern crate dreammaker as dm;

const CHUNKS: &[&str] = &[
    "/obj/ta/proc/sealed()\n\tset SpacemanDMM_should_not_override = 1\n",
    "/obj/ta/tb/sealed()\n\treturn 1\n",
    "/obj/ta/proc/loud()\n\tset SpacemanDMM_should_call_parent = 1\n",
    "/obj/ta/tb/loud()\n\treturn 1\n",
    "/obj/ta/proc/own()\n\tset SpacemanDMM_private_proc = 1\n",
    "/mob/tc/proc/other(obj/ta/x)\n\tx.own()\n\tx.secret = 1\n",
    "/obj/ta\n\tvar/SpacemanDMM_private/secret = 2\n\tvar/SpacemanDMM_final/last = 3\n",
    "/obj/ta/tb\n\tsecret = 3\n\tlast = 4\n",
    "/proc/awake()\n\tset SpacemanDMM_should_not_sleep = 1\n\tnap()\n",
    "/proc/nap()\n\tsleep(1)\n",
    "/proc/clean()\n\tset SpacemanDMM_should_be_pure = 1\n\tdirty()\n",
    "/proc/dirty()\n\tusr << 1\n",
    "/proc/odd(a, b)\n\tif(!a & b)\n\t\treturn a in b ? 1 : 2\n\tif(!a in b)\n\t\treturn (a && b in a)\n",
    "/proc/twice()\n\treturn 1\n",
    "#define TWICE 1\n",
    "#define TWICE 2\n#undef ABSENT\n",
    "/proc/wrong(obj/ta/x)\n\tx.nothing()\n\tx.no_var = 1\n\tunknown_var = 2\n\treturn x.va.vb\n",
    "/proc/far()\n\treturn \"é😀\" + unknown_var\n",
    "#warn beware\n",
    "#error \"no\"\n",
    "/obj/ta/tb/va = 1 +\n",
    "/obj/ta/var/va = 4\n/obj/ta/var/va = 5\n",
    "/obj/ta/tb/var/va = 6\n",
];

fn chunk(g: &G) -> String {
    if g.chance(1, 4) {
        text(g, 1, false)
    } else {
        g.pick(CHUNKS).to_string()
    }
}

fn program(g: &G) -> String {
    let n = 1 + g.usize(5);
    (0..n).map(|_| { let c = chunk(g); if c.ends_with('\n') { c } else { c + "\n" } }).collect()
}

fn config(g: &G, dme: &[&str], checks: bool) -> String {
    let mut s = String::new();
    if dme.len() > 1 {
        s += &format!("environment = \"{}\"\n", g.pick(dme));
    }
    if g.chance(1, 4) {
        s += &format!("[display]\nerror_level = \"{}\"\n", g.pick(&["error", "warning", "info", "hint"]));
    }
    if g.chance(1, 2) {
        s += "[diagnostics]\n";
        for e in ["macro_redefined", "private_var", "must_not_override", "redefined_proc", "ambiguous_in_lhs", "must_be_pure"] {
            if g.chance(1, 3) {
                s += &format!("{} = \"{}\"\n", e, g.pick(&["error", "warning", "info", "hint", "disabled"]));
            }
        }
    }
    s += &format!("[langserver]\ndreamchecker = {}\n", checks);
    s
}

/// What is found, by file.
fn found(dir: &Path, dme: &str, related: bool) -> BTreeMap<String, Vec<Value>> {
    let mut ctx = dm::Context::default();
    let env = dir.join(dme);
    ctx.autodetect_config(&env);
    let mut pp = dm::preprocessor::Preprocessor::new(&ctx, env).expect("environment");
    let (fatal, tree) = {
        let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, &mut pp));
        parser.enable_procs();
        parser.parse_object_tree_2()
    };
    if ctx.config().langserver.dreamchecker && !fatal {
        dreamchecker::run(&ctx, &tree);
    }
    let url = |f: dm::FileId| uri(&dir.join(&*ctx.file_path(f)));
    let range = |l: dm::Location| {
        let p = json!({"line": l.line.max(1) - 1, "character": l.column.max(1) - 1});
        json!({"start": p, "end": p})
    };
    let mut out: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for e in ctx.errors().iter() {
        let severity = match e.severity() {
            dm::Severity::Error => 1,
            dm::Severity::Warning => 2,
            dm::Severity::Info => 3,
            dm::Severity::Hint => 4,
        };
        let source = match e.component() {
            dm::Component::DreamChecker => "dreamchecker",
            _ => "dm-langserver",
        };
        let mut v = json!({"message": e.description(), "severity": severity, "range": range(e.location()), "source": source});
        if let Some(t) = e.errortype() {
            v["code"] = json!(t);
        }
        if related && !e.notes().is_empty() {
            v["relatedInformation"] = e.notes().iter().map(|n| json!({"message": n.description(), "location": {"uri": url(n.location().file), "range": range(n.location())}})).collect();
        }
        out.entry(url(e.location().file)).or_default().push(v);
        if !related {
            for n in e.notes() {
                out.entry(url(n.location().file)).or_default().push(json!({"message": n.description(), "severity": 3, "range": range(n.location()), "source": source}));
            }
        }
    }
    out
}

fn compare(c: &Client, want: &BTreeMap<String, Vec<Value>>, what: &str) -> R {
    let sorted = |v: Option<&Vec<Value>>| {
        let mut v: Vec<String> = v.into_iter().flatten().map(|x| x.to_string()).collect();
        v.sort();
        v
    };
    for u in c.diags.keys().chain(want.keys()) {
        let (got, want) = (sorted(c.diags.get(u)), sorted(want.get(u)));
        if got == want {
            continue;
        }
        let extra: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
        let missing: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
        ensure!(got == want, "published", "{}: for {}\npublished {}, which are not found: {:#?}\nnot published: {:#?}", what, u, got.len(), extra, missing);
    }
    Ok(())
}

fn caps(related: bool, g: &G) -> Value {
    if related {
        json!({"textDocument": {"publishDiagnostics": {"relatedInformation": true}}})
    } else if g.bool() {
        json!({"textDocument": {"publishDiagnostics": {"relatedInformation": false}}})
    } else {
        json!({})
    }
}

pub fn workspace(g: &G) -> R {
    let dir = g.scratch();
    let related = g.bool();
    let n = 1 + g.usize(4);
    let mut names = vec![];
    for i in 0..n {
        names.push(format!("{}{}{}.dm", if g.chance(1, 4) { "sub dir/" } else { "" }, ["a", "b", "c", "d"][i], g.pick(&["", "", " é", "#1", "%2B", "?x"])));
    }
    std::fs::create_dir(dir.join("sub dir")).unwrap();
    let mut texts: Vec<String> = (0..n).map(|_| program(g)).collect();
    let dmes: &[&str] = if g.chance(1, 4) { &["game.dme", "other#2.dme"] } else { &["game.dme"] };
    let write = |texts: &[String], g: &G| -> String {
        for (n, t) in names.iter().zip(texts) {
            g.note(&format!("--- {}\n{}", n, t));
            std::fs::write(dir.join(n), t).unwrap();
        }
        for (k, dme) in dmes.iter().enumerate() {
            let mut s = String::new();
            for n in names.iter().skip(k) {
                s += &format!("#include \"{}\"\n", n);
            }
            if g.chance(1, 6) {
                s += "#include \"absent.dm\"\n";
            }
            g.note(&format!("--- {}\n{}", dme, s));
            std::fs::write(dir.join(dme), s).unwrap();
        }
        let mut dme = dmes[0].to_string();
        let _ = std::fs::remove_file(dir.join("SpacemanDMM.toml"));
        if dmes.len() > 1 || g.chance(3, 4) {
            let checks = g.chance(6, 7);
            let c = config(g, dmes, checks);
            g.note(&format!("--- SpacemanDMM.toml\n{}", c));
            if let Some(l) = c.lines().find(|l| l.starts_with("environment")) {
                dme = l.split('"').nth(1).unwrap().to_string();
            }
            std::fs::write(dir.join("SpacemanDMM.toml"), c).unwrap();
        }
        dme
    };
    let mut dme = write(&texts, g);
    let mut c = Client::start(Path::new("/"), Some(&uri(&dir)), caps(related, g))?;
    let mut done = 0;
    for round in 0..1 + g.usize(3) {
        if round > 0 {
            for t in texts.iter_mut() {
                match g.below(4) {
                    0 => *t = program(g),
                    1 => *t = "// nothing\n".into(),
                    _ => {},
                }
            }
            g.note("======== reparse");
            dme = write(&texts, g);
            c.notify("experimental/dreammaker/reparse", json!({}))?;
        }
        c.settle()?;
        // (everything before its answer is in)
        c.ask("workspace/symbol", json!({"query": "zzz"}))?;
        let want = found(&dir, &dme, related);
        done += want.values().map(|v| v.len()).sum::<usize>();
        g.label_if(want.len() > 1, "several files");
        g.label_if(want.values().flatten().any(|v| !v["relatedInformation"].is_null()), "related information");
        compare(&c, &want, &format!("round {}", round))?;
    }
    g.nontrivial(done >= 4);
    c.quit()
}

/// Documents outside of any workspace.
pub fn single(g: &G) -> R {
    let related = g.bool();
    let mut c = Client::start(Path::new("/"), None, caps(related, g))?;
    let docs = 1 + g.usize(2);
    let mut done = 0;
    for i in 0..docs {
        let u = format!("untitled:doc{}.dm", i);
        let mut t = program(g);
        for version in 0..1 + g.usize(3) {
            g.note(&format!("--- {} {}\n{}", u, version, t));
            if version == 0 {
                c.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "dm", "version": 1, "text": t}}))?;
            } else {
                c.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 1 + version}, "contentChanges": [{"text": t}]}))?;
            }
            let m = g.pick::<&str>(&["documentSymbol", "documentLink", "hover"]).to_string();
            c.request(&format!("textDocument/{}", m), json!({"textDocument": {"uri": u}, "position": {"line": 1, "character": 1}}))?;
            let want = alone(&u, &t, related);
            done += want.len();
            let mut got = c.diags.get(&u).cloned().unwrap_or_default();
            let (mut a, mut b): (Vec<String>, Vec<String>) = (got.drain(..).map(|v| v.to_string()).collect(), want.iter().map(|v| v.to_string()).collect());
            a.sort();
            b.sort();
            ensure!(a == b, "published-alone", "{} version {}\npublished {:#?}\nfound {:#?}", u, version, a, b);
            t = if g.chance(1, 4) { "// nothing\n".into() } else { program(g) };
        }
    }
    g.nontrivial(done >= 2);
    c.quit()
}

fn alone(u: &str, text: &str, related: bool) -> Vec<Value> {
    let ctx = dm::Context::default();
    let mut pp = dm::preprocessor::Preprocessor::from_buffer(&ctx, u.into(), text);
    let tree = {
        let mut parser = dm::parser::Parser::new(&ctx, dm::indents::IndentProcessor::new(&ctx, &mut pp));
        parser.enable_procs();
        parser.parse_object_tree()
    };
    pp.finalize();
    dreamchecker::run(&ctx, &tree);
    let range = |l: dm::Location| {
        let p = json!({"line": l.line.max(1) - 1, "character": l.column.max(1) - 1});
        json!({"start": p, "end": p})
    };
    let mut out = vec![];
    for e in ctx.errors().iter() {
        if e.location().is_builtins() {
            continue;
        }
        let severity = match e.severity() {
            dm::Severity::Error => 1,
            dm::Severity::Warning => 2,
            dm::Severity::Info => 3,
            dm::Severity::Hint => 4,
        };
        let source = match e.component() {
            dm::Component::DreamChecker => "dreamchecker",
            _ => "dm-langserver",
        };
        let mut v = json!({"message": e.description(), "severity": severity, "range": range(e.location()), "source": source});
        if let Some(t) = e.errortype() {
            v["code"] = json!(t);
        }
        if related && !e.notes().is_empty() {
            v["relatedInformation"] = e.notes().iter().map(|n| json!({"message": n.description(), "location": {"uri": u, "range": range(n.location())}})).collect();
        }
        out.push(v);
        if !related {
            for n in e.notes() {
                out.push(json!({"message": n.description(), "severity": 3, "range": range(n.location()), "source": source}));
            }
        }
    }
    out
}
