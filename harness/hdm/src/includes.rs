//! C07: included files.
use crate::prep::*;
use dm::lexer::*;
use dm::preprocessor::*;
use dm::Context;
use engine::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Component, Path, PathBuf};

const DIRS: &[&str] = &["", "a", "b", "a/c"];
const NAMES: &[&str] = &["x.dm", "y.dm", "n.dm", "t.v.dm"];
const OTHER_DIRS: &[&str] = &["a", "", "a/c"];
const OTHERS: &[&str] = &["m.dmm", "k.dmf", "s.dms", "w.txt", "noext"];

#[derive(Clone, Debug)]
enum L {
    Text(String),
    Include(String),
    Main(String),
    Pragma,
    /// Something that is skipped.
    Skipped(String),
    File,
    /// The file's name by way of macros, so many deep.
    Mac(usize),
}

fn norm(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {},
            Component::ParentDir => {
                o.pop();
            },
            c => o.push(c),
        }
    }
    o
}

fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() { name.to_owned() } else { format!("{}/{}", dir, name) }
}

fn dir_of(f: &str) -> &str {
    f.rfind('/').map_or("", |i| &f[..i])
}

struct St<'a> {
    files: &'a BTreeMap<String, Vec<L>>,
    root: PathBuf,
    done: BTreeSet<String>,
    multiple: BTreeSet<String>,
    out: Vec<(String, u32, u16, String)>,
    diags: Vec<(String, u32, String)>,
    collected: BTreeSet<String>,
    max_depth: usize,
    dups: usize,
    beside_beats_root: usize,
    runs: usize,
}

fn go(st: &mut St, f: &str, depth: usize) {
    st.runs += 1;
    if st.runs > 300 {
        return;
    }
    st.max_depth = st.max_depth.max(depth);
    // (the definitions of HERE0 to HERE5)
    let mut line = if f == "env.dme" { 6 } else { 0 };
    let files = st.files;
    for l in &files[f] {
        line += 1;
        match l {
            L::Text(t) => st.out.push((f.to_owned(), line, 1, t.clone())),
            L::File => st.out.push((f.to_owned(), line, 1, format!("FILE {}", f))),
            L::Mac(_) => st.out.push((f.to_owned(), line, 1, format!("FILE {}", f))),
            L::Main(t) => {
                if f == "env.dme" {
                    st.out.push((f.to_owned(), line + 1, 1, t.clone()));
                }
                line += 2;
            },
            L::Skipped(_) => line += 2,
            L::Pragma => {
                st.multiple.insert(f.to_owned());
            },
            L::Include(sp) => {
                let sp = sp.replace('\\', "/");
                let c1 = norm(&Path::new(dir_of(f)).join(&sp)).to_string_lossy().into_owned();
                let c2 = norm(Path::new(&sp)).to_string_lossy().into_owned();
                let exists = |c: &str| files.contains_key(c) || OTHERS.iter().any(|o| OTHER_DIRS.iter().any(|d| c == join(d, o)));
                // climbing above the project leads nowhere
                let climbs = |base: &str| {
                    let mut d = base.split('/').filter(|x| !x.is_empty()).count() as i32;
                    for c in sp.split('/') {
                        match c {
                            "." => {},
                            ".." => d -= 1,
                            _ => d += 1,
                        }
                        if d < 0 {
                            return true;
                        }
                    }
                    false
                };
                let target = if exists(&c1) && !climbs(dir_of(f)) {
                    if c1 != c2 && exists(&c2) && !climbs("") {
                        st.beside_beats_root += 1;
                    }
                    c1
                } else if exists(&c2) && !climbs("") {
                    c2
                } else {
                    st.diags.push((f.to_owned(), line, "failed to find #include".into()));
                    continue;
                };
                match target.rsplit('.').next().unwrap() {
                    "dm" | "dme" => {},
                    "dmm" | "dmf" | "dms" => {
                        st.collected.insert(target);
                        continue;
                    },
                    "txt" => {
                        st.diags.push((f.to_owned(), line, "unknown extension".into()));
                        continue;
                    },
                    _ => {
                        st.diags.push((f.to_owned(), line, "filename has no extension".into()));
                        continue;
                    },
                }
                if !st.done.insert(target.clone()) && !st.multiple.contains(&target) {
                    st.dups += 1;
                    st.diags.push((f.to_owned(), line, "duplicate #include".into()));
                    continue;
                }
                go(st, &target, depth + 1);
            },
        }
    }
}

/// Some way of writing the path of `target` in a file in `from`.
fn spelling(g: &G, from: &str, target: &str) -> String {
    let mut s = if g.bool() {
        // from the including file
        let a: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
        let b: Vec<&str> = target.split('/').collect();
        let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        let mut v = vec![".."; a.len() - common];
        v.extend(&b[common..]);
        v.join("/")
    } else {
        target.to_owned()
    };
    if g.chance(1, 6) {
        s = format!("./{}", s);
    }
    if g.chance(1, 6) {
        if let Some(i) = s.find("a/") {
            if i == 0 || s.as_bytes()[i - 1] == b'/' {
                s.insert_str(i + 2, "../a/");
            }
        }
    }
    if g.chance(1, 6) {
        if let Some(i) = s.find('/') {
            s.insert_str(i + 1, "./");
        }
    }
    if g.bool() {
        s = s.replace('/', "\\");
    }
    s
}

fn includes(g: &G) -> R {
    let mut names: Vec<String> = DIRS.iter().flat_map(|d| NAMES.iter().map(move |n| join(d, n))).collect();
    g.shuffle(&mut names);
    names.truncate(1 + g.len(1, 9));
    names.push("env.dme".into());
    let mut n = 0;
    let mut files: BTreeMap<String, Vec<L>> = BTreeMap::new();
    for f in &names {
        let k = g.usize(if f == "env.dme" { 8 } else { 5 });
        let multi = f != "env.dme" && g.chance(1, 6);
        let mut ls = vec![];
        if multi {
            ls.push(L::Pragma);
        }
        for _ in 0..k + (f == "env.dme") as usize {
            n += 1;
            ls.push(match g.weighted(&[8, if multi { 0 } else { 14 }, 2, 2, 1, 2]) {
                0 => L::Text(format!("t{}", n)),
                1 => {
                    let target = match g.weighted(&[12, 1, 1]) {
                        0 => g.pick(&names).clone(),
                        1 => join(g.pick(OTHER_DIRS), g.pick(OTHERS)),
                        _ => join(g.pick(DIRS), g.pick(NAMES)),
                    };
                    L::Include(spelling(g, dir_of(f), &target))
                },
                2 => L::Main(format!("t{}", n)),
                4 => L::Skipped(if g.bool() { "#pragma multiple".into() } else { format!("#include \"{}\"", spelling(g, dir_of(f), g.pick(&names))) }),
                3 => L::File,
                _ => L::Mac(g.usize(6)),
            });
        }
        files.insert(f.clone(), ls);
    }
    let root = g.scratch();
    for d in DIRS {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for o in OTHERS {
        for d in OTHER_DIRS {
            std::fs::write(root.join(d).join(o), "notspliced").unwrap();
        }
    }
    let mut text = String::new();
    for (f, ls) in &files {
        let mut t = String::new();
        if f == "env.dme" {
            t.push_str("#define HERE0 __FILE__\n");
            for k in 1..6 {
                t.push_str(&if k % 2 == 1 { format!("#define HERE{}(x) HERE{}\n", k, k - 1) } else { format!("#define HERE{} HERE{}(1)\n", k, k - 1) });
            }
        }
        for l in ls {
            match l {
                L::Text(s) => t.push_str(s),
                L::File => t.push_str("__FILE__"),
                L::Mac(k) => t.push_str(&format!("HERE{}{}", k, if k % 2 == 1 { "(0)" } else { "" })),
                L::Main(s) => t.push_str(&format!("#ifdef __MAIN__\n{}\n#endif", s)),
                L::Pragma => t.push_str("#pragma multiple"),
                L::Skipped(s) => t.push_str(&format!("#ifdef NEVER\n{}\n#endif", s)),
                L::Include(s) => {
                    t.push_str(g.pick(&["", "", "\t"]));
                    t.push_str(&format!("#include \"{}\"", s));
                },
            }
            t.push('\n');
        }
        if g.bool() {
            t.pop();
        }
        std::fs::write(root.join(f), &t).unwrap();
        text.push_str(&format!("--- {}\n{}\n", f, t));
    }
    g.note(&text);
    let mut st = St { files: &files, root: root.clone(), done: ["env.dme".to_owned()].into(), multiple: Default::default(), out: vec![], diags: vec![], collected: Default::default(), max_depth: 0, dups: 0, beside_beats_root: 0, runs: 0 };
    go(&mut st, "env.dme", 0);
    if st.runs > 250 {
        return g.discard();
    }
    g.nontrivial(st.max_depth >= 2 || st.dups > 0 || st.beside_beats_root > 0);
    g.label_if(st.dups > 0, "repeated include");
    g.label_if(st.max_depth >= 2, "nested");
    g.label_if(st.beside_beats_root > 0, "beside before root");
    let ctx = Context::default();
    let mut pp = match Preprocessor::new(&ctx, root.join("env.dme")) {
        Ok(p) => p,
        Err(e) => return fail("open", e.to_string()),
    };
    let toks: Vec<LocatedToken> = pp.by_ref().collect();
    let rel = |p: &Path| norm(&root.join(p)).strip_prefix(&root).map(|p| p.to_string_lossy().into_owned()).unwrap_or_else(|_| p.display().to_string());
    let mut got = vec![];
    let mut nl = true;
    let mut last: Option<(String, u32)> = None;
    for t in &toks {
        if is_nl(&t.token) {
            nl |= matches!(t.token, Token::Punct(Punctuation::Newline));
            continue;
        }
        let f = rel(&ctx.file_path(t.location.file));
        let c = match &t.token {
            Token::String(s) => format!("FILE {}", rel(Path::new(s))),
            other => canon(other),
        };
        if last.as_ref() != Some(&(f.clone(), t.location.line)) {
            ensure!(nl, "newline", "{} is not on a line of its own after {:?} in\n{}", c, last, text);
        }
        nl = false;
        last = Some((f.clone(), t.location.line));
        got.push((f, t.location.line, t.location.column, c));
    }
    ensure_eq!(got, st.out, "spliced", "tokens (file, line, column, text) of\n{}", text);
    let mut have: Vec<(String, u32, String)> = ctx
        .errors()
        .iter()
        .map(|e| {
            let d = e.description();
            let d = ["failed to find #include", "unknown extension", "filename has no extension", "duplicate #include"].iter().find(|p| d.starts_with(**p)).map_or(d.to_owned(), |p| p.to_string());
            (rel(&ctx.file_path(e.location().file)), e.location().line, d)
        })
        .collect();
    have.sort();
    st.diags.sort();
    ensure_eq!(have, st.diags, "diagnostics", "diagnostics of\n{}", text);
    // every path of such a file that the preprocessor holds
    let dbg = format!("{:?}", pp);
    let collected: BTreeSet<String> = dbg.split('"').filter(|q| [".dmm", ".dmf", ".dms"].iter().any(|x| q.ends_with(x))).map(|q| rel(Path::new(q))).collect();
    ensure_eq!(collected, st.collected, "collected", "the map, skin and script files of\n{}", text);
    let _ = &st.root;
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "includes nested two deep, or a file included again, or a name found both beside the including file and at the root",
        assumptions: &["no symbolic links; paths stay inside the project", "the lists of map, skin and script files have no accessor: that they are recorded is seen in the preprocessor's debug output"],
        subs: vec![Sub { name: "includes", quick: 25000, thorough: 1000000, run: includes }],
    }
}
