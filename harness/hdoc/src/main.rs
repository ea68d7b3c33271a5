//! H01, H02: the documentation generator.
mod doc;
mod html;
mod project;

use engine::{ensure, ensure_eq, fail, Fail, Prop, Sub, G, R};
use html::{canon, canon_of, find, Node};
use project::Project;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Ran {
    code: Option<i32>,
    err: String,
}

fn dmdoc(cwd: &Path, args: &[&str]) -> Ran {
    let exe = PathBuf::from(std::env::var("PBT_BIN_DIR").expect("PBT_BIN_DIR")).join("dmdoccli");
    let out = Command::new(exe).args(args).current_dir(cwd).env_clear().env("GIT_CEILING_DIRECTORIES", cwd).stdin(Stdio::null()).output().expect("dmdoccli");
    Ran { code: out.status.code(), err: String::from_utf8_lossy(&out.stderr).into() }
}

fn sane(r: &Ran, what: &str) -> R {
    ensure!(!r.err.contains("panicked at") && r.code.is_some(), "dmdoc:panic", "ended with {:?}: {}\n{}", r.code, r.err, what);
    ensure!(!r.err.contains("error"), "dmdoc:error", "{}\n{}", r.err, what);
    Ok(())
}

fn write_all(dir: &Path, files: &[(String, String)]) -> String {
    let mut what = String::new();
    for (name, text) in files {
        let path = dir.join(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(&path, text).unwrap();
        what.push_str(&format!("-------- {}\n{}", name, text));
        if !text.ends_with('\n') {
            what.push_str("(no newline)\n");
        }
    }
    what
}

/// Every page there is, by its path.
fn pages(dir: &Path) -> Result<BTreeMap<String, Vec<Node>>, Fail> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            } else if e.path().extension().is_some_and(|x| x == "html") {
                let name = e.path().strip_prefix(dir).unwrap().to_string_lossy().into_owned();
                let text = std::fs::read_to_string(e.path()).unwrap();
                match html::parse(&text) {
                    Ok(n) => out.insert(name, n),
                    Err(e) => return fail("dmdoc:html", format!("{}: {}\n{}", name, e, text)),
                };
            }
        }
    }
    Ok(out)
}

struct Made {
    dir: PathBuf,
    what: String,
    pages: BTreeMap<String, Vec<Node>>,
}

fn make(g: &G, p: &Project) -> Result<Made, Fail> {
    let dir = g.scratch();
    let what = write_all(&dir, &p.all(g));
    g.note(&what);
    let mut args = vec!["-e", "game.dme"];
    if let Some((name, _)) = &p.index {
        args.extend(["--index", name]);
    }
    let out = if g.chance(1, 4) { "docs/html" } else { "dmdoc" };
    if out != "dmdoc" {
        args.extend(["--output", out]);
    }
    let r = dmdoc(&dir, &args);
    sane(&r, &what)?;
    ensure_eq!(r.code, Some(0), "dmdoc:status", "exit status; {}\n{}", r.err, what);
    let pages = pages(&dir.join(out))?;
    ensure!(pages.contains_key("index.html"), "dmdoc:index", "no index; {}\n{}", r.err, what);
    Ok(Made { dir: dir.join(out), what, pages })
}

// ------------------------------------------------------------------------------------------------
// H01

/// Every link of every page leads somewhere, and all pages can be reached.
fn links(made: &Made) -> R {
    let mut ids: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for (name, nodes) in &made.pages {
        let set = ids.entry(name).or_default();
        for n in nodes {
            let mut twice = None;
            n.walk(&mut |n| {
                if n.has("id") {
                    let id = n.attr("id");
                    if !set.insert(id) && id.contains('/') {
                        twice = Some(id);
                    }
                }
            });
            if let Some(id) = twice {
                return fail("links:id-twice", format!("{} twice in {}\n{}", id, name, made.what));
            }
        }
    }
    let mut reached: BTreeSet<String> = BTreeSet::from(["index.html".to_string()]);
    let mut todo = vec!["index.html".to_string()];
    for name in made.pages.keys() {
        // whatever is not reachable is looked at all the same
        if !reached.contains(name) {
            todo.insert(0, name.clone());
        }
    }
    let mut seen = BTreeSet::new();
    let mut from_index = BTreeSet::from(["index.html".to_string()]);
    let mut graph: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    while let Some(name) = todo.pop() {
        if !seen.insert(name.clone()) {
            continue;
        }
        let nodes = &made.pages[&name];
        let base = find(nodes, "base").map_or("", |b| b.attr("href")).to_string();
        let mut bad = None;
        for n in nodes {
            n.walk(&mut |n| {
                for attr in ["href", "src"] {
                    if !n.has(attr) || n.tag() == "base" {
                        continue;
                    }
                    let href = n.attr(attr);
                    if href.starts_with("https://") {
                        continue;
                    }
                    // where the browser goes
                    let (file, id) = href.split_once('#').map_or((href, None), |(f, i)| (f, Some(i)));
                    let mut at: Vec<&str> = name.split('/').collect();
                    at.pop();
                    for bit in base.split('/').chain(file.split('/')) {
                        match bit {
                            "" | "." => {},
                            ".." => {
                                if at.pop().is_none() {
                                    bad = Some((href.to_string(), "leads out of the directory"));
                                }
                            },
                            b => at.push(b),
                        }
                    }
                    let to = at.join("/");
                    if !made.dir.join(&to).is_file() {
                        bad = Some((href.to_string(), "no such file"));
                    } else if id.is_some_and(|i| !ids.get(to.as_str()).is_some_and(|s| s.contains(i))) {
                        bad = Some((href.to_string(), "no such place in it"));
                    } else {
                        graph.entry(name.clone()).or_default().insert(to.clone());
                        if made.pages.contains_key(&to) && reached.insert(to.clone()) {
                            todo.push(to);
                        }
                    }
                }
            });
        }
        if let Some((href, why)) = bad {
            // where there is nothing of the kind, the header does not know
            if matches!(href.as_str(), "index.html#modules" | "index.html#types") {
                continue;
            }
            return fail("links:broken", format!("{} has a link to {}: {}\n{}", name, href, why, made.what));
        }
    }
    let mut todo = vec!["index.html".to_string()];
    while let Some(n) = todo.pop() {
        for to in graph.get(&n).into_iter().flatten() {
            if from_index.insert(to.clone()) {
                todo.push(to.clone());
            }
        }
    }
    for name in made.pages.keys() {
        ensure!(from_index.contains(name), "links:unreachable", "no way from the index to {}\n{}", name, made.what);
    }
    Ok(())
}

fn resolve(g: &G) -> R {
    let p = Project::gen(g);
    let made = make(g, &p)?;
    g.nontrivial(p.crosslinks().len() > 1 && made.pages.len() > 2);
    links(&made)?;
    // what a link names is where it leads
    let targets: BTreeSet<String> = p.crosslinks().into_iter().filter(|c| p.resolve(c).1).collect();
    let mut found = BTreeSet::new();
    for (name, nodes) in &made.pages {
        let main = find(nodes, "main").map_or(&[][..], |n| n.kids());
        let mut bad = None;
        let mut look = |n: &Node| {
            if n.tag() == "a" && targets.contains(&n.text()) {
                let want = p.resolve(&n.text()).0.unwrap();
                let href = n.attr("href");
                if href == want || want.starts_with("https:") && href.starts_with(&want) {
                    found.insert(n.text());
                } else {
                    bad = Some(format!("[{}] leads to {:?} in {}, not to {}", n.text(), href, name, want));
                }
            }
        };
        prose(text_of(name, main), &mut look);
        if let Some(b) = bad {
            return fail("links:elsewhere", format!("{}\n{}", b, made.what));
        }
    }
    for c in p.plain_crosslinks() {
        ensure!(!p.resolve(&c).1 || found.contains(&c), "links:none", "[{}] is not a link in\n{}", c, made.what);
    }
    Ok(())
}

/// The index's text comes before its lists.
fn text_of<'a>(page: &str, main: &'a [Node]) -> &'a [Node] {
    let lists = |n: &Node| n.tag() == "h3" && matches!(n.attr("id"), "modules" | "types");
    match main.iter().position(lists) {
        Some(end) if page == "index.html" => &main[..end],
        _ => main,
    }
}

/// What is in the documentation, rather than in the headings and names around it.
fn prose(nodes: &[Node], look: &mut impl FnMut(&Node)) {
    for n in nodes {
        if !matches!(n.tag(), "h1" | "th") && !(n.tag() == "h3" && ["var/", "proc/", "define/"].iter().any(|k| n.attr("id").starts_with(k))) {
            look(n);
            prose(n.kids(), look);
        }
    }
}

/// A dry run tells whether all crosslinks are as they should be, and writes nothing.
fn dry(g: &G) -> R {
    let mut p = Project::gen(g);
    let many = g.chance(1, 40);
    if many {
        // as many as a status has room for
        let n = g.pick(&[255usize, 256, 257, 512, 768]);
        let lines: String = (0..*n).map(|i| format!("/// [nope{}]\n#define OTHER{} 1\n", i, i)).collect();
        p.code[0].push_str(&lines);
    }
    let dir = g.scratch();
    let what = write_all(&dir, &p.all(g));
    g.note(&what);
    let mut args = vec!["-e", "game.dme", "--dry-run"];
    if let Some((name, _)) = &p.index {
        args.extend(["--index", name]);
    }
    let wrong: Vec<String> = p.crosslinks().into_iter().filter(|c| !p.resolve(c).1).collect();
    g.nontrivial(!p.crosslinks().is_empty());
    g.label(if many { "hundreds of broken links" } else if wrong.is_empty() { "no broken links" } else { "broken links" });
    let r = dmdoc(&dir, &args);
    sane(&r, &what)?;
    ensure!(!dir.join("dmdoc").exists(), "dry:wrote", "a dry run wrote its output\n{}", what);
    ensure_eq!(r.code == Some(0), wrong.is_empty() && !many, "dry:status", "whether the status {:?} is that of success; {:?} are wrong; {}\n{}", r.code, wrong, r.err, what);
    for w in wrong {
        ensure!(r.err.contains(&format!("[{}]", w)), "dry:silent", "nothing is said of [{}]; {}\n{}", w, r.err, what);
    }
    for c in p.crosslinks() {
        if p.resolve(&c).1 {
            ensure!(!r.err.contains(&format!("    [{}]:", c)), "dry:complaint", "[{}] is as it should be; {}\n{}", c, r.err, what);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// H02

fn shown(g: &G) -> R {
    let p = Project::gen(g);
    let made = make(g, &p)?;
    let want = p.pages();
    g.nontrivial(want.len() > 3);
    let names: BTreeSet<&String> = made.pages.keys().collect();
    ensure_eq!(names, want.keys().collect::<BTreeSet<_>>(), "pages:set", "the pages\n{}", made.what);
    for (name, (title, header, body)) in &want {
        let nodes = &made.pages[name];
        let part = |tag: &str| find(nodes, tag).map_or(&[][..], |n| n.kids());
        ensure_eq!(find(nodes, "title").map(|t| t.text()), Some(format!("{} - {}", title, p.world_name())), "pages:title", "title of {}\n{}", name, made.what);
        ensure_eq!(canon(part("header")), canon_of(header), "pages:header", "header of {}\n{}", name, made.what);
        let main = text_of(name, part("main"));
        let (got, want) = (canon(main), canon_of(body));
        let at = got.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(got.lines().count().min(want.lines().count()));
        ensure!(got == want, "pages:text", "{} differs: {:?}\nwhere there should be {:?}\n{}", name, got.lines().nth(at), want.lines().nth(at), made.what);
    }
    Ok(())
}

fn index(g: &G) -> R {
    let p = Project::gen(g);
    let made = make(g, &p)?;
    let (modules, types) = p.index();
    g.nontrivial(modules.len() + types.len() > 3);
    let main = find(&made.pages["index.html"], "main").map_or(&[][..], |n| n.kids());
    for (kind, want) in [("modules", modules), ("types", types)] {
        let mut got = BTreeSet::new();
        let at = main.iter().position(|n| n.tag() == "h3" && n.attr("id") == kind);
        ensure_eq!(at.is_some(), !want.is_empty(), "index:lists", "whether there is a list of {}\n{}", kind, made.what);
        let Some(at) = at else { continue };
        let head = main[at].text();
        if kind == "modules" {
            let documented = p.macros.iter().filter(|m| m.doc.is_some()).count();
            ensure!(head.contains(&format!("({} modules, {}/", want.len(), documented)), "index:coverage", "{:?} where {} modules and {} macros are documented\n{}", head, want.len(), documented, made.what);
        } else {
            let detailed = want.iter().filter(|w| w.starts_with("Some")).count();
            ensure!(head.contains(&format!("({} detailed/{} documented/", detailed, want.len())), "index:coverage", "{:?} where {} types are documented, {} in detail\n{}", head, want.len(), detailed, made.what);
        }
        let paths: BTreeSet<String> = want.iter().map(|w| w.split(' ').find(|b| !b.starts_with("Some(") && *b != "None").unwrap().to_string()).collect();
        entries(&main[at + 1], "", &paths, &mut got).or_else(|e| fail("index:nesting", format!("{}\n{}", e, made.what)))?;
        ensure_eq!(got, want, "index:entries", "what is listed of the {}\n{}", kind, made.what);
    }
    Ok(())
}

/// What a list shows; `above` is the path of what it belongs to.
fn entries(list: &Node, above: &str, paths: &BTreeSet<String>, out: &mut BTreeSet<String>) -> Result<(), String> {
    for li in list.kids().iter().filter(|n| n.tag() == "li") {
        let kids = li.kids();
        let at = kids.iter().position(|n| n.has("title")).ok_or("an item without a path")?;
        let n = &kids[at];
        let path = n.attr("title").to_string();
        if !above.is_empty() && !path.starts_with(&format!("{}/", above)) {
            return Err(format!("{} is listed under {}", path, above));
        }
        let below = kids.iter().position(|n| n.tag() == "ul");
        let teaser: Vec<Node> = kids[at + 1..below.unwrap_or(kids.len())].to_vec();
        let teaser = canon(&teaser);
        let teaser = teaser.strip_prefix("- ").or(teaser.strip_prefix('-')).unwrap_or(&teaser);
        let href = n.has("href").then(|| n.attr("href").to_string());
        if paths.contains(&path) && !(href.is_none() && teaser.is_empty() && out.iter().any(|o| o.contains(&format!(" {} ", path)))) {
            let entry = format!("{:?} {} {} {}", href, path, n.text(), teaser);
            if !out.insert(entry.clone()) {
                return Err(format!("{} is listed twice", entry));
            }
        } else if href.is_some() || !paths.iter().any(|p| p.starts_with(&format!("{}/", path))) {
            return Err(format!("{} is listed", path));
        }
        if let Some(b) = below {
            entries(&kids[b], &path, paths, out)?;
        }
    }
    Ok(())
}

fn main() {
    engine::main(vec![
        Prop {
            id: "H01",
            rule: "at least two crosslinks, and pages besides the index and one other",
            assumptions: &["the links to the lists of modules or types where there are none are not looked at", "files outside of the type tree's directories"],
            subs: vec![Sub { name: "resolve", quick: 6000, thorough: 100000, run: resolve }, Sub { name: "dry", quick: 6000, thorough: 100000, run: dry }],
        },
        Prop {
            id: "H02",
            rule: "more than three pages, or more than three things to list",
            assumptions: &["the layout of the pages, other than looks and spacing, is fixed", "one module text per file"],
            subs: vec![Sub { name: "shown", quick: 6000, thorough: 100000, run: shown }, Sub { name: "index", quick: 6000, thorough: 100000, run: index }],
        },
    ]);
}
