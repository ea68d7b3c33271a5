//! L01: whatever happened before, answers are about the documents as they are now.
use crate::client::*;
use engine::{ensure, ensure_eq, fail, Fail, G, R};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------------------------------------
// Texts

const TYPES: &[&str] = &["/obj/ta", "/obj/ta/tb", "/mob/tc", "/datum/td", "/turf/te"];
const VARS: &[&str] = &["va", "vb", "vc", "vd"];
const PROCS: &[&str] = &["pa", "pb", "pc"];
const MACROS: &[&str] = &["MA", "MB", "MC"];

fn color(g: &G) -> String {
    match g.weighted(&[3, 2, 1, 1]) {
        0 => format!("\"#{:06x}\"", g.below(0x1000000)),
        1 => format!("\"#{:03x}\"", g.below(0x1000)),
        2 => format!("rgb({}, {}, {})", g.below(256), g.below(256), g.below(256)),
        _ => format!("'#{:04X}'", g.below(0x10000)),
    }
}

fn value(g: &G) -> String {
    match g.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => color(g),
        1 => g.below(100).to_string(),
        2 => g.pick(VARS).to_string(),
        3 => g.pick(MACROS).to_string(),
        4 => format!("new {}", g.pick(TYPES)),
        _ => format!("{}({})", g.pick(PROCS), g.pick(VARS)),
    }
}

fn tail(g: &G) -> &'static str {
    if g.chance(1, 6) {
        g.pick::<&str>(&[" // é", " // 😀 \"#123456\"", " /* ß \"#fff\" */", "  ", " // note"])
    } else {
        ""
    }
}

/// A few lines that belong together.
fn chunk(g: &G) -> Vec<String> {
    let t = *g.pick(TYPES);
    let mut out = vec![];
    match g.weighted(&[3, 5, 2, 2, 2, 1, 1, 1]) {
        0 => {
            out.push(t.to_string());
            for _ in 0..1 + g.usize(3) {
                let ty = if g.chance(1, 3) { *g.pick(TYPES) } else { "" };
                out.push(if g.chance(1, 4) { format!("\t{} = {}", g.pick(VARS), value(g)) } else { format!("\tvar{}/{} = {}{}", ty, g.pick(VARS), value(g), tail(g)) });
            }
        },
        1 => {
            let p = *g.pick(PROCS);
            out.push(format!("{}{}{}({})", t, if g.bool() { "/proc/" } else { "/" }, p, g.pick::<&str>(&["", "a", "a, b", "obj/ta/a", "mob/tc/vd, b = 3"])));
            for _ in 0..1 + g.usize(4) {
                out.push(match g.weighted(&[3, 3, 2, 2, 2, 1, 1, 2]) {
                    0 => format!("\tvar{}/{} = {}", g.pick(TYPES), g.pick(&["la", "lb", "vd"]), value(g)),
                    1 => format!("\t{} = {}{}", g.pick(VARS), value(g), tail(g)),
                    2 => format!("\tla.{} = {}", g.pick(VARS), value(g)),
                    3 => format!("\t{}({}, {})", g.pick(PROCS), value(g), value(g)),
                    4 => format!("\treturn {}", value(g)),
                    5 => "\t. = ..()".into(),
                    6 => format!("\tif({})\n\t\tlb.{}({})", value(g), g.pick(PROCS), value(g)),
                    _ => format!("\tsrc.{}(\"x[{}]\")", g.pick(PROCS), value(g)),
                });
            }
        },
        2 => out.push(format!("#define {} {}", g.pick(MACROS), value(g))),
        3 => out.push(format!("#define {}(X) {}", g.pick(MACROS), g.pick::<&str>(&["X", "1 + X", "va"]))),
        4 => {
            out.push(format!("{}#region one", g.pick(&["//", "// ", "\t//"])));
            out.push(format!("/var/{} = {}", g.pick(VARS), value(g)));
            out.push("//#endregion".into());
        },
        5 => out.push(g.pick::<&str>(&["#ifdef MA", "#else", "#endif", "#undef MA", "#undef MB"]).to_string()),
        6 => out.push(g.pick::<&str>(&["/obj/ta/", "/obj/ta/var/", "/proc/pa(", ")", "}", "\"", "/*", "/obj/ta/proc/pa()\n\tva.", "/obj/ta/proc/pb()\n\tpa(1, "]).to_string()),
        _ => out.push(g.pick::<&str>(&["", "// é \"#aabbcc\"", "/// about it", "/** more */", "//#region", "//#endregion"]).to_string()),
    }
    out
}

pub(crate) fn text(g: &G, chunks: usize, crlf: bool) -> String {
    let mut s = String::new();
    for _ in 0..chunks {
        for l in chunk(g) {
            s.push_str(&l);
            s.push('\n');
        }
    }
    if g.chance(1, 5) {
        s.pop();
    }
    if crlf {
        s = s.replace('\n', "\r\n");
    }
    s
}

// ------------------------------------------------------------------------------------------------
// Histories

struct Doc {
    name: String,
    uri: String,
    /// whether there is a file, and what it holds
    disk: Option<String>,
    open: Option<String>,
    version: i32,
}

struct World {
    dir: PathBuf,
    root: Option<String>,
    docs: Vec<Doc>,
    /// how many uses of a variable there are, so that it can be told when the table of them is ready
    sentinels: usize,
    crlf: bool,
}

/// An offset where text can be cut: no character is split, nor a line ending.
fn cut(g: &G, s: &str) -> usize {
    if g.chance(1, 8) {
        return if g.bool() { 0 } else { s.len() };
    }
    let mut o = g.usize(s.len() + 1);
    if g.chance(1, 3) {
        // the end of the line
        o = s[..].char_indices().map(|x| x.0).filter(|&i| i >= o && s.as_bytes()[i] == b'\n').next().unwrap_or(s.len());
    }
    while !s.is_char_boundary(o) || (o > 0 && o < s.len() && s.as_bytes()[o] == b'\n' && s.as_bytes()[o - 1] == b'\r') {
        o -= 1;
    }
    o
}

/// The position of an offset; at the end of a line it may be written as anything beyond.
fn wide(g: &G, s: &str, o: usize) -> Value {
    let (l, c) = position(s, o);
    let rest = &s[o..];
    let at_end = rest.is_empty() || rest.starts_with('\n') || rest.starts_with("\r\n");
    if at_end && g.chance(1, 4) {
        let c = match g.below(3) {
            0 => c + 1,
            1 => c + g.range(1, 200) as u32,
            _ => 0x7fff_ffff,
        };
        g.label("column beyond the line's end");
        return pos((l, c));
    }
    pos((l, c))
}

fn edit(g: &G, s: &mut String, crlf: bool) -> Value {
    match g.weighted(&[8, 1, 1]) {
        0 => {
            let (mut a, mut b) = (cut(g, s), cut(g, s));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if g.chance(1, 2) {
                b = a;
            } else if b - a > 40 && g.chance(3, 4) {
                b = a + 40;
                while !s.is_char_boundary(b) || (b < s.len() && s.as_bytes()[b] == b'\n' && s.as_bytes()[b - 1] == b'\r') {
                    b -= 1;
                }
                b = b.max(a);
            }
            let new = match g.weighted(&[3, 2, 2, 1, 1]) {
                0 => text(g, 1, crlf),
                1 => String::new(),
                2 => g.pick::<&str>(&["a", " ", "va", ".", "/", "é", "😀", "\t", "(", "X"]).to_string(),
                3 => if crlf { "\r\n".into() } else { "\n".into() },
                _ => color(g),
            };
            let range = if a == b {
                let p = wide(g, s, a);
                json!({"start": p, "end": p})
            } else {
                json!({"start": wide(g, s, a), "end": wide(g, s, b)})
            };
            let mut change = json!({"range": range, "text": new});
            if g.chance(1, 4) {
                change["rangeLength"] = json!(s[a..b].encode_utf16().count());
            }
            s.replace_range(a..b, &new);
            change
        },
        1 => {
            *s = text(g, g.usize(4), crlf);
            json!({"text": *s})
        },
        _ => {
            // a line there is not
            g.label("change that does not apply");
            let l = s.matches('\n').count() as u32 + 1 + g.below(3) as u32;
            json!({"range": {"start": pos((l, 0)), "end": pos((l, 0))}, "text": "lost"})
        },
    }
}

impl World {
    fn new(g: &G, workspace: bool) -> World {
        let dir = g.scratch();
        let crlf = g.chance(1, 5);
        let mut docs = vec![];
        let n = 1 + g.usize(3);
        for i in 0..n {
            let name = format!("{}{}.dm", ["a", "b", "c"][i], g.pick(&["", "", "", " é", "#1", "%2B", "?x"]));
            let on_disk = workspace || g.chance(3, 4);
            let disk = on_disk.then(|| text(g, 1 + g.usize(4), crlf));
            let uri = if on_disk || g.bool() { uri(&dir.join(&name)) } else { format!("untitled:{}", name) };
            docs.push(Doc { name, uri, disk, open: None, version: 0 });
        }
        let root = workspace.then(|| {
            let mut s = uri(&dir);
            if g.bool() {
                s.push('/');
            }
            s
        });
        let mut w = World { dir, root, docs, sentinels: 0, crlf };
        for i in 0..n {
            w.save(i);
        }
        if workspace {
            let mut dme = String::from("#include \"zz.dm\"\n");
            for d in &w.docs {
                if g.chance(1, 2) {
                    dme.push_str(&format!("#define {} {}\n", g.pick(MACROS), value(g)));
                }
                if g.chance(1, 5) {
                    dme.push_str(&format!("#undef {}\n", g.pick(MACROS)));
                }
                if g.chance(7, 8) {
                    dme.push_str(&format!("#include \"{}\"\n", d.name));
                }
            }
            std::fs::write(w.dir.join("game.dme"), dme).unwrap();
            w.config(g);
        }
        w
    }

    fn save(&mut self, i: usize) {
        if let Some(t) = &self.docs[i].disk {
            std::fs::write(self.dir.join(&self.docs[i].name), t).unwrap();
        }
    }

    fn config(&self, g: &G) {
        let path = self.dir.join("SpacemanDMM.toml");
        let _ = std::fs::remove_file(&path);
        let text = match g.weighted(&[3, 3, 2, 1, 1]) {
            0 => return,
            1 => "[langserver]\ndreamchecker = true\n",
            2 => "[langserver]\ndreamchecker = false\n",
            3 => "[diagnostics]\nmacro_redefined = \"error\"\n\n[langserver]\ndreamchecker = true\n",
            _ => "[langserver]\ndreamchecker = maybe\n",
        };
        g.note(&format!("config {:?}", text));
        std::fs::write(path, text).unwrap();
    }

    fn sentinel(&mut self) {
        self.sentinels += 1;
        let mut s = "/var/sentinel = 1\n/proc/sentinels()\n".to_string();
        let end = "/var/after_sentinel = 0\n";
        for _ in 0..self.sentinels {
            s.push_str("\tsentinel = 2\n");
        }
        s.push_str(end);
        std::fs::write(self.dir.join("zz.dm"), s).unwrap();
    }

    /// Wait until everything about the environment is known.
    fn ready(&self, c: &mut Client) -> R {
        c.settle()?;
        let doc = uri(&self.dir.join("zz.dm"));
        for _ in 0..2000 {
            let r = c.ask("textDocument/references", json!({"textDocument": {"uri": doc}, "position": {"line": 0, "character": 6}, "context": {"includeDeclaration": false}}))?;
            if r.as_array().map_or(0, |a| a.len()) == self.sentinels {
                return Ok(());
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        fail("references-never", "the uses of /var/sentinel are never found")
    }

    fn start(&self) -> Result<Client, Fail> {
        let mut c = Client::start(Path::new("/"), self.root.as_deref(), json!({}))?;
        if self.root.is_some() {
            self.ready(&mut c)?;
        }
        Ok(c)
    }

    fn open(&self, c: &mut Client, i: usize) -> R {
        let d = &self.docs[i];
        c.notify("textDocument/didOpen", json!({"textDocument": {"uri": d.uri, "languageId": "dm", "version": d.version, "text": d.open.as_ref().unwrap()}}))
    }

    /// What the document is now.
    fn now(&self, i: usize) -> Option<&String> {
        self.docs[i].open.as_ref().or(self.docs[i].disk.as_ref())
    }
}

const AT: &[&str] = &["hover", "definition", "typeDefinition", "references", "implementation", "completion", "signatureHelp"];
const WHOLE: &[&str] = &["documentSymbol", "foldingRange", "documentColor", "documentLink"];

/// Arrays which are sets are put in order.
pub(crate) fn canon(method: &str, mut v: Value) -> Value {
    if let Some(r) = v.get_mut("result") {
        if method != "documentSymbol" {
            if let Some(a) = r.as_array_mut() {
                a.sort_by_key(|x| x.to_string());
            }
        }
    }
    v.as_object_mut().unwrap().remove("id");
    v
}

fn ask(c: &mut Client, uri: &str, method: &str, at: Option<(u32, u32)>) -> Result<Value, Fail> {
    let mut p = json!({"textDocument": {"uri": uri}});
    if let Some(at) = at {
        p["position"] = pos(at);
    }
    if method == "references" {
        p["context"] = json!({"includeDeclaration": true});
    }
    Ok(canon(method, c.request(&format!("textDocument/{}", method), p)?))
}

/// A position in a word, mostly.
pub(crate) fn spot(g: &G, s: &str) -> (u32, u32) {
    let words: Vec<usize> = s.char_indices().filter(|&(i, c)| c.is_ascii_alphanumeric() && !s[..i].ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_')).map(|x| x.0).collect();
    if words.is_empty() || g.chance(1, 8) {
        return position(s, cut(g, s));
    }
    let mut o = *g.pick(&words);
    o += g.usize(2).min(s[o..].bytes().take_while(|b| b.is_ascii_alphanumeric()).count());
    position(s, o)
}

fn history(g: &G, workspace: bool) -> R {
    let mut w = World::new(g, workspace);
    if workspace {
        w.sentinel();
    }
    let mut c = w.start()?;
    let steps = 2 + g.len(2, 14);
    let mut edits = 0;
    for d in &w.docs {
        g.note(&format!("-------- {} {:?}", d.uri, d.disk));
    }
    for i in 0..w.docs.len() {
        if g.chance(2, 3) {
            let t = w.docs[i].disk.clone().unwrap_or_else(|| text(g, 2, w.crlf));
            w.docs[i].open = Some(t);
            w.open(&mut c, i)?;
            g.note(&format!("open {} as it is", w.docs[i].name));
        }
    }
    for _ in 0..steps {
        let i = g.usize(w.docs.len());
        match g.weighted(&[5, 10, 2, 6, if workspace { 3 } else { 1 }, 1]) {
            0 => {
                if w.docs[i].open.is_none() {
                    let t = match &w.docs[i].disk {
                        Some(t) if g.chance(2, 3) => t.clone(),
                        _ => text(g, g.usize(5), w.crlf),
                    };
                    w.docs[i].open = Some(t.clone());
                    w.docs[i].version = g.range(0, 5) as i32;
                    w.open(&mut c, i)?;
                    g.note(&format!("open {} {:?}", w.docs[i].name, t));
                }
            },
            1 => {
                if let Some(mut t) = w.docs[i].open.clone() {
                    let n = 1 + if g.chance(1, 3) { g.usize(3) } else { 0 };
                    let changes: Vec<Value> = (0..n).map(|_| edit(g, &mut t, w.crlf)).collect();
                    w.docs[i].version += g.range(0, 2) as i32;
                    g.note(&format!("change {} {} -> {:?}", w.docs[i].name, Value::from(changes.clone()), t));
                    c.notify("textDocument/didChange", json!({"textDocument": {"uri": w.docs[i].uri, "version": w.docs[i].version}, "contentChanges": changes}))?;
                    w.docs[i].open = Some(t);
                    edits += n;
                }
            },
            2 => {
                if w.docs[i].open.take().is_some() {
                    c.notify("textDocument/didClose", json!({"textDocument": {"uri": w.docs[i].uri}}))?;
                    g.note(&format!("close {}", w.docs[i].name));
                }
            },
            3 => {
                if let Some(t) = w.now(i).cloned() {
                    let m = *g.pick(if g.bool() { AT } else { WHOLE });
                    let at = AT.contains(&m).then(|| spot(g, &t));
                    ask(&mut c, &w.docs[i].uri, m, at)?;
                    g.note(&format!("ask {} {} {:?}", w.docs[i].name, m, at));
                }
            },
            4 if workspace => {
                // files change on disk, and the environment is read again
                for i in 0..w.docs.len() {
                    if g.chance(1, 2) {
                        let t = match (&w.docs[i].open, g.chance(1, 2)) {
                            (Some(t), true) => t.clone(),
                            _ => text(g, 1 + g.usize(3), w.crlf),
                        };
                        g.note(&format!("disk {} {:?}", w.docs[i].name, t));
                        w.docs[i].disk = Some(t);
                        w.save(i);
                    }
                }
                if g.chance(1, 3) {
                    w.config(g);
                }
                w.sentinel();
                c.notify("experimental/dreammaker/reparse", json!({}))?;
                g.note("reparse");
                g.label("reparse");
                w.ready(&mut c)?;
            },
            4 => {
                if w.docs[i].disk.is_some() {
                    let t = text(g, 1 + g.usize(3), w.crlf);
                    g.note(&format!("disk {} {:?}", w.docs[i].name, t));
                    w.docs[i].disk = Some(t);
                    w.save(i);
                }
            },
            _ => c.notify(g.pick::<&str>(&["$/cancelRequest", "textDocument/didSave", "$/unheardOf"]), json!({"id": 1, "textDocument": {"uri": w.docs[i].uri}}))?,
        }
    }
    g.nontrivial(edits >= 2);

    // a server which is new to all of it
    let mut fresh = w.start()?;
    for i in 0..w.docs.len() {
        if w.docs[i].open.is_some() {
            w.open(&mut fresh, i)?;
        }
    }
    for i in 0..w.docs.len() {
        let Some(t) = w.now(i) else { continue };
        let state = if w.docs[i].open.is_some() { "open" } else { "closed" };
        let mut asks: Vec<(&str, Option<(u32, u32)>)> = WHOLE.iter().map(|m| (*m, None)).collect();
        for _ in 0..12 {
            asks.push((*g.pick(AT), Some(spot(g, t))));
        }
        for (m, at) in asks {
            let got = ask(&mut c, &w.docs[i].uri, m, at)?;
            let want = ask(&mut fresh, &w.docs[i].uri, m, at)?;
            g.label_if(want.get("result").is_some_and(|r| !r.is_null() && *r != json!([])), m);
            ensure!(got == want, format!("stale:{}", m).as_str(), "{} ({}) {} {:?}: answer {}\nwhile for a new server it is {}\nthe text: {:?}", w.docs[i].name, state, m, at, got, want, t);
        }
    }
    let some = (0..w.docs.len()).any(|i| w.now(i).is_some());
    for q in ["va", "pa", "proc/p", "#m", "/t"] {
        let p = json!({"query": q});
        let got = canon("workspace", c.request("workspace/symbol", p.clone())?);
        let want = canon("workspace", fresh.request("workspace/symbol", p)?);
        if !some {
            continue;
        }
        ensure_eq!(got, want, "stale:symbols", "workspace symbols for {}", q);
    }
    // (an answer to tell that all notifications before are in)
    for (i, d) in w.docs.iter().enumerate() {
        if w.now(i).is_none() {
            continue;
        }
        let key = &d.uri;
        let (mut got, mut want) = (c.diags.get(key).cloned().unwrap_or_default(), fresh.diags.get(key).cloned().unwrap_or_default());
        got.sort_by_key(|v| v.to_string());
        want.sort_by_key(|v| v.to_string());
        g.label_if(!want.is_empty(), "diagnostics");
        ensure!(got == want, "stale:diagnostics", "{}: published {}\nwhile by a new server {}", d.name, Value::from(got), Value::from(want));
    }
    c.quit()?;
    fresh.quit()
}

pub fn single(g: &G) -> R {
    history(g, false)
}
pub fn workspace(g: &G) -> R {
    history(g, true)
}
