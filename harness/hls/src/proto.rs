//! L04: a session is what the protocol says it is, whatever else is sent in between.
use crate::client::*;
use crate::sync::{canon, spot, text};
use engine::{ensure, ensure_eq, fail, Fail, G, R};
use serde_json::{json, Value};
use std::path::Path;

/// What is to be answered to one call.
#[derive(Clone, Debug)]
enum Want {
    /// the error, with one of these codes
    Code(Vec<i64>),
    /// some error
    Error,
    /// a result or an error
    Any,
    /// a result with this in it
    Capabilities,
    Null,
}

enum Answers {
    None,
    One(Value, Want),
    Array(Vec<(Value, Want)>),
}

struct Item {
    body: Vec<u8>,
    answers: Answers,
    /// compared to what a session without noise has; the method
    good: Option<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Starting,
    Running,
    Down,
}

const HERE: &[&str] = &["implementation", "hover", "definition", "typeDefinition", "completion", "signatureHelp", "documentSymbol", "foldingRange", "documentColor", "documentLink"];
const METHODS: &[&str] = &[
    "textDocument/hover",
    "textDocument/definition",
    "textDocument/typeDefinition",
    "textDocument/implementation",
    "textDocument/references",
    "textDocument/completion",
    "textDocument/signatureHelp",
    "textDocument/documentSymbol",
    "textDocument/foldingRange",
    "textDocument/documentColor",
    "textDocument/colorPresentation",
    "textDocument/documentLink",
    "workspace/symbol",
    "experimental/dreammaker/objectTree2",
];
const NOTIFICATIONS: &[&str] =
    &["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "workspace/didChangeConfiguration", "$/cancelRequest", "$/setTrace", "$/setTraceNotification", "textDocument/didSave", "nothing/known", "experimental/dreammaker/reparse"];

fn number(g: &G) -> u64 {
    match g.weighted(&[6, 1]) {
        0 => *g.pick(&[0, 0, 1, 1, 2, 3, 5, 9, 20]),
        _ => *g.pick(&[254, 255, 256, 65534, 65535, 65536, 65537, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]),
    }
}

fn place(g: &G) -> Value {
    json!({"line": number(g), "character": number(g)})
}

/// Other documents than the one which is asked about.
fn other(g: &G, s: &Session) -> String {
    match g.weighted(&[6, 2, 2, 1]) {
        0 => format!("{}/noise{}.dm", s.base, g.below(3)),
        1 => format!("untitled:noise{}", g.below(2)),
        2 => g.pick::<&str>(&["file:///", "file:///nowhere/to/be.dm", "http://example.org/x.dm", "dm://docs/reference.dm#/obj", "file:///%00.dm", "mailto:x", "file:///a%FF.dm"]).to_string(),
        _ => g.pick::<&str>(&["", "x.dm", "//", "::", "file:", "/x/y"]).to_string(),
    }
}

struct Session {
    base: String,
    uri: String,
    text: String,
}

fn junk(g: &G) -> Value {
    match g.below(9) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(4294967296u64),
        3 => json!(""),
        4 => json!([]),
        5 => json!({}),
        6 => json!(true),
        7 => json!(1.5),
        _ => json!([[[{"x": [1, 2]}]]]),
    }
}

fn break_one(g: &G, v: &mut Value) {
    match v {
        Value::Object(m) if !m.is_empty() => {
            let k = m.keys().nth(g.usize(m.len())).unwrap().clone();
            match g.below(4) {
                0 => {
                    m.remove(&k);
                },
                1 => {
                    m.insert(k, junk(g));
                },
                _ => break_one(g, m.get_mut(&k).unwrap()),
            }
        },
        Value::Array(a) if !a.is_empty() => {
            let i = g.usize(a.len());
            break_one(g, &mut a[i]);
        },
        v => *v = junk(g),
    }
}

fn params(g: &G, s: &Session, method: &str) -> Value {
    // questions may be about the document
    let asks = method.starts_with("textDocument/") && !method.starts_with("textDocument/did");
    let uri = if asks && g.chance(1, 2) { s.uri.clone() } else { other(g, s) };
    let mut v = match method {
        "textDocument/references" => json!({"textDocument": {"uri": uri}, "position": place(g), "context": {"includeDeclaration": g.bool()}}),
        "textDocument/colorPresentation" => {
            let c = || json!(*g.pick(&[0.0, 1.0, 0.5, -1.0, 300.0, 1e30]));
            json!({"textDocument": {"uri": uri}, "color": {"red": c(), "green": c(), "blue": c(), "alpha": c()}, "range": {"start": place(g), "end": place(g)}})
        },
        "workspace/symbol" => json!({"query": g.pick::<&str>(&["", "#", "/", "var/", "proc/", "v", "_", "//", "é", "va/", "verb/x"])}),
        "experimental/dreammaker/objectTree2" => json!({"path": g.pick::<&str>(&["", "/", "/obj", "obj", "//", "/obj/", "/nowhere", "/obj/ta", "é"])}),
        "textDocument/didOpen" => json!({"textDocument": {"uri": uri, "languageId": "dm", "version": number(g), "text": text(g, g.usize(3), g.bool())}}),
        "textDocument/didChange" => {
            let changes: Vec<Value> = (0..g.usize(3))
                .map(|_| if g.bool() { json!({"text": text(g, 1, false)}) } else { json!({"range": {"start": place(g), "end": place(g)}, "text": "x", "rangeLength": number(g)}) })
                .collect();
            json!({"textDocument": {"uri": uri, "version": number(g)}, "contentChanges": changes})
        },
        "textDocument/didClose" | "textDocument/didSave" => json!({"textDocument": {"uri": uri}}),
        "workspace/didChangeConfiguration" => json!({"settings": if g.bool() { json!({"dreammaker": {"extoolsDLL": "", "debugServerDll": "x"}}) } else { junk(g) }}),
        "$/cancelRequest" => json!({"id": g.below(20)}),
        "$/setTrace" | "$/setTraceNotification" => json!({"value": g.pick::<&str>(&["off", "messages", "verbose"])}),
        "experimental/dreammaker/reparse" => json!({}),
        _ => json!({"textDocument": {"uri": uri}, "position": place(g)}),
    };
    // (a document must not be changed by mistake: these can't come to name the one asked about)
    while g.chance(1, 4) {
        break_one(g, &mut v);
    }
    if !v.is_object() && !v.is_array() {
        v = json!({});
    }
    v
}

fn ident(g: &G, n: usize) -> Value {
    match g.weighted(&[6, 2, 1]) {
        0 => json!(n),
        1 => json!(format!("id {}", n)),
        _ => json!(format!("é😀\"{}", n)),
    }
}

fn call(g: &G, id: Option<&Value>, method: &str, params: Option<Value>) -> Value {
    let mut v = json!({"method": method});
    if !g.chance(1, 20) {
        v["jsonrpc"] = json!("2.0");
    }
    if let Some(id) = id {
        v["id"] = id.clone();
    }
    if let Some(p) = params {
        v["params"] = p;
    }
    v
}

/// The bytes of a message.
fn framed(g: &G, body: &[u8]) -> Vec<u8> {
    let mut h = vec![format!("{}: {}\r\n", g.pick::<&str>(&["Content-Length", "Content-Length", "Content-Length", "content-length"]), body.len())];
    if g.chance(1, 6) {
        let at = g.usize(2);
        h.insert(at, g.pick::<&str>(&["Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", "Content-Type: application/vscode-jsonrpc; charset=utf8\r\n"]).to_string());
        g.label("two headers");
    }
    let mut out = h.concat().into_bytes();
    out.extend(b"\r\n");
    out.extend(body);
    out
}

/// A request or notification which is none of the session's own.
fn noise_call(g: &G, s: &Session, state: State, n: usize) -> (Value, Option<(Value, Want)>) {
    if g.chance(2, 5) {
        let m = *g.pick(NOTIFICATIONS);
        let p = params(g, s, m);
        return (call(g, None, m, if g.chance(1, 15) { None } else { Some(p) }), None);
    }
    let id = ident(g, n);
    let (m, want) = match g.weighted(&[8, 2, if state == State::Starting { 0 } else { 1 }]) {
        0 => (*g.pick(METHODS), Want::Any),
        1 => (*g.pick(&["textDocument/rename", "x", "", "initialized", "$/unheardOf", "textDocument/didOpen", "exit"]), Want::Code(vec![-32601])),
        _ => ("initialize", Want::Error),
    };
    let p = if m == "initialize" { json!({"processId": null, "rootUri": if g.bool() { json!("file:///nowhere") } else { Value::Null }, "capabilities": {}}) } else { params(g, s, m) };
    let want = match state {
        State::Starting => Want::Code(vec![-32002]),
        State::Running => want,
        State::Down => Want::Error,
    };
    (call(g, Some(&id), m, if g.chance(1, 15) { None } else { Some(p) }), Some((id, want)))
}

fn noise(g: &G, s: &Session, state: State, n: &mut usize) -> Item {
    let mut next = || {
        *n += 1;
        *n
    };
    match g.weighted(&[10, 2, 2]) {
        0 => {
            let (v, want) = noise_call(g, s, state, next());
            let answers = match want {
                Some((id, w)) => Answers::One(id, w),
                None => Answers::None,
            };
            Item { body: v.to_string().into(), answers, good: None }
        },
        1 => {
            g.label("batch");
            let calls: Vec<_> = (0..1 + g.usize(3)).map(|_| noise_call(g, s, state, next())).collect();
            let body = Value::from(calls.iter().map(|c| c.0.clone()).collect::<Vec<_>>()).to_string().into();
            let wants: Vec<_> = calls.into_iter().filter_map(|c| c.1).collect();
            Item { body, answers: if wants.is_empty() { Answers::None } else { Answers::Array(wants) }, good: None }
        },
        _ => {
            g.label("malformed");
            let id = next();
            let (body, id, want): (String, Value, Want) = match g.below(6) {
                0 => {
                    let v = noise_call(g, s, state, id).0.to_string();
                    let mut at = 1 + g.usize(v.len() - 1);
                    while !v.is_char_boundary(at) {
                        at -= 1;
                    }
                    (v[..at].to_string(), Value::Null, Want::Code(vec![-32700]))
                },
                1 => (g.pick::<&str>(&["", "{", "nul", "[1,", "{\"id\": 1,}", "}{", "{'id': 1}", "é", "\u{feff}{}"]).to_string(), Value::Null, Want::Code(vec![-32700])),
                2 => (g.pick::<&str>(&["5", "\"x\"", "null", "true", "{}", "[]", "{\"jsonrpc\": \"2.0\"}"]).to_string(), Value::Null, Want::Code(vec![-32700, -32600])),
                3 => (json!({"jsonrpc": "2.0", "id": id}).to_string(), json!(id), Want::Code(vec![-32600])),
                4 => (json!({"jsonrpc": "1.0", "id": id, "method": "textDocument/hover"}).to_string(), json!(id), Want::Code(vec![-32600])),
                _ => (json!({"jsonrpc": "2.0", "id": id, "method": 5}).to_string(), json!(id), Want::Code(vec![-32600])),
            };
            Item { body: body.into(), answers: Answers::One(id, want), good: None }
        },
    }
}

/// Run a session; the answers to each item.
fn run(g: &G, dir: &Path, items: &[Item], framing: bool, exit: bool) -> Result<(Vec<Value>, Ended), Fail> {
    let mut c = Client::spawn(dir);
    let mut all = vec![];
    for i in items {
        if framing {
            all.extend(framed(g, &i.body));
        } else {
            all.extend(format!("Content-Length: {}\r\n\r\n", i.body.len()).into_bytes());
            all.extend(&i.body);
        }
    }
    if exit {
        let body = call(g, None, "exit", if g.bool() { None } else { Some(json!({})) }).to_string();
        all.extend(framed(g, body.as_bytes()));
    }
    // in pieces
    let mut at = 0;
    while at < all.len() {
        let to = if g.chance(1, 2) { all.len() } else { (at + 1 + g.usize(600)).min(all.len()) };
        c.bytes(&all[at..to])?;
        at = to;
    }
    let mut e = c.end()?;
    ensure!(!e.err.contains("panicked at"), "panic", "{}", &e.err[e.err.find("panicked at").unwrap().saturating_sub(200)..]);
    let answers: Vec<Value> = std::mem::take(&mut e.rest).into_iter().filter(|v| !v["method"].is_string()).collect();
    Ok((answers, e))
}

fn expect(got: &Value, id: &Value, want: &Want, body: &str) -> R {
    ensure!(got["id"] == *id, "id", "{}\nis answered with {}", body, got);
    ensure!(got.get("result").is_some() != got.get("error").is_some(), "answer", "{}\nis answered with {}", body, got);
    let code = got["error"]["code"].as_i64();
    let ok = match want {
        Want::Any => true,
        Want::Error => code.is_some(),
        Want::Code(c) => code.is_some_and(|x| c.contains(&x)),
        Want::Capabilities => got["result"]["capabilities"].is_object(),
        Want::Null => got.get("result") == Some(&Value::Null),
    };
    ensure!(ok, "wrong-answer", "{}\nis answered with {}\nwhere {:?} was due", body, got, want);
    if code.is_some() {
        ensure!(got["error"]["message"].is_string(), "message", "{}", got);
    }
    Ok(())
}

pub fn session(g: &G) -> R {
    let dir = g.scratch();
    let workspace = g.chance(1, 2);
    let src = text(g, 1 + g.usize(5), g.chance(1, 6));
    let base = uri(&dir);
    let s = Session { uri: format!("{}/main.dm", base), base, text: src };
    if workspace {
        std::fs::write(dir.join("game.dme"), "#include \"main.dm\"\n#include \"more.dm\"\n").unwrap();
        std::fs::write(dir.join("main.dm"), &s.text).unwrap();
        std::fs::write(dir.join("more.dm"), text(g, 3, false)).unwrap();
    }
    g.note(&format!("workspace {} text {:?}", workspace, s.text));
    let mut items = vec![];
    let mut n = 0;
    let mut state = State::Starting;
    let noisy = |g: &G, items: &mut Vec<Item>, state: State, n: &mut usize, most: usize| {
        for _ in 0..g.usize(most + 1) {
            let i = noise(g, &s, state, n);
            g.note(&format!("{:?}: {}", state, String::from_utf8_lossy(&i.body)));
            items.push(i);
        }
    };
    noisy(g, &mut items, state, &mut n, 3);
    let initialized = g.chance(9, 10);
    if initialized {
        n += 1;
        let id = ident(g, n);
        let root = if workspace { json!(s.base) } else { Value::Null };
        items.push(Item { body: call(g, Some(&id), "initialize", Some(json!({"processId": null, "rootUri": root, "capabilities": {}}))).to_string().into(), answers: Answers::One(id, Want::Capabilities), good: None });
        state = State::Running;
        noisy(g, &mut items, state, &mut n, 1);
        items.push(Item { body: call(g, None, "initialized", Some(json!({}))).to_string().into(), answers: Answers::None, good: Some("") });
        noisy(g, &mut items, state, &mut n, 2);
        items.push(Item {
            body: call(g, None, "textDocument/didOpen", Some(json!({"textDocument": {"uri": s.uri, "languageId": "dm", "version": 1, "text": s.text}}))).to_string().into(),
            answers: Answers::None,
            good: Some(""),
        });
        for _ in 0..g.len(2, 12) {
            noisy(g, &mut items, state, &mut n, 3);
            n += 1;
            // (answers after the table of uses is done are other than before)
            let m = if workspace { *g.pick(&HERE[1..]) } else { *g.pick(HERE) };
            let mut p = json!({"textDocument": {"uri": s.uri}});
            if !["documentSymbol", "foldingRange", "documentColor", "documentLink"].contains(&m) {
                p["position"] = pos(spot(g, &s.text));
            }
            let id = json!(n);
            items.push(Item { body: call(g, Some(&id), &format!("textDocument/{}", m), Some(p)).to_string().into(), answers: Answers::One(id, Want::Any), good: Some(m) });
        }
    }
    let down = initialized && g.chance(1, 2);
    if down {
        n += 1;
        let id = ident(g, n);
        items.push(Item { body: call(g, Some(&id), "shutdown", if g.bool() { None } else { Some(Value::Null) }).to_string().into(), answers: Answers::One(id, Want::Null), good: None });
        state = State::Down;
        noisy(g, &mut items, state, &mut n, 3);
    }
    let exit = g.chance(3, 4);
    let goods = items.iter().filter(|i| i.good.is_some_and(|m| !m.is_empty())).count();
    g.nontrivial(goods >= 2 && items.len() >= goods + 6);

    let (got, e) = run(g, &dir, &items, true, exit)?;
    let code = if !exit || down { 0 } else { 1 };
    ensure_eq!(e.code, Some(code), "exit-code", "shutdown {} exit {}\n{}", down, exit, e.err.chars().take(1500).collect::<String>());
    let mut got = got.into_iter();
    let mut mine = vec![];
    for i in &items {
        let body = String::from_utf8_lossy(&i.body);
        match &i.answers {
            Answers::None => {},
            Answers::One(id, want) => {
                let Some(v) = got.next() else { return fail("unanswered", format!("{}\nis not answered", body)) };
                expect(&v, id, want, &body)?;
                if let Some(m) = i.good {
                    mine.push((m, body.to_string(), canon(m, v)));
                }
            },
            Answers::Array(wants) => {
                let Some(v) = got.next() else { return fail("unanswered", format!("{}\nis not answered", body)) };
                let a = v.as_array().cloned().unwrap_or_default();
                ensure!(a.len() == wants.len(), "batch", "{}\nis answered with {}", body, v);
                for (v, (id, want)) in a.iter().zip(wants) {
                    expect(v, id, want, &body)?;
                }
            },
        }
    }
    if let Some(v) = got.next() {
        return fail("extra", format!("an answer to nothing: {}", v));
    }

    // the same without the noise
    if goods > 0 {
        let quiet: Vec<Item> = items.into_iter().filter(|i| i.good.is_some() || matches!(i.answers, Answers::One(_, Want::Capabilities))).collect();
        let (got, _) = run(g, &dir, &quiet, false, false)?;
        ensure_eq!(got.len(), mine.len() + 1, "quiet-answers", "{:?}", got);
        for ((m, body, with), v) in mine.into_iter().zip(got.into_iter().skip(1)) {
            let v = canon(m, v);
            g.label_if(v.get("result").is_some_and(|r| !r.is_null() && *r != json!([])), m);
            ensure!(with == v, "noise", "{}\nis answered with {}\nwhile without the other messages it is {}", body, with, v);
        }
    }
    Ok(())
}
