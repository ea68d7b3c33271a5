//! A language client: one server process, driven over its standard streams.
use engine::{fail, Fail};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub struct Client {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Result<Value, String>>,
    err: std::thread::JoinHandle<String>,
    next: i64,
    /// the diagnostics last published for each document
    pub diags: BTreeMap<String, Vec<Value>>,
    /// the parameters of `$window/status`
    pub statuses: Vec<Value>,
    pub shown: Vec<String>,
    /// every notification's method
    pub other: Vec<Value>,
}

/// How a server process ended.
pub struct Ended {
    pub code: Option<i32>,
    pub err: String,
    pub rest: Vec<Value>,
}

const PATIENCE: Duration = Duration::from_secs(30);

fn frame(r: &mut impl BufRead) -> Result<Option<Value>, String> {
    let mut size = None;
    let mut first = true;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).map_err(|e| e.to_string())? == 0 {
            return if first { Ok(None) } else { Err("the output ends in a header".into()) };
        }
        first = false;
        let Some(l) = line.strip_suffix("\r\n") else { return Err(format!("header line {:?}", line)) };
        if l.is_empty() {
            break;
        }
        if let Some(n) = l.strip_prefix("Content-Length: ") {
            size = n.parse::<usize>().ok();
        }
    }
    let mut buf = vec![0; size.ok_or("no length")?];
    r.read_exact(&mut buf).map_err(|e| e.to_string())?;
    let text = String::from_utf8(buf).map_err(|e| e.to_string())?;
    serde_json::from_str(&text).map(Some).map_err(|e| format!("{}: {}", e, text))
}

pub fn exe() -> PathBuf {
    PathBuf::from(std::env::var("PBT_BIN_DIR").expect("PBT_BIN_DIR")).join("langserver")
}

impl Client {
    pub fn spawn(cwd: &Path) -> Client {
        let mut child = Command::new(exe()).current_dir(cwd).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("langserver");
        let stdin = child.stdin.take();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let mut err = child.stderr.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            match frame(&mut out) {
                Ok(Some(v)) => {
                    if tx.send(Ok(v)).is_err() {
                        return;
                    }
                },
                Ok(None) => return,
                Err(e) => {
                    let _ = tx.send(Err(e));
                    return;
                },
            }
        });
        let err = std::thread::spawn(move || {
            let mut buf = vec![];
            let _ = err.read_to_end(&mut buf);
            String::from_utf8_lossy(&buf).into_owned()
        });
        Client { child, stdin, rx, err, next: 0, diags: BTreeMap::new(), statuses: vec![], shown: vec![], other: vec![] }
    }

    /// A server which has been initialized; with a workspace once its environment is read.
    pub fn start(cwd: &Path, root: Option<&str>, caps: Value) -> Result<Client, Fail> {
        let mut c = Client::spawn(cwd);
        let r = c.request("initialize", json!({"processId": null, "rootUri": root, "capabilities": caps}))?;
        if !r["result"]["capabilities"].is_object() {
            return fail("initialize", r.to_string());
        }
        c.notify("initialized", json!({}))?;
        Ok(c)
    }

    pub fn raw(&mut self, text: &str) -> Result<(), Fail> {
        self.bytes(format!("Content-Length: {}\r\n\r\n{}", text.len(), text).as_bytes())
    }

    pub fn bytes(&mut self, b: &[u8]) -> Result<(), Fail> {
        let s = self.stdin.as_mut().unwrap();
        if s.write_all(b).and_then(|_| s.flush()).is_err() {
            return self.died("while it was being written to");
        }
        Ok(())
    }

    pub fn send(&mut self, v: &Value) -> Result<(), Fail> {
        self.raw(&v.to_string())
    }

    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), Fail> {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }

    fn died<T>(&mut self, when: &str) -> Result<T, Fail> {
        drop(self.stdin.take());
        let status = self.child.wait();
        let err = std::mem::replace(&mut self.err, std::thread::spawn(String::new)).join().unwrap_or_default();
        let at = err.find("panicked at").map_or(0, |i| err[..i].rfind('\n').map_or(0, |j| j + 1));
        let tail: String = err[at..].chars().take(1500).collect();
        fail("server-ended", format!("the server ended {} ({:?})\n{}", when, status.ok().and_then(|s| s.code()), tail))
    }

    /// The next message of the server.
    pub fn next_message(&mut self, patience: Duration) -> Result<Option<Value>, Fail> {
        match self.rx.recv_timeout(patience) {
            Ok(Ok(v)) => Ok(Some(v)),
            Ok(Err(e)) => fail("output", format!("the server's output is no sequence of messages: {}", e)),
            Err(RecvTimeoutError::Timeout) => Ok(None),
            Err(RecvTimeoutError::Disconnected) => self.died("instead of answering"),
        }
    }

    /// Account for a notification.
    pub fn note(&mut self, v: Value) -> Result<(), Fail> {
        match v["method"].as_str() {
            Some("textDocument/publishDiagnostics") => {
                let list = v["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                self.diags.insert(v["params"]["uri"].as_str().unwrap_or("").to_string(), list);
            },
            Some("$window/status") => self.statuses.push(v["params"].clone()),
            Some("window/showMessage") => self.shown.push(v["params"]["message"].as_str().unwrap_or("").to_string()),
            Some(_) => self.other.push(v),
            None => return fail("stray", format!("unexpected message {}", v)),
        }
        Ok(())
    }

    /// Send a request and wait for its answer.
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        self.next += 1;
        let id = self.next;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        let end = Instant::now() + PATIENCE;
        loop {
            match self.next_message(end.saturating_duration_since(Instant::now()))? {
                None => return fail("no-answer", format!("no answer to {} {}", method, params)),
                Some(v) if v["method"].is_string() => self.note(v)?,
                Some(v) if v["id"] == json!(id) => return Ok(v),
                Some(v) => return fail("stray", format!("{} was answered with {}", method, v)),
            }
        }
    }

    /// The result of a request which is to succeed.
    pub fn ask(&mut self, method: &str, params: Value) -> Result<Value, Fail> {
        let r = self.request(method, params.clone())?;
        match r.get("result") {
            Some(v) => Ok(v.clone()),
            None => fail("error-answer", format!("{} {} is answered with {}", method, params, r["error"])),
        }
    }

    /// Wait until the environment has been read (and checked).
    pub fn settle(&mut self) -> Result<(), Fail> {
        let end = Instant::now() + PATIENCE;
        loop {
            if let Some(s) = self.statuses.last() {
                if s["environment"].is_null() && s["tasks"].as_array().is_none_or(|t| t.iter().all(|t| t != "loading" && t != "checking")) {
                    self.statuses.clear();
                    return Ok(());
                }
            }
            match self.next_message(end.saturating_duration_since(Instant::now()))? {
                None => return fail("no-answer", "the environment is never done being read"),
                Some(v) => self.note(v)?,
            }
        }
    }

    /// Close the input; the server is to end.
    pub fn end(mut self) -> Result<Ended, Fail> {
        drop(self.stdin.take());
        let mut rest = vec![];
        let end = Instant::now() + PATIENCE;
        loop {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(Ok(v)) => rest.push(v),
                Ok(Err(e)) => return fail("output", format!("the server's output is no sequence of messages: {}", e)),
                Err(RecvTimeoutError::Timeout) => return fail("no-end", "the server does not end when its input does"),
                Err(RecvTimeoutError::Disconnected) => break,
            }
        }
        let code = self.child.wait().ok().and_then(|s| s.code());
        let err = std::mem::replace(&mut self.err, std::thread::spawn(String::new)).join().unwrap_or_default();
        Ok(Ended { code, err, rest })
    }

    /// `shutdown` and `exit`.
    pub fn quit(mut self) -> Result<(), Fail> {
        let r = self.request("shutdown", Value::Null)?;
        if r.get("error").is_some() {
            return fail("shutdown", r.to_string());
        }
        self.notify("exit", Value::Null)?;
        let e = self.end()?;
        if e.code != Some(0) {
            return fail("exit-code", format!("after shutdown and exit the server ended with {:?}\n{}", e.code, e.err));
        }
        Ok(())
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The position of a byte offset: line, UTF-16 units.
pub fn position(text: &str, offset: usize) -> (u32, u32) {
    let before = &text[..offset];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, text[start..offset].encode_utf16().count() as u32)
}

pub fn pos(p: (u32, u32)) -> Value {
    json!({"line": p.0, "character": p.1})
}

pub fn uri(path: &Path) -> String {
    let mut s = String::from("file://");
    for b in path.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}
