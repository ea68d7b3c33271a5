//! A language server, run on a folder of its own.
use serde_json::{Value, json};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::*;

pub struct Server {
    child: Child,
    out: BufReader<ChildStdout>,
    id: u64,
    pub dir: std::path::PathBuf,
}

impl Server {
    /// Starts in the folder, which holds these files, with the one named *.dme as its environment.
    pub fn start(files: &[(&str, &str)]) -> Server {
        let dir = std::env::current_dir().unwrap().join("project");
        std::fs::create_dir_all(&dir).unwrap();
        for (name, text) in files {
            std::fs::write(dir.join(name), text).unwrap();
        }
        let exe = std::env::current_exe().unwrap().with_file_name("langserver");
        let mut child = Command::new(exe).current_dir(&dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Server { child, out, id: 0, dir };
        let root = s.uri("");
        s.ask("initialize", json!({"processId": null, "rootUri": root, "capabilities": {}}));
        s.tell("initialized", json!({}));
        s
    }
    pub fn uri(&self, name: &str) -> String {
        format!("file://{}/{}", self.dir.display(), name)
    }
    pub fn open(&mut self, name: &str, text: &str) {
        let uri = self.uri(name);
        self.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "dm", "version": 1, "text": text}}));
    }
    pub fn tell(&mut self, method: &str, params: Value) {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
    fn send(&mut self, v: Value) {
        let text = v.to_string();
        let input = self.child.stdin.as_mut().unwrap();
        write!(input, "Content-Length: {}\r\n\r\n{}", text.len(), text).unwrap();
        input.flush().unwrap();
    }
    pub fn ask(&mut self, method: &str, params: Value) -> Value {
        self.id += 1;
        let id = self.id;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        loop {
            let v = self.receive();
            if v["id"] == json!(id) && v.get("method").is_none() {
                return if v.get("error").is_some() { v["error"].clone() } else { v["result"].clone() };
            }
        }
    }
    /// The next diagnostics published for a file which has any.
    pub fn published(&mut self, uri: &str) -> Value {
        loop {
            let v = self.receive();
            println!("{v}");
            let p = &v["params"];
            if v["method"] == json!("textDocument/publishDiagnostics") && p["uri"] == json!(uri) && p["diagnostics"] != json!([]) {
                return p["diagnostics"].clone();
            }
        }
    }
    fn receive(&mut self) -> Value {
        let mut n = 0;
        loop {
            let mut line = String::new();
            assert!(self.out.read_line(&mut line).unwrap() > 0, "the server ended");
            if line.trim().is_empty() {
                break;
            }
            if let Some(x) = line.strip_prefix("Content-Length: ") {
                n = x.trim().parse().unwrap();
            }
        }
        let mut b = vec![0; n];
        self.out.read_exact(&mut b).unwrap();
        serde_json::from_slice(&b).unwrap()
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
