//! Client for the real server over stdio.

use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property doesn't hold
    Violation(String),
    /// The check can't decide (e.g. a time limit)
    Infra(String),
}

pub type Res<T> = Result<T, Fail>;

pub fn violation<T>(msg: impl Into<String>) -> Res<T> {
    Err(Fail::Violation(msg.into()))
}

enum Incoming {
    Msg(Value),
    Eof,
}

thread_local! {
    /// Messages to servers, for the replay file
    pub static RECORD: std::cell::RefCell<Option<Vec<Value>>> = const { std::cell::RefCell::new(None) };
}

pub struct Server {
    child: Child,
    out: Sender<Vec<u8>>,
    rx: Receiver<Incoming>,
    next_id: i64,
    responses: HashMap<i64, Value>,
    /// every publishDiagnostics, in order
    pub published: Vec<(String, Value)>,
    last: HashMap<String, usize>,
    pub logs: Vec<String>,
    stderr: PathBuf,
    eof: bool,
    pub capabilities: Value,
    /// requests with more than one response
    pub duplicates: Vec<i64>,
    answered: std::collections::HashSet<i64>,
    sentinels: usize,
    sentinel_seen: usize,
    /// of the documents
    versions: HashMap<String, i64>,
    opens: usize,
    /// what clients wouldn't send to this server
    unannounced: Option<String>,
}

/// Where the server announces that it answers a request
const PROVIDERS: [(&str, &str); 6] = [
    ("textDocument/completion", "completionProvider"),
    ("textDocument/definition", "definitionProvider"),
    ("textDocument/hover", "hoverProvider"),
    ("textDocument/documentSymbol", "documentSymbolProvider"),
    ("textDocument/codeAction", "codeActionProvider"),
    ("workspace/executeCommand", "executeCommandProvider"),
];

/// Capabilities of usual clients
fn capabilities(client: &str) -> Value {
    let encodings = if client == "Visual Studio Code" { json!(["utf-16"]) } else { json!(["utf-8", "utf-16", "utf-32"]) };
    json!({
        "general": {"positionEncodings": encodings},
        "textDocument": {
            "synchronization": {"didSave": true, "willSave": true},
            "completion": {
                "contextSupport": true,
                "completionItem": {
                    "snippetSupport": true,
                    "insertReplaceSupport": true,
                    "documentationFormat": ["markdown", "plaintext"]
                }
            },
            "hover": {"contentFormat": ["markdown", "plaintext"]},
            "definition": {},
            "codeAction": {"codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "quickfix", "refactor"]}}},
            "publishDiagnostics": {"versionSupport": true}
        },
        "workspace": {
            "applyEdit": true,
            "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create", "rename", "delete"]}
        }
    })
}

pub const SENTINEL: &str = "file:///sentinel-of-the-harness/";

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.stderr);
    }
}

pub struct StartOptions<'a> {
    pub bin: &'a Path,
    pub cwd: &'a Path,
    pub stderr: PathBuf,
    pub init: Option<Value>,
    pub client: &'a str,
}

impl Server {
    pub fn start(o: StartOptions) -> Res<Server> {
        let err = std::fs::File::create(&o.stderr).map_err(|e| Fail::Infra(format!("stderr: {e}")))?;
        let mut child = Command::new(o.bin)
            .current_dir(o.cwd)
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .spawn()
            .map_err(|e| Fail::Infra(format!("spawn {:?}: {e}", o.bin)))?;
        let mut stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (out, out_rx) = channel::<Vec<u8>>();
        std::thread::spawn(move || {
            while let Ok(b) = out_rx.recv() {
                if stdin.write_all(&b).is_err() || stdin.flush().is_err() {
                    break;
                }
            }
        });
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            loop {
                let mut len = None;
                loop {
                    let mut line = String::new();
                    match r.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            let _ = tx.send(Incoming::Eof);
                            return;
                        }
                        Ok(_) => {}
                    }
                    let line = line.trim().to_ascii_lowercase();
                    if line.is_empty() {
                        break;
                    }
                    if let Some(n) = line.strip_prefix("content-length:") {
                        len = n.trim().parse::<usize>().ok();
                    }
                }
                let mut buf = vec![0; len.unwrap_or(0)];
                if r.read_exact(&mut buf).is_err() {
                    let _ = tx.send(Incoming::Eof);
                    return;
                }
                if let Ok(v) = serde_json::from_slice(&buf) {
                    if tx.send(Incoming::Msg(v)).is_err() {
                        return;
                    }
                }
            }
        });
        let mut s = Server {
            child,
            out,
            rx,
            next_id: 0,
            responses: HashMap::new(),
            published: vec![],
            last: HashMap::new(),
            logs: vec![],
            stderr: o.stderr,
            eof: false,
            capabilities: Value::Null,
            duplicates: vec![],
            answered: Default::default(),
            sentinels: 0,
            sentinel_seen: 0,
            versions: HashMap::new(),
            opens: 0,
            unannounced: None,
        };
        let mut params = json!({"processId": std::process::id(), "rootUri": null,
            "capabilities": capabilities(o.client), "clientInfo": {"name": o.client}});
        if let Some(i) = o.init {
            params["initializationOptions"] = i;
        }
        let r = s.request("initialize", params)?;
        s.capabilities = r["capabilities"].clone();
        s.notify("initialized", json!({}));
        Ok(s)
    }

    fn send(&mut self, v: &Value) {
        RECORD.with(|r| {
            if let Some(r) = r.borrow_mut().as_mut() {
                r.push(v.clone());
            }
        });
        let body = serde_json::to_vec(v).unwrap();
        let mut b = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
        b.extend(body);
        let _ = self.out.send(b);
    }

    pub fn notify(&mut self, method: &str, mut params: Value) {
        let sync = &self.capabilities["textDocumentSync"];
        let announced = match method {
            "textDocument/didOpen" | "textDocument/didClose" => sync["openClose"] == true || sync.is_number(),
            // every change can be sent without ranges, but not the other way around
            "textDocument/didChange" => sync["change"] == 2 || sync == 2,
            "textDocument/didSave" => sync["save"] == true || sync["save"].is_object() || sync.is_number(),
            _ => true,
        };
        if !announced {
            self.unannounced = Some(method.to_string());
        }
        let doc = &mut params["textDocument"];
        if let Some(uri) = doc["uri"].as_str().map(String::from) {
            match method {
                "textDocument/didOpen" => {
                    self.opens += 1;
                    let version = [0, 1, 1, 7, 100_000][self.opens % 5];
                    doc["version"] = version.into();
                    let own = match uri.rsplit('.').next() {
                        Some("py") => "python",
                        Some("rs") => "rust",
                        _ => ["jinja-html", "html", "jinja"][self.opens % 3],
                    };
                    doc["languageId"] = own.into();
                    self.versions.insert(uri, version);
                }
                "textDocument/didChange" => {
                    let version = self.versions.entry(uri).or_default();
                    // they increase, but not always by one
                    *version += if *version % 4 == 2 { 3 } else { 1 };
                    doc["version"] = (*version).into();
                }
                _ => {}
            }
        }
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }

    pub fn send_request(&mut self, method: &str, params: Value) -> i64 {
        if let Some((_, provider)) = PROVIDERS.iter().find(|p| p.0 == method) {
            let p = &self.capabilities[*provider];
            let known = params["command"].is_null()
                || p["commands"].as_array().is_some_and(|c| c.contains(&params["command"]))
                || params["command"].as_str().is_some_and(|c| !matches!(c, "reset_variables" | "warn"));
            if p.is_null() || *p == false || !known {
                self.unannounced = Some(format!("{method} ({provider}: {p})"));
            }
        }
        self.next_id += 1;
        let id = self.next_id;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        id
    }

    fn take(&mut self, m: Value) {
        if let Some(method) = m["method"].as_str() {
            match method {
                "textDocument/publishDiagnostics" => {
                    let uri = m["params"]["uri"].as_str().unwrap_or("").to_string();
                    if let Some(n) = uri.strip_prefix(SENTINEL) {
                        let n = n.strip_suffix(".html").and_then(|n| n.parse().ok()).unwrap_or(0);
                        self.sentinel_seen = self.sentinel_seen.max(n);
                        return;
                    }
                    self.last.insert(uri.clone(), self.published.len());
                    self.published.push((uri, m["params"]["diagnostics"].clone()));
                }
                "window/logMessage" => {
                    let text = m["params"]["message"].as_str().unwrap_or("").to_string();
                    self.logs.push(text);
                }
                _ => {
                    // requests of the server
                    if !m["id"].is_null() {
                        let answer = json!({"jsonrpc": "2.0", "id": m["id"], "result": null});
                        self.send(&answer);
                    }
                }
            }
        } else if let Some(id) = m["id"].as_i64() {
            if !self.answered.insert(id) {
                self.duplicates.push(id);
            }
            self.responses.insert(id, m);
        }
    }

    pub fn panics(&self) -> Option<String> {
        self.panic_message()
    }

    fn panic_message(&self) -> Option<String> {
        let text = std::fs::read_to_string(&self.stderr).unwrap_or_default();
        let at = text.find("panicked at")?;
        let msg: String = text[at..].chars().take(300).collect();
        Some(msg)
    }

    fn cpu_time(&self) -> Option<u64> {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).ok()?;
        let rest = stat.rsplit(')').next()?;
        let f: Vec<&str> = rest.split_whitespace().collect();
        Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
    }

    /// Changes while the server does something
    pub fn activity(&self) -> (Option<u64>, usize) {
        (self.cpu_time(), self.published.len())
    }

    /// Handles messages until `done`. A server that is idle (no CPU time, nothing to
    /// read) for a long time after it got everything is stuck.
    pub fn wait(&mut self, what: &str, mut done: impl FnMut(&mut Server) -> bool) -> Res<()> {
        let started = Instant::now();
        let mut idle_since = Instant::now();
        let mut cpu = self.cpu_time();
        let cpu_before = cpu.unwrap_or(0);
        if let Some(m) = &self.unannounced {
            return violation(format!("the server doesn't announce that it handles {m}: {}", self.capabilities));
        }
        loop {
            if done(self) {
                return Ok(());
            }
            if self.eof {
                let status = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                let panic = self.panic_message().unwrap_or_default();
                return violation(format!("the server ended ({status}) while waiting for {what}; {panic}"));
            }
            match self.rx.recv_timeout(Duration::from_millis(250)) {
                Ok(Incoming::Msg(m)) => {
                    idle_since = Instant::now();
                    self.take(m);
                }
                Ok(Incoming::Eof) | Err(RecvTimeoutError::Disconnected) => self.eof = true,
                Err(RecvTimeoutError::Timeout) => {
                    let now = self.cpu_time();
                    if now != cpu {
                        cpu = now;
                        idle_since = Instant::now();
                    }
                    let idle = idle_since.elapsed();
                    if idle > Duration::from_secs(1) {
                        if let Some(p) = self.panic_message() {
                            return violation(format!("no answer: {what}; the server panicked: {p}"));
                        }
                    }
                    if idle > Duration::from_secs(20) {
                        return violation(format!(
                            "no answer: {what}; the server is idle since {} s and never answers",
                            idle.as_secs()
                        ));
                    }
                    // ticks of 10 ms
                    let busy = cpu.unwrap_or(0).saturating_sub(cpu_before) / 100;
                    if busy > 40 {
                        return violation(format!("no answer: {what}; the server is busy for {busy} s of CPU time"));
                    }
                    if started.elapsed() > Duration::from_secs(240) {
                        return Err(Fail::Infra(format!("time limit while waiting for {what}")));
                    }
                }
            }
        }
    }

    /// Full response message
    pub fn response(&mut self, id: i64, what: &str) -> Res<Value> {
        self.wait(what, |s| s.responses.contains_key(&id))?;
        Ok(self.responses.remove(&id).unwrap())
    }

    pub fn request(&mut self, method: &str, params: Value) -> Res<Value> {
        let id = self.send_request(method, params);
        let r = self.response(id, method)?;
        Ok(r.get("result").cloned().unwrap_or(Value::Null))
    }

    pub fn open(&mut self, uri: &str, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "jinja", "version": 0, "text": text}}),
        );
    }

    /// Replaces the whole text
    pub fn change_all(&mut self, uri: &str, text: &str) {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": 1}, "contentChanges": [{"text": text}]}),
        );
    }

    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }

    pub fn save(&mut self, uri: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
    }

    /// Waits until everything that was sent is handled and its diagnostics are published.
    pub fn barrier(&mut self) -> Res<()> {
        // another one each time: open documents are published with the index, too
        self.sentinels += 1;
        let n = self.sentinels;
        let uri = format!("{SENTINEL}{n}.html");
        self.open(&uri, "");
        self.close(&uri);
        self.wait("diagnostics of the sentinel document", |s| s.sentinel_seen >= n)
    }

    /// Waits until the initial index is published.
    pub fn ready(&mut self) -> Res<()> {
        self.barrier()
    }

    pub fn diagnostics(&self, uri: &str) -> Option<&Value> {
        self.last.get(uri).map(|i| &self.published[*i].1)
    }

    pub fn drain(&mut self, time: Duration) {
        let end = Instant::now() + time;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return;
            }
            match self.rx.recv_timeout(left) {
                Ok(Incoming::Msg(m)) => self.take(m),
                Ok(Incoming::Eof) => {
                    self.eof = true;
                    return;
                }
                Err(_) => return,
            }
        }
    }

    /// Sends a request for a position without waiting
    pub fn ask(&mut self, method: &str, uri: &str, p: crate::text::Pos) -> i64 {
        let mut params = json!({"textDocument": {"uri": uri},
            "position": {"line": p.line, "character": p.ch}});
        if method == "completion" {
            // clients don't have to send it
            match self.next_id % 8 {
                0 | 1 => {}
                n @ 2..=4 => {
                    let c = ["{", " ", "\""][n as usize - 2];
                    let triggers = &self.capabilities["completionProvider"]["triggerCharacters"];
                    if triggers.as_array().is_some_and(|t| t.iter().any(|t| t == c)) {
                        params["context"] = json!({"triggerKind": 2, "triggerCharacter": c});
                    }
                }
                _ => params["context"] = json!({"triggerKind": 1}),
            }
        }
        self.send_request(&format!("textDocument/{method}"), params)
    }

    /// Result of a request
    pub fn answer(&mut self, id: i64) -> Res<Value> {
        let r = self.response(id, "a request")?;
        Ok(r.get("result").cloned().unwrap_or(Value::Null))
    }

    pub fn at(&mut self, method: &str, uri: &str, p: crate::text::Pos) -> Res<Value> {
        let id = self.ask(method, uri, p);
        self.answer(id)
    }

    pub fn symbols(&mut self, uri: &str) -> Res<Value> {
        self.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri}}))
    }

    pub fn code_actions(&mut self, uri: &str, p: crate::text::Pos) -> Res<Value> {
        let q = json!({"line": p.line, "character": p.ch});
        self.request(
            "textDocument/codeAction",
            json!({"textDocument": {"uri": uri}, "range": {"start": q, "end": q},
                "context": {"diagnostics": []}}),
        )
    }
}
