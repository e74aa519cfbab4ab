//! The Node addon in a process of its own.

use crate::ctx::Ctx;
use crate::lsp::{violation, Fail, Res, RECORD};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub struct Node {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    dead: bool,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Node {
    pub fn start(ctx: &Ctx) -> Res<Node> {
        let mut child = Command::new("node")
            .args(["-e", include_str!("driver.js")])
            .env("ADDON", &ctx.addon)
            .env("RUST_BACKTRACE", "0")
            .current_dir(&ctx.dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Fail::Infra(format!("node: {e}")))?;
        let (tx, rx) = channel();
        let stdout = child.stdout.take().unwrap();
        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                let Ok(line) = line else { break };
                if tx.send(line).is_err() {
                    break;
                }
            }
        });
        let stdin = child.stdin.take().unwrap();
        Ok(Node {
            child,
            stdin,
            rx,
            dead: false,
        })
    }

    pub fn alive(&self) -> bool {
        !self.dead
    }

    /// Answers of calls like `["hover", 1, "file", 0, {..}]`
    pub fn calls(&mut self, calls: &[Value]) -> Res<Vec<Value>> {
        let mut text = String::new();
        for c in calls {
            RECORD.with(|r| {
                if let Some(r) = r.borrow_mut().as_mut() {
                    r.push(json!({ "node": c }));
                }
            });
            text += &c.to_string();
            text.push('\n');
        }
        let _ = self.stdin.write_all(text.as_bytes());
        let mut answers = vec![];
        for c in calls {
            match self.rx.recv_timeout(Duration::from_secs(60)) {
                Ok(line) => {
                    let v: Value = serde_json::from_str(&line).map_err(|e| Fail::Infra(format!("{e}: {line}")))?;
                    if let Some(e) = v.get("thrown") {
                        self.dead = true;
                        return violation(format!("{c} threw {e}"));
                    }
                    answers.push(v["ok"].clone());
                }
                Err(RecvTimeoutError::Timeout) => {
                    self.dead = true;
                    return Err(Fail::Infra(format!("no answer of {c}")));
                }
                Err(RecvTimeoutError::Disconnected) => {
                    self.dead = true;
                    let mut err = String::new();
                    if let Some(e) = self.child.stderr.as_mut() {
                        let _ = e.read_to_string(&mut err);
                    }
                    let err: String = err.chars().take(600).collect();
                    if err.contains("Cannot find module") || err.contains("dlopen") || err.contains("cannot open shared") {
                        return Err(Fail::Infra(format!("the addon could not be loaded: {err}")));
                    }
                    return violation(format!("{c} ended the process: {err}"));
                }
            }
        }
        Ok(answers)
    }

    pub fn call(&mut self, call: Value) -> Res<Value> {
        Ok(self.calls(&[call])?.remove(0))
    }
}
