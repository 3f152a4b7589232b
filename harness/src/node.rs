//! A JavaScript parser and engine in a child process of each worker thread.
use crate::json::{self, J};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Node {
    fn start() -> Node {
        let script = std::env::var_os("ORACLE_JS").map(Into::into).unwrap_or_else(|| crate::home().join("node/oracle.js"));
        let mut child = Command::new("node")
            .arg("--max-old-space-size=512")
            .arg("--experimental-vm-modules")
            .arg("--no-warnings")
            .arg("--stack-size=4000")
            .arg(script)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("HARNESS: node does not start");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut node = Node { child, to, from };
        // an engine that cannot even do this is not there
        if node.ask(r#"{"op":"accepts","text":"a"}"#).is_none() {
            panic!("HARNESS: node does not answer");
        }
        node
    }
    fn ask(&mut self, q: &str) -> Option<String> {
        self.to.write_all(q.as_bytes()).ok()?;
        self.to.write_all(b"\n").ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        match self.from.read_line(&mut line) {
            Ok(n) if n > 0 => Some(line),
            _ => None,
        }
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

/// One question; None when the engine died of it.
pub fn ask(q: &serde_json::Value) -> Option<J> {
    let q = serde_json::to_string(q).unwrap();
    let line = NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(Node::start);
        let a = node.ask(&q);
        if a.is_none() {
            *n = None;
        }
        a
    })?;
    let j = json::parse(line.trim_end()).unwrap_or_else(|e| panic!("HARNESS: answer of node: {} {}", e, line));
    if let Some(f) = j.get("failure") {
        panic!("HARNESS: node: {} for {}", f.show(), q);
    }
    Some(j)
}

pub enum Acorn {
    Tree(J),
    Error(String, i64),
    Dead,
}

pub fn parse(text: &str, module: bool) -> Acorn {
    match ask(&serde_json::json!({"op": "parse", "text": text, "module": module})) {
        None => Acorn::Dead,
        Some(j) => match j.get("tree") {
            Some(t) => Acorn::Tree(t.clone()),
            None => {
                let pos = match j.get("pos") {
                    Some(J::Num(n)) => n.parse().unwrap_or(-1),
                    _ => -1,
                };
                Acorn::Error(j.get("error").and_then(|e| e.str()).unwrap_or("").to_string(), pos)
            }
        },
    }
}
