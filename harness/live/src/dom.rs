//! The browser: the client script of puck_liveview runs in Node, over the stand-in for the DOM in
//! `dom.js`.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Mutex, OnceLock};

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

static POOL: Mutex<Vec<Node>> = Mutex::new(vec![]);

/// The script, as the server hands it out.
fn script() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| puck_liveview::init::js().take_body().into_string().expect("the client script"))
}

fn infrastructure(what: impl std::fmt::Display) -> ! {
    eprintln!("the browser does not work: {what}");
    std::process::exit(2)
}

impl Node {
    fn new() -> Node {
        let file = concat!(env!("CARGO_MANIFEST_DIR"), "/dom.js");
        let mut child = Command::new("node")
            .arg("--stack-size=4000")
            .arg(file)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| infrastructure(format!("node: {e}")));
        let to = child.stdin.take().unwrap();
        let from = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let mut n = Node { child, to, from };
        let r = n.ask(&json!({ "script": script() }));
        if r != json!("ready") {
            infrastructure(r);
        }
        n
    }

    fn ask(&mut self, v: &Value) -> Value {
        let mut line = v.to_string();
        line.push('\n');
        if let Err(e) = self.to.write_all(line.as_bytes()) {
            infrastructure(e);
        }
        let mut out = String::new();
        match self.from.read_line(&mut out) {
            Ok(n) if n > 0 => serde_json::from_str(&out).unwrap_or_else(|e| infrastructure(e)),
            r => infrastructure(format!("{r:?} {:?}", self.child.try_wait())),
        }
    }
}

/// A page. (Several requests go to the same Node process, which holds one page at a time.)
pub struct Browser(Option<Node>);

impl Drop for Browser {
    fn drop(&mut self) {
        if let Some(n) = self.0.take() {
            POOL.lock().unwrap().push(n);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dom {
    Text(String),
    El { tag: String, serial: u64, attrs: BTreeMap<String, String>, children: Vec<Dom> },
}

#[derive(Debug)]
pub struct Painted {
    pub body: Vec<Dom>,
    pub sent: Vec<String>,
}

#[derive(Debug)]
pub struct Dispatched {
    pub sent: Vec<String>,
    pub prevented: bool,
}

fn dom(v: &Value) -> Dom {
    match v {
        Value::String(s) => Dom::Text(s.clone()),
        _ => Dom::El {
            tag: v["t"].as_str().unwrap().into(),
            serial: v["n"].as_u64().unwrap(),
            attrs: v["a"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect(),
            children: v["c"].as_array().unwrap().iter().map(dom).collect(),
        },
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

pub fn message(m: &str) -> Value {
    json!({ "msg": m })
}

pub fn event(path: &[usize], ty: &str, value: Option<&str>) -> Value {
    match value {
        Some(x) => json!({ "event": ty, "path": path, "value": x }),
        None => json!({ "event": ty, "path": path }),
    }
}

/// What a message did to the page.
pub fn painted(v: &Value) -> Result<Painted, String> {
    match v["err"].as_str() {
        Some(e) => Err(e.to_string()),
        None => Ok(Painted { body: v["dom"].as_array().unwrap().iter().map(dom).collect(), sent: strings(&v["sent"]) }),
    }
}

pub fn dispatched(v: &Value) -> Result<Dispatched, String> {
    match v["err"].as_str() {
        Some(e) => Err(e.to_string()),
        None => Ok(Dispatched { sent: strings(&v["sent"]), prevented: v["prevented"].as_bool().unwrap() }),
    }
}

impl Browser {
    /// Opens a page; returns the address its WebSocket connects to.
    pub fn open(href: &str) -> (Browser, Result<String, String>) {
        let n = POOL.lock().unwrap().pop();
        let mut b = Browser(Some(n.unwrap_or_else(Node::new)));
        let r = b.ask(vec![json!({ "reset": href })]);
        let url = match (r[0]["err"].as_str(), r[0]["url"].as_str(), r[0]["sockets"].as_u64()) {
            (None, Some(u), Some(1)) => Ok(u.to_string()),
            _ => Err(r[0].to_string()),
        };
        (b, url)
    }

    pub fn ask(&mut self, ops: Vec<Value>) -> Vec<Value> {
        match self.0.as_mut().unwrap().ask(&Value::Array(ops)) {
            Value::Array(v) => v,
            v => infrastructure(v),
        }
    }

    /// The page receives a message.
    pub fn receive(&mut self, m: &str) -> Result<Painted, String> {
        painted(&self.ask(vec![message(m)])[0])
    }

    /// Something happens to the element at `path`.
    pub fn fire(&mut self, path: &[usize], ty: &str, value: Option<&str>) -> Result<Dispatched, String> {
        dispatched(&self.ask(vec![event(path, ty, value)])[0])
    }
}

pub fn show(d: &[Dom]) -> String {
    d.iter()
        .map(|d| match d {
            Dom::Text(t) => format!("{t:?}"),
            Dom::El { tag, attrs, children, .. } => {
                let a: String = attrs.iter().map(|(k, v)| format!(" {k}={v:?}")).collect();
                format!("<{tag}{a}>{}</>", show(children))
            }
        })
        .collect()
}
