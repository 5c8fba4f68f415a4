//! A client of the language server, and a reference for its answers: the
//! compiler's answers on the current contents, translated to line and UTF-16
//! positions by a table of our own.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;
use ticc::*;

pub const SERVER: &str = "/verif/target/repo/release/ticc-lsp";

pub struct Srv {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Value>,
    next: i64,
    pub capabilities: Value,
    /// The diagnostics published last, by address.
    pub diags: HashMap<String, Value>,
}

impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn read_messages(r: impl Read, tx: std::sync::mpsc::Sender<Value>) {
    let mut r = BufReader::new(r);
    loop {
        let mut len = None;
        loop {
            let mut l = String::new();
            if r.read_line(&mut l).unwrap_or(0) == 0 {
                return;
            }
            if l == "\r\n" {
                break;
            }
            let (k, v) = l.trim_end().split_once(": ").unwrap_or(("", ""));
            if k.eq_ignore_ascii_case("content-length") {
                len = v.parse::<usize>().ok();
            }
        }
        let Some(len) = len else {
            let _ = tx.send(json!({"broken": "a message without length"}));
            return;
        };
        let mut b = vec![0; len];
        if r.read_exact(&mut b).is_err() {
            let _ = tx.send(json!({"broken": "a message is cut off"}));
            return;
        }
        let v = serde_json::from_slice(&b).unwrap_or_else(|e| json!({"broken": format!("{e}: {}", String::from_utf8_lossy(&b))}));
        if tx.send(v).is_err() {
            return;
        }
    }
}

impl Srv {
    pub fn spawn() -> Srv {
        let mut child = Command::new(SERVER).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("ticc-lsp starts");
        let stdin = child.stdin.take();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || read_messages(out, tx));
        Srv { child, stdin, rx, next: 0, capabilities: Value::Null, diags: HashMap::new() }
    }
    pub fn start() -> Result<Srv, String> {
        let mut s = Srv::spawn();
        let r = s.request("initialize", json!({"capabilities": {}}))?;
        s.capabilities = r["result"]["capabilities"].clone();
        s.notify("initialized", json!({}));
        Ok(s)
    }
    pub fn send(&mut self, mut m: Value) {
        m["jsonrpc"] = json!("2.0");
        let b = serde_json::to_vec(&m).unwrap();
        if let Some(i) = &mut self.stdin {
            let mut all = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
            all.extend(b);
            // a dead server shows when its answers are awaited
            let _ = i.write_all(&all).and_then(|_| i.flush());
        }
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({"method": method, "params": params}));
    }
    /// The next response; notifications before it are recorded.
    pub fn response(&mut self) -> Result<Value, String> {
        loop {
            match self.rx.recv_timeout(Duration::from_secs(20)) {
                Ok(m) => {
                    if m.get("broken").is_some() {
                        return Err(format!("the server sent {m}"));
                    }
                    if m.get("method").is_some() && m.get("id").is_none() {
                        self.note(m);
                        continue;
                    }
                    return Ok(m);
                }
                Err(RecvTimeoutError::Timeout) => return Err("the server does not answer".into()),
                Err(RecvTimeoutError::Disconnected) => {
                    let st = self.child.wait();
                    return Err(format!("the server ended ({st:?}) instead of answering"));
                }
            }
        }
    }
    fn note(&mut self, m: Value) {
        if m["method"] == "textDocument/publishDiagnostics" {
            let u = m["params"]["uri"].as_str().unwrap_or("").to_owned();
            self.diags.insert(u, m["params"]["diagnostics"].clone());
        }
    }
    pub fn post(&mut self, method: &str, params: Value) -> i64 {
        self.next += 1;
        self.send(json!({"id": self.next, "method": method, "params": params}));
        self.next
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        let id = self.post(method, params);
        let r = self.response()?;
        if r["id"] != json!(id) {
            return Err(format!("request {id} ({method}) was followed by {r}"));
        }
        Ok(r)
    }
    /// Sends the requests at once and reads their answers.
    pub fn batch(&mut self, rs: &[(&str, Value)]) -> Result<Vec<Value>, String> {
        let mut out = Vec::new();
        for part in rs.chunks(200) {
            let ids: Vec<i64> = part.iter().map(|(m, p)| self.post(m, p.clone())).collect();
            for (id, (m, p)) in ids.iter().zip(part) {
                let r = self.response()?;
                if r["id"] != json!(id) {
                    return Err(format!("request {id} ({m} {p}) was followed by {r}"));
                }
                if r.get("error").is_some() {
                    return Err(format!("{m} {p} answered with {r}"));
                }
                out.push(r["result"].clone());
            }
        }
        Ok(out)
    }
    /// Waits until everything sent before has been handled.
    pub fn sync(&mut self) -> Result<(), String> {
        self.request("textDocument/hover", json!({"textDocument": {"uri": "file:///nowhere/at/all.tic"}, "position": {"line": 0, "character": 0}})).map(|_| ())
    }
    pub fn open(&mut self, uri: &str, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "tic", "version": 1, "text": text}}));
    }
    pub fn change(&mut self, uri: &str, text: &str) {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": text}]}));
    }
    pub fn change_twice(&mut self, uri: &str, first: &str, last: &str) {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": first}, {"text": last}]}));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn pid(&self) -> u32 {
        self.child.id()
    }
    /// Ends the input and waits for the process to end.
    pub fn finish(&mut self) -> Result<bool, String> {
        self.stdin = None;
        self.wait()
    }
    pub fn wait(&mut self) -> Result<bool, String> {
        let t = std::time::Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Ok(s.success());
            }
            if t.elapsed() > Duration::from_secs(20) {
                return Err("the server does not end".into());
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    pub fn leftover(&mut self) -> Option<Value> {
        loop {
            match self.rx.recv_timeout(Duration::from_secs(20)) {
                Ok(m) if m.get("method").is_some() && m.get("id").is_none() => self.note(m),
                Ok(m) => return Some(m),
                Err(_) => return None,
            }
        }
    }
}

/// Line starts and ends of a text, by the protocol's rules.
pub struct Table<'a> {
    src: &'a str,
    /// Start of the line, end without the line break, end with it.
    pub lines: Vec<(usize, usize, usize)>,
}

impl<'a> Table<'a> {
    pub fn new(src: &'a str) -> Table<'a> {
        let b = src.as_bytes();
        let mut lines = Vec::new();
        let (mut s, mut i) = (0, 0);
        while i < b.len() {
            let n = match b[i] {
                b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
                b'\r' | b'\n' => 1,
                _ => {
                    i += 1;
                    continue;
                }
            };
            lines.push((s, i, i + n));
            i += n;
            s = i;
        }
        lines.push((s, b.len(), b.len()));
        Table { src, lines }
    }
    pub fn offset(&self, line: u64, ch: u64) -> usize {
        let Some(&(s, e, _)) = self.lines.get(line as usize) else { return self.src.len() };
        let mut units = 0;
        for (i, c) in self.src[s..e].char_indices() {
            units += c.len_utf16() as u64;
            if units > ch {
                return s + i;
            }
        }
        e
    }
    pub fn position(&self, o: usize) -> Value {
        let k = self.lines.iter().rposition(|l| l.0 <= o).unwrap();
        let ch: usize = self.src[self.lines[k].0..o].chars().map(char::len_utf16).sum();
        json!({"line": k, "character": ch})
    }
    pub fn range(&self, s: Span) -> Value {
        json!({"start": self.position(s.start().source_pos()), "end": self.position(s.end().source_pos())})
    }
    pub fn width(&self, line: usize) -> usize {
        let (s, e, _) = self.lines[line];
        self.src[s..e].encode_utf16().count()
    }
}

/// Files as the server should see them: open text, or else the file.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct World(pub BTreeMap<String, String>);

/// Resolves the path of an import against the importing file.
pub fn resolve(from: &str, name: &str) -> String {
    let mut v: Vec<&str> = from.split('/').collect();
    v.pop();
    if name.starts_with('/') {
        v.clear();
    }
    for p in name.split('/') {
        match p {
            "." | "" => {}
            ".." => {
                v.pop();
            }
            p => v.push(p),
        }
    }
    v.join("/")
}

impl World {
    fn imports(&self, path: &str) -> Vec<String> {
        let Some(t) = self.0.get(path) else { return vec![] };
        t.split("from \"").skip(1).filter_map(|r| r.split_once('"')).map(|(n, _)| resolve(path, n)).collect()
    }
    fn reaches(&self, from: &str, to: &str) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut stack = vec![from.to_owned()];
        while let Some(p) = stack.pop() {
            if p == to {
                return true;
            }
            if seen.insert(p.clone()) {
                stack.extend(self.imports(&p));
            }
        }
        false
    }
}

struct Reader {
    world: Arc<World>,
    path: String,
    /// Every file is one module, no matter how often it is imported.
    done: Arc<std::sync::Mutex<HashMap<String, CompleteUnit>>>,
}

impl ModuleResolver for Reader {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let to = resolve(&self.path, name);
        if !self.world.0.contains_key(&to) {
            return Err(ImportError::DoesNotExist);
        }
        if self.world.reaches(&to, &self.path) {
            return Err(ImportError::ImportCycle);
        }
        if let Some(u) = self.done.lock().unwrap().get(&to) {
            return Ok(u.clone());
        }
        let r = Arc::new(Reader { world: self.world.clone(), path: to.clone(), done: self.done.clone() });
        let u = CompilationUnit::new(&self.world.0[&to], Options::default(), r).complete();
        self.done.lock().unwrap().insert(to, u.clone());
        Ok(u)
    }
}

pub fn unit(world: &Arc<World>, path: &str) -> CompilationUnit {
    let r = Arc::new(Reader { world: world.clone(), path: path.to_owned(), done: Default::default() });
    CompilationUnit::new(&world.0[path], Options::default(), r)
}

pub fn diagnostics(u: &mut CompilationUnit) -> Value {
    let src = u.source();
    let t = Table::new(&src);
    let v: Vec<Value> = u
        .diagnostics()
        .map(|d| json!({"range": t.range(d.span), "severity": if d.severity == Severity::Error { 1 } else { 2 }, "source": "ticc", "message": d.message}))
        .collect();
    Value::Array(v)
}

pub fn hover(u: &mut CompilationUnit, t: &Table, o: usize) -> Value {
    match u.info(Pos::new(o as u32)) {
        Some(i) => json!({"contents": i.doc, "range": t.range(i.span)}),
        None => Value::Null,
    }
}

pub fn definition(u: &mut CompilationUnit, t: &Table, o: usize, uri: &str) -> Value {
    match u.find_definition(Pos::new(o as u32)) {
        Some(s) => json!({"uri": uri, "range": t.range(s)}),
        None => Value::Null,
    }
}

pub fn references(u: &mut CompilationUnit, t: &Table, o: usize, uri: &str, decl: bool) -> Value {
    let Some(mut v) = u.find_references(Pos::new(o as u32)) else { return Value::Null };
    if decl {
        if let Some(d) = u.find_definition(Pos::new(o as u32)) {
            if !v.iter().any(|s| s.start() == d.start() && s.end() == d.end()) {
                v.push(d);
            }
        }
    }
    Value::Array(v.into_iter().map(|s| json!({"uri": uri, "range": t.range(s)})).collect())
}

pub fn completions(u: &mut CompilationUnit, o: usize) -> Value {
    match u.completions(Pos::new(o as u32)) {
        Some(v) => Value::Array(v.into_iter().map(|c| json!({"label": c.name})).collect()),
        None => Value::Null,
    }
}

/// Start position, length and type of the highlighting tokens.
pub fn tokens(u: &mut CompilationUnit) -> Vec<(Value, usize, &'static str)> {
    let src = u.source();
    let t = Table::new(&src);
    u.tokens()
        .map(|k| {
            let (s, e) = (k.span.start().source_pos(), k.span.end().source_pos());
            let kind = match k.kind {
                TokenKind::Keyword => "keyword",
                TokenKind::Type | TokenKind::Ctor => "type",
                TokenKind::Value => "variable",
                TokenKind::Function => "function",
                TokenKind::Operator => "operator",
                TokenKind::Punctuation => "punctuation",
                TokenKind::Number => "number",
                TokenKind::Comment => "comment",
                TokenKind::TypeVariable => "typeParameter",
                TokenKind::String => "string",
            };
            (t.position(s), src[s..e].encode_utf16().count(), kind)
        })
        .collect()
}

/// Decodes what the server sent, by the protocol's rules.
pub fn decode(answer: &Value, legend: &Value) -> Result<Vec<(Value, usize, String)>, String> {
    let data = answer["data"].as_array().ok_or_else(|| format!("no tokens in {answer}"))?;
    if data.len() % 5 != 0 {
        return Err(format!("{} numbers in the token data", data.len()));
    }
    let (mut line, mut ch) = (0u64, 0u64);
    let mut out = Vec::new();
    for q in data.chunks(5) {
        let n: Vec<u64> = q.iter().map(|x| x.as_u64().ok_or_else(|| format!("bad number {x}"))).collect::<Result<_, _>>()?;
        line += n[0];
        ch = if n[0] == 0 { ch + n[1] } else { n[1] };
        let ty = legend[n[3] as usize].as_str().ok_or_else(|| format!("no token type {}", n[3]))?;
        if n[4] != 0 {
            return Err(format!("modifiers {}", n[4]));
        }
        out.push((json!({"line": line, "character": ch}), n[2] as usize, ty.to_owned()));
    }
    Ok(out)
}
