//! The language server: positions, tokens, liveness and editing histories.
use crate::engine::{hash, Check, Cx};
use crate::lsp::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// A running server, replaced after an error and every so often.
#[derive(Default)]
struct Pool {
    srv: Option<Srv>,
    used: usize,
    next: u64,
}

impl Pool {
    fn with<T>(&mut self, f: impl FnOnce(&mut Srv, u64) -> Result<T, String>) -> Result<T, String> {
        if self.used >= 400 {
            self.srv = None;
            self.used = 0;
        }
        if self.srv.is_none() {
            self.srv = Some(Srv::start()?);
        }
        self.used += 1;
        self.next += 1;
        let r = f(self.srv.as_mut().unwrap(), self.next);
        if r.is_err() {
            self.srv = None;
            self.used = 0;
        }
        r
    }
}

fn at(uri: &str, l: u64, c: u64) -> Value {
    json!({"textDocument": {"uri": uri}, "position": {"line": l, "character": c}})
}

fn refs_at(uri: &str, l: u64, c: u64, decl: bool) -> Value {
    json!({"textDocument": {"uri": uri}, "position": {"line": l, "character": c}, "context": {"includeDeclaration": decl}})
}

const PIECES: [&str; 10] = ["let x=1;", "let y=x+x;", "let s=\"ж😀\"; let x=2;", "--é😀x", "\n", "\r\n", "\r", "  ", "€ x", "export let z:int="];

/// All sequences of pieces up to a length.
fn sequences(cx: &mut Cx, max: usize, f: &mut dyn FnMut(&mut Cx, String)) {
    for n in 0..=max {
        let mut d = vec![0; n];
        loop {
            f(cx, d.iter().map(|i| PIECES[*i]).collect());
            let Some(k) = (0..n).rev().find(|k| d[*k] + 1 < PIECES.len()) else { break };
            d[k] += 1;
            d[k + 1..].fill(0);
        }
    }
}

fn alone(path: &str, text: &str) -> Arc<World> {
    let mut w = World::default();
    w.0.insert(path.to_owned(), text.to_owned());
    Arc::new(w)
}

fn positions(cx: &mut Cx, pool: &mut Pool, text: &str, all: bool) -> Result<(), String> {
    let w = alone("a.tic", text);
    let mut u = unit(&w, "a.tic");
    let t = Table::new(text);
    pool.with(|s, n| {
        let uri = format!("file:///mc/{n}/a.tic");
        s.open(&uri, text);
        let mut ask: Vec<(&str, Value)> = Vec::new();
        let mut want = Vec::new();
        let n = t.lines.len() as u64;
        let mut ps: Vec<(u64, u64)> = Vec::new();
        for l in 0..n + 2 {
            let width = if l < n { t.width(l as usize) as u64 } else { 1 };
            for c in (0..width + 3).chain([1000, i32::MAX as u64]) {
                ps.push((l, c));
            }
        }
        ps.extend([(1000, 0), (i32::MAX as u64, 3)]);
        // in both orders
        let back: Vec<_> = ps.iter().rev().copied().collect();
        for (k, (l, c)) in ps.into_iter().chain(back).enumerate() {
            let o = t.offset(l, c);
            ask.push(("textDocument/hover", at(&uri, l, c)));
            want.push(hover(&mut u, &t, o));
            if all || k % 3 == 0 {
                ask.push(("textDocument/definition", at(&uri, l, c)));
                want.push(definition(&mut u, &t, o, &uri));
                ask.push(("textDocument/completion", at(&uri, l, c)));
                want.push(completions(&mut u, o));
            }
            if all {
                ask.push(("textDocument/declaration", at(&uri, l, c)));
                want.push(definition(&mut u, &t, o, &uri));
                for d in [true, false] {
                    ask.push(("textDocument/references", refs_at(&uri, l, c, d)));
                    want.push(references(&mut u, &t, o, &uri, d));
                }
            }
        }
        let got = s.batch(&ask)?;
        cx.ops(got.len() as u64);
        for ((g, w), (m, p)) in got.iter().zip(&want).zip(&ask) {
            if g != w {
                return Err(format!("{m} at {} answered {g} instead of {w}", p["position"]));
            }
        }
        let d = s.diags.remove(&uri).unwrap_or_default();
        let w = diagnostics(&mut u);
        if d != w {
            return Err(format!("published {d} instead of {w}"));
        }
        s.close(&uri);
        cx.validated(1 + want.len() as u64);
        Ok(())
    })
}

fn c20(cx: &mut Cx) {
    let mut pool = Pool::default();
    cx.family("every_position");
    let n = cx.pick(3, 4);
    cx.bound("pieces_all_requests", n);
    sequences(cx, n, &mut |cx, t| {
        cx.case(&format!("{t:?}"), |cx| positions(cx, &mut pool, &t, true));
    });
    cx.family("every_position_longer");
    let m = cx.pick(4, 5);
    cx.bound("pieces_some_requests", m);
    sequences(cx, m, &mut |cx, t| {
        cx.lazy(|| format!("{t:?}"), |cx, _| positions(cx, &mut pool, &t, false));
    });
    // characters of every width before, in and after a name's line
    cx.family("widths");
    let n = cx.pick(3, 4);
    let alpha = ["a", "é", "€", "😀", "\u{301}", "\n", "\r\n"];
    cx.bound("characters", n);
    let mut words: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..n {
        let to = words.len();
        for i in from..to {
            for a in alpha {
                words.push(format!("{}{a}", words[i]));
            }
        }
        from = to;
    }
    for w in &words {
        for text in [format!("let q={w}x;let x=1;"), format!("--{w}\nlet x=\"{w}\";let q=x;"), format!("let x=1;let q=\"{w}\"+x;{w}")] {
            cx.lazy(|| format!("{text:?}"), |cx, _| positions(cx, &mut pool, &text, false));
        }
    }
    // every character, or the ones around each multiple of 16
    cx.family("every_character");
    let wanted: Vec<char> = (0..=0x10ffff_u32).filter(|c| cx.thorough || matches!(c % 16, 0 | 15)).chain(0..128).filter_map(char::from_u32).filter(|c| !matches!(c, '\n' | '\r')).collect();
    cx.bound("characters_tried", wanted.len());
    for part in wanted.chunks(128) {
        cx.lazy(|| format!("characters {:?} to {:?}", part[0], part[part.len() - 1]), |cx, _| {
            let text: String = part.iter().map(|c| format!("let x=\"{c}a{c}\";let y=x;\n")).collect();
            let w = alone("a.tic", &text);
            let mut u = unit(&w, "a.tic");
            let t = Table::new(&text);
            pool.with(|s, n| {
                let uri = format!("file:///mc/{n}/a.tic");
                s.open(&uri, &text);
                let mut ask: Vec<(&str, Value)> = Vec::new();
                let mut want = Vec::new();
                for l in 0..part.len() {
                    let w = t.width(l) as u64;
                    // the two names and the places next to them
                    for c in [w - 8, w - 7, w - 6, w - 3, w - 2, w - 1, w] {
                        ask.push(("textDocument/hover", at(&uri, l as u64, c)));
                        want.push(hover(&mut u, &t, t.offset(l as u64, c)));
                    }
                    ask.push(("textDocument/definition", at(&uri, l as u64, w - 2)));
                    want.push(definition(&mut u, &t, t.offset(l as u64, w - 2), &uri));
                }
                let got = s.batch(&ask)?;
                cx.ops(got.len() as u64);
                cx.validated(got.len() as u64);
                for ((g, w), (m, p)) in got.iter().zip(&want).zip(&ask) {
                    if g != w {
                        return Err(format!("{m} at {} answered {g} instead of {w}", p["position"]));
                    }
                }
                s.close(&uri);
                Ok(())
            })
        });
    }
    cx.family("long");
    for (lines, width) in [(300, 2), (3, 3000), (70, 70)] {
        for eol in ["\n", "\r\n", "\r"] {
            let line = format!("let x=\"{}\";", "é😀".repeat(width / 2));
            let text = vec![line; lines].join(eol);
            let text = &text[..text.len().min(60000)];
            let text: String = text.chars().collect::<Vec<_>>().into_iter().collect();
            cx.lazy(|| format!("{lines} lines of {width} ending in {eol:?}"), |cx, _| {
                let w = alone("a.tic", &text);
                let mut u = unit(&w, "a.tic");
                let t = Table::new(&text);
                pool.with(|s, n| {
                    let uri = format!("file:///mc/{n}/a.tic");
                    s.open(&uri, &text);
                    let mut ask: Vec<(&str, Value)> = Vec::new();
                    let mut want = Vec::new();
                    for l in 0..t.lines.len() {
                        let w = t.width(l) as u64;
                        for c in [0, 4, 5, 6, 7, 8, w - 1, w, w + 1] {
                            ask.push(("textDocument/hover", at(&uri, l as u64, c)));
                            want.push(hover(&mut u, &t, t.offset(l as u64, c)));
                        }
                    }
                    let got = s.batch(&ask)?;
                    cx.ops(got.len() as u64);
                    cx.validated(got.len() as u64);
                    for ((g, w), (m, p)) in got.iter().zip(&want).zip(&ask) {
                        if g != w {
                            return Err(format!("{m} at {} answered {g} instead of {w}", p["position"]));
                        }
                    }
                    let (d, w) = (s.diags.remove(&uri).unwrap_or_default(), diagnostics(&mut u));
                    if d != w {
                        return Err(format!("published {d} instead of {w}"));
                    }
                    s.close(&uri);
                    Ok(())
                })
            });
        }
    }
}

fn same_tokens(cx: &mut Cx, pool: &mut Pool, text: &str) -> Result<(), String> {
    let w = alone("a.tic", text);
    let mut u = unit(&w, "a.tic");
    let want = tokens(&mut u);
    pool.with(|s, n| {
        let uri = format!("file:///mc/{n}/a.tic");
        s.open(&uri, text);
        let got = s.batch(&[("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}}))])?;
        let legend = s.capabilities["semanticTokensProvider"]["legend"]["tokenTypes"].clone();
        let got = decode(&got[0], &legend)?;
        cx.ops(2);
        for (g, w) in got.iter().zip(&want) {
            if g.0 != w.0 || g.1 != w.1 || g.2 != w.2 {
                return Err(format!("the editor sees {g:?} instead of {w:?}"));
            }
        }
        if got.len() != want.len() {
            return Err(format!("{} tokens instead of {}", got.len(), want.len()));
        }
        s.close(&uri);
        cx.validated(got.len() as u64);
        Ok(())
    })
}

const TOKEN_PIECES: [&str; 16] = [
    "let f", "x", "\"é😀\"", "--€😀", "\n", "\r\n", "\r", " ", "\t", "type t a = A a;", "f 12", "(a -> int)", "?h", "€", "= \\y -> y;", "match",
];

fn c22(cx: &mut Cx) {
    let mut pool = Pool::default();
    cx.family("sequences");
    let n = cx.pick(4, 5);
    cx.bound("pieces", n);
    for k in 0..=n {
        let mut d = vec![0; k];
        loop {
            if cx.mine() {
                let t: String = d.iter().map(|i| TOKEN_PIECES[*i]).collect();
                cx.case(&format!("{t:?}"), |cx| same_tokens(cx, &mut pool, &t));
            } else {
                cx.skip();
            }
            let Some(k) = (0..k).rev().find(|k| d[*k] + 1 < TOKEN_PIECES.len()) else { break };
            d[k] += 1;
            d[k + 1..].fill(0);
        }
    }
    cx.family("line_layouts");
    let n = cx.pick(5, 6);
    cx.bound("layouts", n);
    sequences(cx, n, &mut |cx, t| {
        cx.lazy(|| format!("{t:?}"), |cx, _| same_tokens(cx, &mut pool, &t));
    });
    cx.family("large");
    for (lines, width) in [(0, 0), (300, 1), (1, 3000), (3000, 1), (50, 50)] {
        for eol in ["\n", "\r\n", "\n\n\n"] {
            let line = "f \"é😀\" 12 ".repeat(width);
            let text = vec![line; lines].join(eol);
            cx.lazy(|| format!("{lines} lines of {width} with {eol:?}"), |cx, _| same_tokens(cx, &mut pool, &text));
        }
    }
}

// ---------------------------------------------------------------- liveness

#[derive(Clone, Debug)]
enum Msg {
    Note(&'static str, Value),
    Ask(&'static str, Value),
    /// What the client sends in answer to the server.
    Reply(Value),
}

fn messages() -> Vec<(String, Msg)> {
    let a = "file:///mc/a.tic";
    let b = "file:///mc/b.tic";
    let mut v: Vec<(String, Msg)> = Vec::new();
    let mut add = |n: &str, m: Msg| v.push((n.to_owned(), m));
    let open = |u: &str, t: &str| Msg::Note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "tic", "version": 1, "text": t}}));
    let change = |u: &str, ts: &[&str]| {
        let c: Vec<Value> = ts.iter().map(|t| json!({"text": t})).collect();
        Msg::Note("textDocument/didChange", json!({"textDocument": {"uri": u, "version": 1}, "contentChanges": c}))
    };
    let close = |u: &str| Msg::Note("textDocument/didClose", json!({"textDocument": {"uri": u}}));
    add("open a", open(a, "import (y) from \"b.tic\"; export let x : int = y + 1;"));
    add("open a empty", open(a, ""));
    add("open a broken", open(a, "let ( \"\n match 0xx import é"));
    add("open a self", open(a, "import a from \"a.tic\"; import c from \"\"; import d from \"/\"; import e from \"http://x:y/\"; import f from \"..\"; let z = a.z;"));
    add("open b", open(b, "import (x) from \"a.tic\"; export let y : int = x;"));
    add("change a", change(a, &["export let x : bool = true;"]));
    add("change a nothing", change(a, &[]));
    add("change a twice", change(a, &["let", "export let x : int = 3; "]));
    add("change b", change(b, &["export let y : int = 1;\n"]));
    add("close a", close(a));
    add("close b", close(b));
    add("open untitled", open("untitled:Untitled-1", "import a from \"a.tic\"; let x = 1;"));
    add("change untitled", change("untitled:Untitled-1", &["import a from \"b#c?d.tic\";"]));
    add("close untitled", close("untitled:Untitled-1"));
    add("open odd", open("file:///", "import a from \"../..\"; let x = 1;"));
    add("open host", open("file://host/x/a.tic", "import a from \"b.tic\"; let x = 1;"));
    for (l, c) in [(0, 0), (0, 9), (0, 45), (5, 0), (i32::MAX, i32::MAX)] {
        for u in [a, "file:///mc/never.tic", "untitled:Untitled-1"] {
            if u != a && (l, c) != (0, 9) {
                continue;
            }
            let p = at(u, l as u64, c as u64);
            for m in ["textDocument/hover", "textDocument/definition", "textDocument/declaration", "textDocument/completion"] {
                add(&format!("{m} {u} {l}:{c}"), Msg::Ask(m, p.clone()));
            }
            add(&format!("references {u} {l}:{c}"), Msg::Ask("textDocument/references", refs_at(u, l as u64, c as u64, true)));
        }
    }
    for u in [a, b, "file:///mc/never.tic", "untitled:Untitled-1", "file:///"] {
        add(&format!("tokens {u}"), Msg::Ask("textDocument/semanticTokens/full", json!({"textDocument": {"uri": u}})));
    }
    add("unsupported", Msg::Ask("textDocument/rename", json!({"textDocument": {"uri": a}, "position": {"line": 0, "character": 0}, "newName": "q"})));
    add("unknown", Msg::Ask("no/such", json!(null)));
    add("dollar request", Msg::Ask("$/no/such", json!({})));
    add("dollar", Msg::Note("$/setTrace", json!({"value": "off"})));
    add("cancel", Msg::Note("$/cancelRequest", json!({"id": 1})));
    add("save", Msg::Note("textDocument/didSave", json!({"textDocument": {"uri": a}})));
    add("watched", Msg::Note("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": a, "type": 2}]})));
    add("hover without position", Msg::Ask("textDocument/hover", json!({"textDocument": {"uri": a}})));
    add("hover at -1", Msg::Ask("textDocument/hover", json!({"textDocument": {"uri": a}, "position": {"line": -1, "character": 0}})));
    add("hover of no address", Msg::Ask("textDocument/hover", json!({"textDocument": {"uri": "x y"}, "position": {"line": 0, "character": 0}})));
    add("references without context", Msg::Ask("textDocument/references", at(a, 0, 0)));
    add("reply", Msg::Reply(json!({"id": 1, "result": null})));
    add("reply with a value", Msg::Reply(json!({"id": "r0", "result": {"a": [1]}})));
    add("error reply", Msg::Reply(json!({"id": 70000, "error": {"code": -32601, "message": "no such method"}})));
    add("error reply with data", Msg::Reply(json!({"id": "r1", "error": {"code": -32800, "message": "", "data": [1]}})));
    add("initialize again", Msg::Ask("initialize", json!({"capabilities": {}})));
    add("initialized again", Msg::Note("initialized", json!({})));
    add("configuration", Msg::Note("workspace/didChangeConfiguration", json!({"settings": null})));
    add("resolve", Msg::Ask("completionItem/resolve", json!({"label": "x"})));
    add("open nothing", Msg::Note("textDocument/didOpen", json!({})));
    add("change nothing", Msg::Note("textDocument/didChange", json!([])));
    add("close nothing", Msg::Note("textDocument/didClose", json!({"textDocument": 5})));
    v
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Shutdown,
    Eof,
    Stay,
}

fn history(cx: &mut Cx, pool: &mut Pool, hist: &[&Msg], end: End, string_ids: bool) -> Result<(), String> {
    let mut go = |s: &mut Srv| -> Result<(), String> {
        let mut ids = Vec::new();
        for (i, m) in hist.iter().enumerate() {
            match m {
                Msg::Note(m, p) => s.notify(m, p.clone()),
                Msg::Reply(r) => s.send(r.clone()),
                Msg::Ask(m, p) if string_ids => {
                    let id = json!(format!("r{i}"));
                    s.send(json!({"id": id, "method": m, "params": p}));
                    ids.push(id);
                }
                Msg::Ask(m, p) => ids.push(json!(s.post(m, p.clone()))),
            }
        }
        cx.ops(hist.len() as u64);
        let mut open = ids.clone();
        while !open.is_empty() {
            let r = s.response()?;
            let Some(k) = open.iter().position(|i| *i == r["id"]) else { return Err(format!("an answer to nothing: {r}")) };
            open.remove(k);
            let (has_r, has_e) = (r.get("result").is_some(), r.get("error").is_some());
            if has_r == has_e {
                return Err(format!("a response with {}", if has_r { "a result and an error" } else { "neither result nor error" }));
            }
            cx.validated(1);
        }
        s.sync()?;
        match end {
            End::Stay => {
                for u in ["file:///mc/a.tic", "file:///mc/b.tic", "untitled:Untitled-1", "file:///", "file://host/x/a.tic"] {
                    s.close(u);
                }
                s.sync()
            }
            End::Shutdown => {
                let r = s.request("shutdown", Value::Null)?;
                if r.get("error").is_some() {
                    return Err(format!("shutdown answered {r}"));
                }
                s.notify("exit", Value::Null);
                if !s.wait()? {
                    return Err("exit code after shutdown and exit".into());
                }
                match s.leftover() {
                    Some(m) => Err(format!("more answers: {m}")),
                    None => Ok(()),
                }
            }
            End::Eof => {
                if !s.finish()? {
                    return Err("exit code at end of input".into());
                }
                match s.leftover() {
                    Some(m) => Err(format!("more answers: {m}")),
                    None => Ok(()),
                }
            }
        }
    };
    if end == End::Stay {
        pool.with(|s, _| go(s))
    } else {
        go(&mut Srv::start()?)
    }
}

fn c21(cx: &mut Cx) {
    let mut pool = Pool::default();
    let ms = messages();
    let n = ms.len();
    cx.bound("messages", n);
    cx.family("one_and_end");
    for (name, m) in &ms {
        for e in [End::Shutdown, End::Eof, End::Stay] {
            for ids in [false, true] {
                cx.case(&format!("{name}; {e:?} {ids}"), |cx| history(cx, &mut pool, &[m], e, ids));
            }
        }
    }
    cx.family("two_and_end");
    for (a, x) in &ms {
        for (b, y) in &ms {
            cx.lazy(|| format!("{a}; {b}; shutdown"), |cx, _| history(cx, &mut pool, &[x, y], End::Shutdown, false));
        }
    }
    cx.family("three");
    for (a, x) in &ms {
        for (b, y) in &ms {
            for (c, z) in &ms {
                cx.lazy(|| format!("{a}; {b}; {c}"), |cx, _| history(cx, &mut pool, &[x, y, z], End::Stay, true));
            }
        }
    }
    cx.family("events_then_request");
    let events: Vec<_> = ms.iter().filter(|m| matches!(m.1, Msg::Note(..)) && !m.0.contains("nothing") && !m.0.contains("odd")).take(13).collect();
    let asks: Vec<_> = ms.iter().filter(|m| matches!(m.1, Msg::Ask(..))).collect();
    let d = cx.pick(4, 5);
    cx.bound("events", d);
    let mut idx = vec![0; d];
    loop {
        let name = || idx.iter().map(|i| events[*i].0.as_str()).collect::<Vec<_>>().join("; ");
        cx.lazy(name, |cx, _| {
            let mut h: Vec<&Msg> = Vec::new();
            for (k, i) in idx.iter().enumerate() {
                h.push(&events[*i].1);
                h.push(&asks[(k * 7 + i) % asks.len()].1);
            }
            h.extend(asks.iter().map(|a| &a.1));
            history(cx, &mut pool, &h, End::Stay, false)
        });
        let Some(k) = (0..d).rev().find(|k| idx[*k] + 1 < events.len()) else { break };
        idx[k] += 1;
        idx[k + 1..].fill(0);
    }
    cx.family("start");
    for before in 0..4 {
        cx.case(&format!("{before} requests before initialize"), |_| {
            let mut s = Srv::spawn();
            for _ in 0..before {
                let r = s.request("textDocument/hover", at("file:///a.tic", 0, 0))?;
                if r.get("error").is_none() {
                    return Err(format!("before initialize: {r}"));
                }
            }
            s.request("initialize", json!({"capabilities": {}}))?;
            s.notify("initialized", json!({}));
            s.sync()?;
            s.finish().map(|_| ())
        });
    }
}

// ---------------------------------------------------------------- histories

/// The documents of a family, the contents each may have and the files there
/// are at the start.
struct Family {
    name: &'static str,
    docs: Vec<(&'static str, Vec<&'static str>)>,
    disks: Vec<Vec<Option<usize>>>,
    depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Open(usize, usize),
    Change(usize, usize),
    Save(usize),
    Close(usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct St {
    disk: Vec<Option<usize>>,
    open: Vec<Option<usize>>,
}

impl St {
    fn enabled(&self, f: &Family) -> Vec<Ev> {
        let mut v = Vec::new();
        for d in 0..f.docs.len() {
            match self.open[d] {
                None => v.extend((0..f.docs[d].1.len()).map(|k| Ev::Open(d, k))),
                Some(o) => {
                    v.extend((0..f.docs[d].1.len()).map(|k| Ev::Change(d, k)));
                    v.push(Ev::Close(d));
                    if self.disk[d] != Some(o) {
                        v.push(Ev::Save(d));
                    }
                }
            }
        }
        v
    }
    fn step(&mut self, e: Ev) {
        match e {
            Ev::Open(d, k) | Ev::Change(d, k) => self.open[d] = Some(k),
            Ev::Save(d) => self.disk[d] = self.open[d],
            Ev::Close(d) => self.open[d] = None,
        }
    }
    fn world(&self, f: &Family) -> World {
        let mut w = World::default();
        for (d, (p, cs)) in f.docs.iter().enumerate() {
            if let Some(k) = self.open[d].or(self.disk[d]) {
                w.0.insert(p.to_string(), cs[k].to_owned());
            }
        }
        w
    }
}

/// What the server should answer about a document: its diagnostics and, at
/// each token, everything it can be asked.
#[derive(Clone)]
struct Answers {
    diags: Value,
    asks: Vec<(&'static str, u64, u64, Value)>,
    tokens: Vec<(Value, usize, &'static str)>,
}

fn answers(w: &Arc<World>, path: &str, uri: &str) -> Answers {
    let mut u = unit(w, path);
    let src = u.source();
    let t = Table::new(&src);
    let diags = diagnostics(&mut u);
    let tokens = tokens(&mut u);
    let mut asks = Vec::new();
    let ends: Vec<(u64, u64)> = tokens.iter().map(|k| (k.0["line"].as_u64().unwrap(), k.0["character"].as_u64().unwrap())).collect();
    for (l, c) in ends {
        let o = t.offset(l, c);
        asks.push(("textDocument/hover", l, c, hover(&mut u, &t, o)));
        asks.push(("textDocument/definition", l, c, definition(&mut u, &t, o, uri)));
        asks.push(("textDocument/references", l, c, references(&mut u, &t, o, uri, true)));
        asks.push(("textDocument/completion", l, c, completions(&mut u, o)));
    }
    Answers { diags, asks, tokens }
}

/// `%41` and `A` are the same in an address.
fn plain(v: &Value) -> Value {
    match v {
        Value::String(s) if s.starts_with("file:") => {
            let b = s.as_bytes();
            let mut o = Vec::new();
            let mut i = 0;
            while i < b.len() {
                match (b[i], s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
                    (b'%', Some(x)) => {
                        o.push(x);
                        i += 3;
                    }
                    (x, _) => {
                        o.push(x);
                        i += 1;
                    }
                }
            }
            Value::String(String::from_utf8_lossy(&o).into_owned())
        }
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        v => v.clone(),
    }
}

/// Asks about one open document and compares.
fn interrogate(cx: &mut Cx, s: &mut Srv, uri: &str, a: &Answers, base: &str) -> Result<(), String> {
    let mut asks: Vec<(&str, Value)> = a.asks.iter().map(|(m, l, c, _)| (*m, if *m == "textDocument/references" { refs_at(uri, *l, *c, true) } else { at(uri, *l, *c) })).collect();
    asks.push(("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})));
    let mut got = s.batch(&asks)?;
    cx.ops(got.len() as u64);
    cx.validated(got.len() as u64);
    let toks = decode(&got.pop().unwrap(), &s.capabilities["semanticTokensProvider"]["legend"]["tokenTypes"])?;
    if toks.len() != a.tokens.len() || toks.iter().zip(&a.tokens).any(|(g, w)| g.0 != w.0 || g.1 != w.1 || g.2 != w.2) {
        return Err(format!("the tokens of {uri} are {toks:?} instead of {:?}", a.tokens));
    }
    for (g, (m, l, c, w)) in got.iter().zip(&a.asks) {
        // addresses in the expected answers are those of another directory
        let w = plain(&replace(w, base, uri));
        if plain(g) != w {
            return Err(format!("{m} at {l}:{c} of {uri} answered {g} instead of {w}"));
        }
    }
    Ok(())
}

fn replace(v: &Value, from: &str, to: &str) -> Value {
    match v {
        Value::String(s) if s == from => Value::String(to.to_owned()),
        Value::Array(a) => Value::Array(a.iter().map(|v| replace(v, from, to)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), replace(v, from, to))).collect()),
        v => v.clone(),
    }
}

#[derive(Default)]
struct Memo {
    answers: HashMap<(u64, usize), Answers>,
    fresh: HashSet<u64>,
}

/// How an editor spells the address of a file.
fn address(dir: &str, path: &str, encode_all: bool) -> String {
    let mut o = String::from("file://");
    for b in dir.bytes().chain([b'/']).chain(path.bytes()) {
        let safe = b.is_ascii_alphanumeric() || b"-._~/".contains(&b) || (!encode_all && b"!$&'()*+,;=:@".contains(&b));
        if safe {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

const BASE: &str = "file:///the/document";

struct Hist<'a> {
    pool: &'a mut Pool,
    memo: &'a mut Memo,
}

impl Hist<'_> {
    fn expected(&mut self, f: &Family, fi: u64, st: &St, d: usize) -> Answers {
        let w = st.world(f);
        let key = (hash(&(fi, &w)), d);
        self.memo.answers.entry(key).or_insert_with(|| answers(&Arc::new(w), f.docs[d].0, BASE)).clone()
    }

    fn run(&mut self, cx: &mut Cx, f: &Family, fi: u64, start: &[Option<usize>], evs: &[Ev], encode: bool) -> Result<(), String> {
        let top = cx.scratch.join(format!("h{}", cx.shard));
        let mut st = St { disk: start.to_vec(), open: vec![None; f.docs.len()] };
        self.pool.next += 1;
        let n = self.pool.next;
        let dir = top.join(n.to_string());
        let write = |d: usize, k: usize| {
            let p = dir.join(f.docs[d].0);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, f.docs[d].1[k]).unwrap();
        };
        std::fs::create_dir_all(&dir).unwrap();
        for (d, k) in start.iter().enumerate() {
            if let Some(k) = k {
                write(d, *k);
            }
        }
        let dirs = dir.to_str().unwrap().to_owned();
        let uri = |d: usize| address(&dirs, f.docs[d].0, encode);
        let mut pool = std::mem::take(self.pool);
        let r = pool.with(|s, _| {
            for e in evs {
                match *e {
                    Ev::Open(d, k) => s.open(&uri(d), f.docs[d].1[k]),
                    // sometimes two changes arrive together
                    Ev::Change(d, k) if k + 1 == f.docs[d].1.len() => s.change_twice(&uri(d), f.docs[d].1[0], f.docs[d].1[k]),
                    Ev::Change(d, k) => s.change(&uri(d), f.docs[d].1[k]),
                    Ev::Close(d) => s.close(&uri(d)),
                    Ev::Save(d) => {
                        write(d, st.open[d].unwrap());
                        s.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(d)}}));
                    }
                }
                st.step(*e);
                s.sync()?;
                cx.ops(1);
                let now: HashMap<String, Value> = s.diags.iter().map(|(k, v)| (plain(&json!(k)).as_str().unwrap().to_owned(), v.clone())).collect();
                for d in 0..f.docs.len() {
                    let got = now.get(plain(&json!(uri(d))).as_str().unwrap());
                    let want = match st.open[d] {
                        Some(_) => self.expected(f, fi, &st, d).diags,
                        None if got.is_none() => continue,
                        None => json!([]),
                    };
                    cx.validated(1);
                    if got != Some(&want) {
                        return Err(format!("after {e:?} the diagnostics of {} are {} instead of {want}", f.docs[d].0, got.cloned().unwrap_or_default()));
                    }
                }
            }
            for d in 0..f.docs.len() {
                if st.open[d].is_some() {
                    let a = self.expected(f, fi, &st, d);
                    interrogate(cx, s, &uri(d), &a, BASE)?;
                }
            }
            for d in 0..f.docs.len() {
                if st.open[d].is_some() {
                    s.close(&uri(d));
                }
            }
            s.sync()?;
            s.diags.clear();
            Ok(())
        });
        *self.pool = pool;
        // and the answers of a server started now
        let r = r.and_then(|_| {
            if !self.memo.fresh.insert(hash(&(fi, &st))) {
                return Ok(());
            }
            cx.state(hash(&(fi, &st)));
            cx.count("fresh_servers", 1);
            let mut s = Srv::start()?;
            for d in 0..f.docs.len() {
                if let Some(k) = st.open[d] {
                    s.open(&uri(d), f.docs[d].1[k]);
                }
            }
            s.sync()?;
            for d in 0..f.docs.len() {
                if st.open[d].is_some() {
                    let a = self.expected(f, fi, &st, d);
                    let got = s.diags.iter().find(|(k, _)| plain(&json!(k)) == plain(&json!(uri(d)))).map(|x| x.1.clone()).unwrap_or_default();
                    if got != a.diags {
                        return Err(format!("a fresh server publishes {got} for {} instead of {}", f.docs[d].0, a.diags));
                    }
                    interrogate(cx, &mut s, &uri(d), &a, BASE).map_err(|e| format!("a fresh server: {e}"))?;
                }
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&dir);
        r
    }
}

fn describe(f: &Family, start: &[Option<usize>], evs: &[Ev]) -> String {
    let mut o = String::from("files");
    for (d, k) in start.iter().enumerate() {
        if let Some(k) = k {
            o.push_str(&format!(" {}={:?}", f.docs[d].0, f.docs[d].1[*k]));
        }
    }
    for e in evs {
        o.push_str(&match *e {
            Ev::Open(d, k) => format!("; open {} {:?}", f.docs[d].0, f.docs[d].1[k]),
            Ev::Change(d, k) => format!("; change {} {:?}", f.docs[d].0, f.docs[d].1[k]),
            Ev::Save(d) => format!("; save {}", f.docs[d].0),
            Ev::Close(d) => format!("; close {}", f.docs[d].0),
        });
    }
    o
}

fn explore(cx: &mut Cx, h: &mut Hist, f: &Family, fi: u64, start: &[Option<usize>], st: &St, evs: &mut Vec<Ev>, encode: bool) {
    if evs.len() == f.depth {
        if cx.mine() {
            let t = describe(f, start, evs);
            cx.case(&t, |cx| h.run(cx, f, fi, start, evs, encode));
        } else {
            cx.skip();
        }
        return;
    }
    for e in st.enabled(f) {
        let mut s = st.clone();
        s.step(e);
        evs.push(e);
        explore(cx, h, f, fi, start, &s, evs, encode);
        evs.pop();
    }
}

fn c19(cx: &mut Cx) {
    let deeper = cx.thorough as usize;
    let a2 = vec![
        "import (y) from \"b.tic\"; export let x : int = y;",
        "export let x : int = 1;",
        "export let x : bool = true;",
        "import (y) from \"b.tic\"; import m from \"./b.tic\"; export let x : int = m.y + let",
    ];
    let b2 = vec![
        "import (x) from \"a.tic\"; export let y : int = x;",
        "export let y : int = 2; let q = 1;",
        "",
        "export let y = \"\";\nexport let z : int = 1;",
    ];
    let fams = vec![
        Family { name: "two_documents", docs: vec![("a.tic", a2.clone()), ("b.tic", b2.clone())], disks: vec![vec![None, None], vec![Some(1), Some(1)], vec![Some(0), Some(0)]], depth: 4 + deeper },
        Family {
            name: "chain",
            docs: vec![
                ("a.tic", vec!["import (y) from \"b.tic\"; export let x = y;", "import (y) from \"b.tic\"; import (z) from \"c.tic\"; export let x : int = y + z;"]),
                ("b.tic", vec!["import (z) from \"c.tic\"; export let y = z;", "export let y : int = 5;"]),
                ("c.tic", vec!["export let z : int = 3;", "export let z : bool = true;", "import (x) from \"a.tic\"; export let z : int = x;"]),
            ],
            disks: vec![vec![Some(0), Some(0), Some(0)], vec![None, Some(0), None]],
            depth: 4 + deeper,
        },
        Family {
            name: "shared_types",
            docs: vec![
                ("a.tic", vec!["import b from \"b.tic\"; import c from \"c.tic\"; export let x : c.t = b.f c.A;", "import c from \"c.tic\"; import b from \"b.tic\"; let x = match b.f c.A with | c.A -> 1 end;"]),
                ("b.tic", vec!["import c from \"c.tic\"; export let f : c.t -> c.t = \\v -> v;", "type t = A; export let f : t -> t = \\v -> v;"]),
                ("c.tic", vec!["type t = export A;", "type t = export A | B;", "export let t : int = 1;"]),
            ],
            disks: vec![vec![None, Some(0), Some(0)]],
            depth: 4 + deeper,
        },
        Family {
            name: "directories",
            docs: vec![
                ("d/a.tic", vec!["import (y) from \"../b.tic\"; export let x : int = y;", "import (y) from \"./../d/../b.tic\"; import (z) from \"e/c.tic\"; export let x : int = y + z;"]),
                ("b.tic", vec!["export let y : int = 1;", "import (z) from \"d/e/c.tic\"; export let y = z;"]),
                ("d/e/c.tic", vec!["export let z : int = 1;", "export let z : string = \"\";"]),
            ],
            disks: vec![vec![None, None, Some(0)]],
            depth: 3 + deeper,
        },
    ];
    let mut pool = Pool::default();
    let mut memo = Memo::default();
    let mut h = Hist { pool: &mut pool, memo: &mut memo };
    let mut fi = 0;
    for f in &fams {
        cx.family(f.name);
        cx.bound(&format!("{}_events", f.name), f.depth);
        for start in &f.disks {
            let st = St { disk: start.clone(), open: vec![None; f.docs.len()] };
            explore(cx, &mut h, f, fi, start, &st, &mut Vec::new(), false);
        }
        fi += 1;
    }
    // names that editors encode differently
    cx.family("names");
    let names = ["b c.tic", "b+c.tic", "b%20c.tic", "b#c.tic", "b?c.tic", "b(c).tic", "b@c.tic", "b,c.tic", "bé.tic", "b&=c.tic", "B.tic", "b", " b.tic"];
    for name in names {
        let text: &'static str = Box::leak(format!("import (y) from \"{name}\"; export let x : int = y;").into_boxed_str());
        let f = Family {
            name: "names",
            docs: vec![("a.tic", vec![text]), (name, vec!["export let y : int = 1;", "export let y : bool = true;"])],
            disks: vec![vec![None, None], vec![None, Some(0)]],
            depth: 3,
        };
        for start in &f.disks {
            for encode in [false, true] {
                let st = St { disk: start.clone(), open: vec![None; 2] };
                explore(cx, &mut h, &f, fi, start, &st, &mut Vec::new(), encode);
            }
        }
        fi += 1;
    }
    // many dependents of one document
    cx.family("many");
    let n = 30;
    let mut docs: Vec<(&'static str, Vec<&'static str>)> = vec![("m0.tic", vec!["export let v : int = 1;", "export let v : bool = true;"])];
    for i in 1..n {
        let text = match i % 3 {
            0 => format!("import (v) from \"m0.tic\"; export let v{i} : int = v;"),
            1 => format!("import m from \"m{}.tic\"; import (v) from \"m0.tic\"; export let w{i} = v;", i - 1),
            _ => format!("import m from \"m{}.tic\"; export let w{i} = m.w{};", i - 1, i - 1),
        };
        docs.push((Box::leak(format!("m{i}.tic").into_boxed_str()), vec![Box::leak(text.into_boxed_str())]));
    }
    let f = Family { name: "many", docs, disks: vec![vec![None; n]], depth: 0 };
    for order in 0..4 {
        let mut evs: Vec<Ev> = (0..n).map(|d| Ev::Open(d, 0)).collect();
        match order {
            1 => evs.reverse(),
            2 => evs.rotate_left(n / 2),
            3 => evs.sort_by_key(|e| matches!(e, Ev::Open(d, _) if d % 2 == 0)),
            _ => {}
        }
        evs.extend([Ev::Change(0, 1), Ev::Close(0), Ev::Open(0, 1), Ev::Save(0), Ev::Close(0), Ev::Close(1), Ev::Open(0, 0), Ev::Close(0)]);
        cx.lazy(|| format!("order {order}"), |cx, _| h.run(cx, &f, fi, &f.disks[0], &evs, false));
    }
    let _ = std::fs::remove_dir_all(cx.scratch.join(format!("h{}", cx.shard)));
}

pub static C19: Check = Check {
    id: "C19",
    run: c19,
    assumptions: &["files change on the disk only by saving open documents", "answers are those of the compiler library on the current contents; what the library answers is decided by C01 to C07"],
    meaning: "a state is a set of open documents with texts and of files, a transition one editing event or request handled by the real server, a validated trace one published list of diagnostics or answer compared with the reference",
    hang_s: 120,
    mem_mb: 0,
};

pub static C20: Check = Check {
    id: "C20",
    run: c20,
    assumptions: &["answers are those of the compiler library at the translated offset"],
    meaning: "a state is a document text, a transition one request at one position, a validated trace one answer compared with the reference line table",
    hang_s: 120,
    mem_mb: 0,
};

pub static C21: Check = Check {
    id: "C21",
    run: c21,
    assumptions: &["messages are well-formed JSON-RPC", "initialize comes before other notifications"],
    meaning: "a state is a history of messages, a transition one message handled by the real server, a validated trace one request answered exactly once",
    hang_s: 120,
    mem_mb: 0,
};

pub static C22: Check = Check {
    id: "C22",
    run: c22,
    assumptions: &["the kinds of the tokens are decided by C03"],
    meaning: "a state is a document text, a transition one message to the real server, a validated trace one token decoded and compared",
    hang_s: 120,
    mem_mb: 0,
};
