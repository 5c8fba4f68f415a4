//! C01, C02, C03, C04: what the front end does with arbitrary text.
use crate::checks::front::{describe, family, real_unit, split_mods, Fam, C09_FAMS, NAMES};
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real;
use crate::refimpl::lex::{lex, K};
use std::collections::BTreeSet;
use ticc::{CompilationUnit, Severity};

/// Small programs that together use every form of the grammar.
pub const TEXTS: &[&str] = &[
    "let x = 1;",
    "export let f : int -> int = \\x -> x + 1; -- c\n",
    "type t a = export A | B a rec;\nexport let r = B 1 A;",
    "export type l a = | N | C a (l a) rec (a -> bool);",
    "let s = \\fold x -> match x with | N -> 0 | C h t -> h + t end;",
    "type l = N | C int rec; export let r = match C 1 N with | N -> ?h | C x y -> x end;",
    "export let r = let y : bool = true; if y then \"s\" else \"\";",
    "export let r = (\\x -> x * 2 |> (\\y -> y / 3)) 4 - 5 % 6 < 7;",
    "import list from \"std/list\"; export let r = list.sum (list.range 1 3);",
    "import (map, option) from \"std/option\"; let f : option int -> option int = map (\\x -> x); export let r = f option.none;",
    "import o (some, none) from \"std/option\"; export let r = match some 1 with | o.some x -> x | none -> 2 end;",
    "let id : a -> a = \\x -> x; let k = id id 5; export let r = id k == k;",
    "let x = x; let y = 1 2; export let z = w y;",
    "export let r : o.t (a -> string) = m.v; type u = D e.f (int) rec;",
];

/// Tokens of every kind, as written.
pub const TOKENS: &[&str] = &[
    "import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "true", "fold", "rec",
    "x", "A", "?h", "1", "\"s\"", "=", "|", ",", ".", "(", ")", ":", ";", "\\", "->", "+", "<", "==", "|>", "!", "\"", "-- c\n",
];

const ALPHABET: &[char] = &['a', '_', '0', '1', '"', '?', '-', '>', '<', '=', '!', '|', '\\', ' ', '\n', '\r', '.', '+', '\t', 'é', '('];
const CALPHA: &[char] = &['a', '1', '"', '?', '-', '=', '\\', ' ', '\n', '.', 'é', '(', ';', ':', '|', '\u{1F600}'];

/// Calls `f` for every sequence of exactly `n` of `k` things.
pub fn sequences(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0usize; n];
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

fn char_family(cx: &mut Cx, name: &str, alpha: &[char], max: usize, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    cx.family(name);
    cx.bound(&format!("{name}_length"), max);
    for n in 0..=max {
        sequences(alpha.len(), n, &mut |v| cx.lazy(|| v.iter().map(|i| alpha[*i]).collect(), |cx, s| body(cx, s)));
    }
}

fn token_family(cx: &mut Cx, name: &str, pre: &str, post: &str, toks: &[&str], max: usize, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    cx.family(name);
    cx.bound(&format!("{name}_length"), max);
    for n in 0..=max {
        sequences(toks.len(), n, &mut |v| {
            cx.lazy(
                || {
                    let mut s = pre.to_owned();
                    for i in v {
                        s.push_str(toks[*i]);
                        s.push(' ');
                    }
                    s.push_str(post);
                    s
                },
                |cx, s| body(cx, s),
            )
        });
    }
}

/// Every text one token away from `text`, every truncation, and swaps.
pub fn mutants(cx: &mut Cx, text: &str, toks: &[&str], body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    cx.case(text, |cx| body(cx, text));
    let ts: Vec<(usize, usize)> = lex(text).iter().filter(|t| !matches!(t.k, K::Space | K::Newline)).map(|t| (t.s, t.e)).collect();
    let put = |cx: &mut Cx, s: usize, e: usize, with: &str, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>| {
        cx.lazy(|| format!("{} {} {}", &text[..s], with, &text[e..]), |cx, t| body(cx, t));
    };
    for (s, e) in &ts {
        put(cx, *s, *e, "", body);
        put(cx, *s, *e, &format!("{0} {0}", &text[*s..*e]), body);
        for t in toks {
            put(cx, *s, *e, t, body);
            put(cx, *s, *s, t, body);
        }
    }
    for w in ts.windows(2) {
        let (a, b) = (&text[w[0].0..w[0].1], &text[w[1].0..w[1].1]);
        put(cx, w[0].0, w[1].1, &format!("{b} {a}"), body);
    }
    // whole ranges of tokens left out and repeated
    for k in 2..=4 {
        for w in ts.windows(k) {
            let (s, e) = (w[0].0, w[k - 1].1);
            put(cx, s, e, "", body);
            put(cx, e, e, &text[s..e], body);
        }
    }
    for t in toks {
        put(cx, text.len(), text.len(), t, body);
    }
}

fn truncations(cx: &mut Cx, text: &str, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    for (i, _) in text.char_indices() {
        cx.lazy(|| text[..i].to_owned(), |cx, t| body(cx, t));
        cx.lazy(|| text[i..].to_owned(), |cx, t| body(cx, t));
    }
}

// ---- answers -------------------------------------------------------------

pub type Sp = (usize, usize);

fn sp(s: ticc::Span) -> Sp {
    (s.start().source_pos(), s.end().source_pos())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Query {
    Diagnostics,
    Tokens,
    Info(usize),
    Definition(usize),
    References(usize),
    Completions(usize),
    EmitIr,
    Run,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Diagnostics(Vec<(Sp, bool, String)>),
    Tokens(Vec<(Sp, String)>),
    Info(Option<(Sp, String)>),
    Definition(Option<Sp>),
    References(Option<Vec<Sp>>),
    Completions(Option<Vec<String>>),
    Text(String),
}

pub fn ask(u: &mut CompilationUnit, q: Query) -> Answer {
    match q {
        Query::Diagnostics => Answer::Diagnostics(u.diagnostics().map(|d| (sp(d.span), d.severity == Severity::Error, d.message)).collect()),
        Query::Tokens => Answer::Tokens(u.tokens().map(|t| (sp(t.span), format!("{:?}", t.kind))).collect()),
        Query::Info(p) => Answer::Info(u.info(real::pos(p)).map(|i| (sp(i.span), i.doc))),
        Query::Definition(p) => Answer::Definition(u.find_definition(real::pos(p)).map(sp)),
        Query::References(p) => Answer::References(u.find_references(real::pos(p)).map(|v| v.into_iter().map(sp).collect())),
        Query::Completions(p) => Answer::Completions(u.completions(real::pos(p)).map(|v| v.into_iter().map(|c| c.name).collect())),
        Query::EmitIr => Answer::Text(if real::has_errors(u) { String::new() } else { u.emit_ir() }),
        Query::Run => {
            if real::has_errors(u) {
                return Answer::Text(String::new());
            }
            let mut t = String::new();
            for r in real::RUNNERS {
                t.push_str(&format!("{}\n", real::run(u, r)));
            }
            Answer::Text(t)
        }
    }
}

fn good_span(src: &str, s: Sp) -> Result<(), String> {
    if s.0 <= s.1 && s.1 <= src.len() && src.is_char_boundary(s.0) && src.is_char_boundary(s.1) {
        Ok(())
    } else {
        Err(format!("span {s:?} is not a piece of the text of length {}", src.len()))
    }
}

fn good(src: &str, a: &Answer) -> Result<(), String> {
    match a {
        Answer::Diagnostics(v) => v.iter().try_for_each(|d| good_span(src, d.0)),
        Answer::Tokens(v) => v.iter().try_for_each(|d| good_span(src, d.0)),
        Answer::Info(v) => v.iter().try_for_each(|d| good_span(src, d.0)),
        Answer::Definition(v) => v.iter().try_for_each(|d| good_span(src, *d)),
        Answer::References(v) => v.iter().flatten().try_for_each(|d| good_span(src, *d)),
        Answer::Completions(_) | Answer::Text(_) => Ok(()),
    }
}

pub fn offsets(src: &str) -> Vec<usize> {
    (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect()
}

fn c01_case(or: &Oracle, cx: &mut Cx, src: &str) -> Result<(), String> {
    or.reset();
    let mut u = real_unit(&[], src, true);
    let d = ask(&mut u, Query::Diagnostics);
    let failed = matches!(&d, Answer::Diagnostics(v) if v.iter().any(|d| d.1));
    if matches!(or.compile(src), Verdict::Syntax) && !failed {
        return Err("the text is not a program but no error is reported".into());
    }
    good(src, &d)?;
    let t = ask(&mut u, Query::Tokens);
    good(src, &t).map_err(|e| format!("tokens: {e}"))?;
    // inside of characters and past the end there may be no answer, but no crash
    let at: Vec<usize> = (0..=src.len() + 1).chain([u32::MAX as usize]).collect();
    for p in &at {
        for q in [Query::Info(*p), Query::Definition(*p), Query::References(*p), Query::Completions(*p)] {
            let a = crate::engine::guard(|| ask(&mut u, q)).map_err(|e| format!("{q:?}: panic: {e}"))?;
            good(src, &a).map_err(|e| format!("{q:?}: {e}"))?;
        }
    }
    cx.ops(2 + 4 * at.len() as u64);
    cx.validated(2 + 4 * at.len() as u64);
    Ok(())
}

/// A long item list that keeps the parser busy at every nesting depth.
fn deep(n: usize, open: &str, mid: &str, close: &str) -> String {
    format!("export let r = {}{}{};", open.repeat(n), mid, close.repeat(n))
}

const EXPR_TOKENS: &[&str] = &["x", "1", "(", ")", "\\", "fold", "->", "let", "=", ";", ":", "int", "if", "then", "else", "match", "with", "end", "|", "+", "<", "|>", ".", "?h", "A"];
const ITEM_TOKENS: &[&str] = &["import", "from", "export", "let", "type", "x", "m", "A", "\"m\"", "(", ")", ",", ";", "=", "|", "rec", "int", ":", "->", "1", "."];
const TYPE_TOKENS: &[&str] = &["int", "bool", "string", "rec", "t", "a", "->", "(", ")", ".", "m", "1", "fold", ","];

fn c01(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c01_case(&or, cx, s);
    let n = cx.pick(5, 6);
    char_family(cx, "characters", CALPHA, n, body);
    let n = cx.pick(3, 4);
    token_family(cx, "tokens", "", "", TOKENS, n, body);
    token_family(cx, "tokens_after_items", "import m from \"std/list\"; type t a = A rec | B a; let x = 1; ", "let y = x", TOKENS, n - 1, body);
    token_family(cx, "tokens_in_expression", "type t = A; let x = 1; export let r = ", ";", EXPR_TOKENS, n, body);
    token_family(cx, "tokens_in_type", "type t a = A; let x : ", " = ?h;", TYPE_TOKENS, n, body);
    token_family(cx, "tokens_in_constructors", "type t a = A ", " | B a;", TYPE_TOKENS, n, body);
    token_family(cx, "tokens_in_match", "type t = A | B int; export let r = match A with | ", " -> 1 end;", EXPR_TOKENS, n, body);
    token_family(cx, "tokens_in_import", "import ", "export let r = 1;", ITEM_TOKENS, n, body);
    cx.family("mutants");
    for t in TEXTS {
        mutants(cx, t, TOKENS, body);
    }
    cx.family("truncations");
    for t in TEXTS {
        truncations(cx, t, body);
    }
    cx.family("deep");
    cx.bound("nesting", 300);
    for n in [10usize, 50, 100, 300] {
        for (o, m, c) in [("(", "1", ")"), ("(", "", ""), ("\\x -> ", "x", ""), ("if true then 1 else ", "2", ""), ("let x = 1; ", "x", ""), ("let x = ", "1", "; x"), ("1 + ", "1", ""), ("", "1", " + 1"), ("?h ", "1", ""), ("match 1 with | A -> ", "1", " end"), ("match 1 with | A ->", "", "")] {
            cx.lazy(|| deep(n, o, m, c), |cx, s| body(cx, s));
        }
    }
    {
        cx.family("two_edits");
        let len = cx.pick(45, 75);
        cx.bound("two_edits_text_length", len);
        for t in TEXTS.iter().filter(|t| t.len() < len) {
            let ts: Vec<(usize, usize)> = lex(t).iter().filter(|t| !matches!(t.k, K::Space | K::Newline)).map(|t| (t.s, t.e)).collect();
            for (i, a) in ts.iter().enumerate() {
                for b in &ts[i + 1..] {
                    for x in TOKENS.iter().chain([&""]) {
                        for y in TOKENS.iter().chain([&""]) {
                            cx.lazy(|| format!("{} {x} {} {y} {}", &t[..a.0], &t[a.1..b.0], &t[b.1..]), |cx, s| body(cx, s));
                        }
                    }
                }
            }
        }
    }
}

// ---- C02 -----------------------------------------------------------------

/// Programs whose later parts depend on earlier ones in different ways.
const HIST: &[&str] = &[
    "let x = 1; let y = x + 1; export let z = y;",
    "let f : a -> a = \\x -> x; let g = f f; export let h = g 1;",
    "type t = A | B t; let v = B A; export let m = match v with | A -> 1 | B _ -> 2 end;",
    "let x = true; let x = 2; export let y = x;",
    "let bad = 1 2; let y = bad; export let z = y + 1;",
    "let u = w; type t = C; let w = C; let q = w;",
    "let a = ?h; let b = a; export let c : int = b;",
    "import (map, none) from \"std/option\"; let r = map (\\x -> x) none; export let s : int = 1;",
    "import l from \"std/list\"; export let r = l.len (l.cons 1 l.nil); let q = l.bad;",
    "let x = (; let y = 1; export let z = x y;",
    "type t a = N | C a rec; let s = \\fold x -> match x with | N -> 0 | C h r -> h + r end; export let k = s (C 2 N);",
    "let n = \\x -> x; let o = n 1; let p = n; export let q = p 2;",
];

fn c02_case(cx: &mut Cx, src: &str, depth: usize) -> Result<(), String> {
    let at = offsets(src);
    let mut qs = vec![Query::Diagnostics, Query::Tokens, Query::EmitIr, Query::Run];
    // one offset per token, and both ends of it
    let mut pts: BTreeSet<usize> = lex(src).iter().filter(|t| !matches!(t.k, K::Space | K::Newline)).map(|t| t.s).collect();
    pts.insert(src.len());
    for p in at.iter().filter(|p| pts.contains(p)) {
        qs.push(Query::Info(*p));
        qs.push(Query::Definition(*p));
        qs.push(Query::References(*p));
        qs.push(Query::Completions(*p));
    }
    let fresh: Vec<Answer> = qs.iter().map(|q| ask(&mut real_unit(&[], src, true), *q)).collect();
    cx.ops(qs.len() as u64);
    fn go(cx: &mut Cx, src: &str, qs: &[Query], fresh: &[Answer], hist: &mut Vec<usize>, depth: usize) -> Result<(), String> {
        // replay the history on a fresh unit, then check that the answers agree
        if hist.len() == depth {
            let mut u = real_unit(&[], src, true);
            for (k, h) in hist.iter().enumerate() {
                let a = ask(&mut u, qs[*h]);
                if a != fresh[*h] {
                    let done: Vec<_> = hist[..k].iter().map(|h| qs[*h]).collect();
                    return Err(format!("{:?} answers {a:?} after {done:?}, but {:?} when asked first", qs[*h], fresh[*h]));
                }
            }
            cx.ops(depth as u64);
            cx.validated(depth as u64);
            cx.count("histories", 1);
            return Ok(());
        }
        for i in 0..qs.len() {
            hist.push(i);
            go(cx, src, qs, fresh, hist, depth)?;
            hist.pop();
        }
        Ok(())
    }
    go(cx, src, &qs, &fresh, &mut Vec::new(), depth)?;
    // every history that asks at each offset in order, then everything
    for first in 0..4 {
        let mut u = real_unit(&[], src, true);
        for p in &at {
            let q = [Query::Info(*p), Query::Definition(*p), Query::References(*p), Query::Completions(*p)][first];
            ask(&mut u, q);
        }
        for (i, q) in qs.iter().enumerate() {
            let a = ask(&mut u, *q);
            if a != fresh[i] {
                return Err(format!("{q:?} answers {a:?} after asking at every offset in turn, but {:?} when asked first", fresh[i]));
            }
        }
        cx.ops((at.len() + qs.len()) as u64);
    }
    Ok(())
}

/// All pairs of an early query and any later query.
fn c02(cx: &mut Cx) {
    cx.family("all_pairs");
    for s in HIST.iter().chain(TEXTS) {
        cx.case(s, |cx| c02_case(cx, s, 2));
    }
    if cx.thorough {
        cx.family("all_triples");
        for s in HIST.iter().filter(|s| s.len() < 90) {
            let t = format!("{s} ");
            cx.case(&t, |cx| c02_case(cx, &t, 3));
        }
    }
    // generated programs: each early question first, then the final answers
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, text| {
        let (mods, src) = split_mods(text);
        let items: Vec<usize> = src.match_indices(';').map(|m| m.0).collect();
        let fresh: Vec<Answer> = [Query::Diagnostics, Query::Tokens, Query::EmitIr].iter().map(|q| ask(&mut real_unit(&mods, &src, true), *q)).collect();
        for p in items {
            for q in [Query::Info(p), Query::References(p.saturating_sub(1)), Query::Completions(p)] {
                let mut u = real_unit(&mods, &src, true);
                ask(&mut u, q);
                for (i, f) in [Query::Diagnostics, Query::Tokens, Query::EmitIr].iter().enumerate() {
                    let a = ask(&mut u, *f);
                    if a != fresh[i] {
                        return Err(format!("{f:?} answers {a:?} after {q:?}, but {:?} when asked first", fresh[i]));
                    }
                }
                cx.ops(4);
                cx.validated(3);
            }
        }
        Ok(())
    };
    for f in NAMES {
        let smaller = Fam { name: f.name, rules: f.rules, quick: f.quick.saturating_sub(2), thorough: f.thorough.saturating_sub(1) };
        family(cx, &smaller, body);
    }
    for f in C09_FAMS {
        let smaller = Fam { name: f.name, rules: f.rules, quick: f.quick.saturating_sub(2), thorough: f.thorough.saturating_sub(1) };
        family(cx, &smaller, body);
    }
    // texts that are no programs: each early question at each offset, then the final answers
    let broken: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, src| {
        const LAST: [Query; 3] = [Query::Diagnostics, Query::Tokens, Query::EmitIr];
        let fresh: Vec<Answer> = LAST.iter().map(|q| ask(&mut real_unit(&[], src, true), *q)).collect();
        let mut early: Vec<Query> = LAST.to_vec();
        for p in offsets(src) {
            early.extend([Query::Info(p), Query::Definition(p), Query::References(p), Query::Completions(p)]);
        }
        for q in early {
            let mut u = real_unit(&[], src, true);
            ask(&mut u, q);
            for (l, f) in LAST.iter().zip(&fresh) {
                let a = ask(&mut u, *l);
                if a != *f {
                    return Err(format!("{l:?} answers {a:?} after {q:?}, but {f:?} when asked first"));
                }
            }
            cx.ops(4);
            cx.validated(3);
        }
        Ok(())
    };
    let n = cx.pick(3, 4);
    char_family(cx, "broken_characters", CALPHA, n + 1, broken);
    token_family(cx, "broken_tokens", "", "", TOKENS, n, broken);
    token_family(cx, "broken_tokens_after_items", "let x = 1; ", "", ITEM_TOKENS, n, broken);
    cx.family("mutants");
    for t in HIST {
        mutants(cx, t, &["x", "(", ";"], broken);
    }
    cx.family("truncations");
    for t in HIST.iter().chain(TEXTS) {
        truncations(cx, t, broken);
    }
}

// ---- C03 -----------------------------------------------------------------

fn category(k: K) -> Option<&'static str> {
    match k {
        K::Kw(_) => Some("Keyword"),
        K::Punct(_) => Some("Punctuation"),
        K::Op(_) => Some("Operator"),
        K::Number => Some("Number"),
        K::Str => Some("String"),
        K::Comment => Some("Comment"),
        _ => None,
    }
}

fn c03_text(cx: &mut Cx, src: &str) -> Result<(), String> {
    let mut u = real_unit(&[], src, true);
    let got: Vec<(Sp, String)> = u.tokens().map(|t| (sp(t.span), format!("{:?}", t.kind))).collect();
    cx.ops(1);
    for w in got.windows(2) {
        if w[0].0 .1 > w[1].0 .0 {
            return Err(format!("tokens {:?} and {:?} overlap or are out of order", w[0], w[1]));
        }
    }
    if let Some(e) = got.iter().find(|t| t.0 .0 >= t.0 .1 || good_span(src, t.0).is_err()) {
        return Err(format!("bad token {e:?}"));
    }
    let all = lex(src);
    let end = all.iter().find(|t| t.k == K::Error).map_or(usize::MAX, |t| t.s);
    let want: Vec<_> = all.iter().filter(|t| t.e <= end && !matches!(t.k, K::Space | K::Newline | K::Error)).collect();
    let got: Vec<_> = got.into_iter().filter(|t| t.0 .1 <= end).collect();
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("{:?} at {}..{} is not highlighted", &src[w.s..w.e], w.s, w.e)) };
        if g.0 != (w.s, w.e) {
            return Err(format!("the token {:?} at {}..{} is highlighted as {:?}", &src[w.s..w.e], w.s, w.e, g));
        }
        if let Some(c) = category(w.k) {
            if g.1 != c {
                return Err(format!("the token {:?} at {}..{} is highlighted as {}, it is a {c}", &src[w.s..w.e], w.s, w.e, g.1));
            }
        } else if ["Keyword", "Punctuation", "Operator", "Number", "String", "Comment"].contains(&g.1.as_str()) {
            return Err(format!("the name {:?} at {}..{} is highlighted as {}", &src[w.s..w.e], w.s, w.e, g.1));
        }
    }
    if got.len() > want.len() {
        return Err(format!("{:?} is no token of the text", got[want.len()]));
    }
    cx.validated(1);
    Ok(())
}

/// In programs without errors each name has the category of what it names.
fn c03_names(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    let (mods, src) = split_mods(text);
    if mods.is_empty() {
        c03_text(cx, &src)?;
    }
    or.reset();
    let u = match or.compile_mods(&mods, &src) {
        Verdict::Ok(u) => u,
        _ => {
            cx.count("not_a_program", 1);
            return Ok(());
        }
    };
    let mut r = real_unit(&mods, &src, true);
    let got: Vec<(Sp, String)> = r.tokens().map(|t| (sp(t.span), format!("{:?}", t.kind))).collect();
    cx.ops(1);
    for t in lex(&src).into_iter().filter(|t| t.k == K::Name) {
        let span = (t.s, t.e);
        let Some((_, k)) = got.iter().find(|g| g.0 == span) else {
            return Err(format!("{:?} at {span:?} is not highlighted", &src[t.s..t.e]));
        };
        let declared: Vec<usize> = u.defs.iter().map(|d| d.sym).collect();
        let mut may: Vec<String> = u.defs.iter().filter(|d| d.span == span).map(|d| or.kind_name(d.sym)).collect();
        if let Some(s) = u.ref_by_span.get(&span) {
            if !declared.contains(s) {
                continue;
            }
            may = vec![or.kind_name(*s)];
        }
        if may.is_empty() {
            continue;
        }
        if !may.contains(k) {
            return Err(format!("{:?} at {span:?} is highlighted as {k}, it is a {may:?}", &src[t.s..t.e]));
        }
        cx.validated(1);
    }
    Ok(())
}

fn c03(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c03_text(cx, s);
    let n = cx.pick(5, 6);
    char_family(cx, "characters", ALPHABET, n, body);
    cx.family("keywords");
    let parts = ["", "a", "_", "0", "?", "\"", "A", "-", "--", "é", " ", "\n", "\r\n", "=", "."];
    for k in crate::refimpl::lex::KEYWORDS {
        for i in 0..=k.len() {
            for a in parts {
                for b in parts {
                    for c in ["", "x", " x", "\nx"] {
                        cx.lazy(|| format!("{a}{}{b}{c}", &k[..i]), |cx, s| body(cx, s));
                        cx.lazy(|| format!("{a}{}{b}{c}", &k[i..]), |cx, s| body(cx, s));
                    }
                }
            }
        }
    }
    cx.family("token_triples");
    let toks: Vec<&str> = TOKENS.iter().copied().chain(["*", "-", "/", "%", "<=", ">", ">=", "!=", "bool", "string", "false", "_", "0x1F", "_9", "?", "\r\n", "\n", "\"é\""]).collect();
    sequences(toks.len(), 3, &mut |v| {
        for sep in 0..4 {
            cx.lazy(|| format!("{}{}{}{}{}", toks[v[0]], [" ", ""][sep & 1], toks[v[1]], [" ", ""][sep >> 1], toks[v[2]]), |cx, s| body(cx, s));
        }
    });
    cx.family("mutants");
    for t in TEXTS {
        mutants(cx, t, TOKENS, body);
    }
    let names: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c03_names(&or, cx, s);
    cx.family("programs");
    for t in TEXTS {
        cx.case(t, |cx| names(cx, t));
    }
    crate::checks::front::long_names(cx, names);
    for f in NAMES {
        let smaller = Fam { name: f.name, rules: f.rules, quick: f.quick - 1, thorough: f.thorough };
        family(cx, &smaller, names);
    }
    for f in C09_FAMS {
        let smaller = Fam { name: f.name, rules: f.rules, quick: f.quick.saturating_sub(2), thorough: f.thorough.saturating_sub(1) };
        family(cx, &smaller, names);
    }
}

// ---- C04 -----------------------------------------------------------------

/// A text with a syntax error has an error; the errors of any other text are
/// exactly those of the reference.
fn c04_case(or: &Oracle, cx: &mut Cx, src: &str) -> Result<(), String> {
    let (got, want, raw) = crate::checks::front::error_spans(or, cx, src);
    cx.validated(1);
    match want {
        None if got.is_empty() => Err("the text is not derivable from the grammar but is accepted".into()),
        None => {
            let at = crate::refimpl::parse::failure(src).expect("the text is underivable");
            // how much of a bad token is marked is not decided
            if !got.iter().any(|g| g.0 == at.0) {
                return Err(format!("no error at {at:?} {:?}, where the text stops being a beginning of a program; errors: {raw:?}", src.get(at.0..at.1)));
            }
            cx.count("underivable", 1);
            Ok(())
        }
        Some(w) if w.is_empty() && !got.is_empty() => Err(format!("the text is a correct program but is rejected: {raw:?}")),
        Some(w) if !w.is_empty() && got.is_empty() => Err(format!("errors expected at {}", describe(src, &w))),
        Some(w) => {
            cx.count("derivable", 1);
            // an error where the reference has none means the text was read differently
            if let Some(x) = got.iter().find(|g| !w.contains(g)) {
                return Err(format!("error at {x:?} {:?}, but errors belong at {}", src.get(x.0..x.1), describe(src, &w)));
            }
            Ok(())
        }
    }
}

const BINOPS: [&str; 12] = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"];

fn c04_run(or: &Oracle, cx: &mut Cx, src: &str) -> Result<(), String> {
    or.reset();
    let mut u = real_unit(&[], src, false);
    cx.ops(1);
    match or.compile(src) {
        Verdict::Syntax if real::has_errors(&mut u) => Ok(()),
        Verdict::Syntax => Err("the text is not derivable from the grammar but is accepted".into()),
        Verdict::Errors(e) => {
            if !real::has_errors(&mut u) {
                return Err(format!("accepted, but read by the grammar it has errors at {:?}", e.errors));
            }
            Ok(())
        }
        Verdict::Ok(w) => {
            let e = real::errors(&mut u);
            if !e.is_empty() {
                return Err(format!("rejected, but read by the grammar it is correct: {e:?}"));
            }
            let want = or.run(&w).expect("chains terminate");
            let got = real::run(&mut u, ticc::Runner::Treewalk);
            cx.ops(1);
            cx.validated(1);
            cx.count("evaluated", 1);
            if got != want {
                return Err(format!("{got}, read by the grammar it {want}"));
            }
            Ok(())
        }
    }
}

const GRAMMAR: &[Fam] = &[
    Fam {
        name: "expressions",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "type t = A | B t; let x = 1; export let r = <E>;"),
            ('E', 1, "x"),
            ('E', 1, "1"),
            ('E', 1, "true"),
            ('E', 1, "\"\""),
            ('E', 1, "?h"),
            ('E', 1, "(<E>)"),
            ('E', 1, "<E> <E>"),
            ('E', 1, "<E> + <E>"),
            ('E', 1, "<E> * <E>"),
            ('E', 1, "<E> < <E>"),
            ('E', 1, "<E> |> <E>"),
            ('E', 1, "\\y -> <E>"),
            ('E', 1, "\\fold y -> <E>"),
            ('E', 1, "let x = <E>; <E>"),
            ('E', 1, "let x : <T> = <E>; <E>"),
            ('E', 1, "if <E> then <E> else <E>"),
            ('E', 1, "match <E> with <C> end"),
            ('E', 1, "m.x"),
            ('C', 1, "| A -> <E>"),
            ('C', 1, "A -> <E>"),
            ('C', 1, "B y -> <E>"),
            ('C', 1, "| m.B y -> <E>"),
            ('C', 1, ""),
            ('C', 1, "<C> <C>"),
            ('C', 1, "<C> | B y -> <E>"),
            ('T', 1, "int"),
            ('T', 1, "t"),
            ('T', 1, "(int)"),
            ('T', 1, "int -> <T>"),
        ],
    },
    Fam {
        name: "items",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "<I>"),
            ('I', 1, "<X> let <N> = 1;"),
            ('I', 1, "<X> let x : <T> = ?h;"),
            ('I', 1, "<X> type <N> = <C>;"),
            ('I', 1, "<X> type t a = <C>;"),
            ('I', 1, "<X> type t <N> <N> = A;"),
            ('I', 1, "import <N> from \"std/option\";"),
            ('I', 1, "import <N> (<L>) from \"std/option\";"),
            ('I', 1, "import (<L>) from \"std/option\";"),
            ('I', 1, "import from \"std/option\";"),
            ('I', 1, "<I> <I>"),
            ('X', 0, ""),
            ('X', 1, "export"),
            ('X', 1, "export export"),
            ('N', 0, "x"),
            ('N', 1, "map"),
            ('N', 1, "1"),
            ('N', 1, ""),
            ('L', 0, "map"),
            ('L', 1, ""),
            ('L', 1, "map,"),
            ('L', 1, "<L>, some"),
            ('L', 1, "<L> some"),
            ('C', 0, "A"),
            ('C', 1, ""),
            ('C', 1, "export A"),
            ('C', 1, "| A"),
            ('C', 1, "<C> | B <F>"),
            ('C', 1, "<C> |"),
            ('C', 1, "<C> | export B <F>"),
            ('F', 1, "int"),
            ('F', 1, "rec"),
            ('F', 1, "t"),
            ('F', 1, "t int"),
            ('F', 1, "(t <F>)"),
            ('F', 1, "(int -> <T>)"),
            ('F', 1, "o.x"),
            ('F', 1, "<F> <F>"),
            ('F', 1, "->"),
            ('T', 1, "int"),
            ('T', 1, "a"),
            ('T', 1, "t <F>"),
            ('T', 1, "<T> -> <T>"),
            ('T', 1, "(<T>)"),
            ('T', 1, "<F> <F>"),
        ],
    },
];

fn c04(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c04_case(&or, cx, s);
    let n = cx.pick(5, 6);
    token_family(cx, "expression_tokens", "type t = A; let x = 1; export let r = ", ";", EXPR_TOKENS, n, body);
    token_family(cx, "item_tokens", "", "", ITEM_TOKENS, n - 1, body);
    token_family(cx, "import_tokens", "import ", "", &["x", "(", ")", ",", "from", "\"std/option\"", ";", ".", "import"], n + 1, body);
    token_family(cx, "type_tokens", "type t a = A; let x : ", " = ?h;", TYPE_TOKENS, n, body);
    token_family(cx, "constructor_tokens", "type t a = ", ";", &["A", "|", "export", "rec", "int", "(", ")", "->", "t", ".", ","], n, body);
    token_family(cx, "match_tokens", "type t = A | B int; let x = A; export let r = match x with ", " end;", &["|", "A", "B", "x", "->", "1", "_", ".", "(", ")", "match", "with", "end"], n, body);
    for f in GRAMMAR {
        family(cx, f, body);
    }
    cx.family("inside_tokens");
    let parts = ["a", "_", "0", "Z", "'", "$", "@", "#", "&", "`", "~", "[", "{", "\\", "\"", "\n", "\r", "\t", "\u{e9}", "?", "-", ">", "!", "=", "|", ".", "%", "/"];
    for n in 1..=3 {
        sequences(parts.len(), n, &mut |v| {
            let t: String = v.iter().map(|i| parts[*i]).collect();
            cx.lazy(|| format!("let a = 1; export let r = a{t};"), |cx, s| body(cx, s));
            cx.lazy(|| format!("let a{t}a = 1; export let r = 2;"), |cx, s| body(cx, s));
            cx.lazy(|| format!("export let r = \"a{t}a\";"), |cx, s| body(cx, s));
            cx.lazy(|| format!("export let r = ?{t};"), |cx, s| body(cx, s));
            cx.lazy(|| format!("-- {t}a\nexport let r = 1; -- {t}"), |cx, s| body(cx, s));
            cx.lazy(|| format!("export let r = 1{t};"), |cx, s| body(cx, s));
        });
    }
    cx.family("between_tokens");
    let gaps = ["", " ", "\t", "\n", "\r", "\r\n", "\n\r", "--", "-- c\n", "--\r\n", "\u{a0}", "\u{c}", "  "];
    sequences(gaps.len(), 5, &mut |v| cx.lazy(|| format!("let{}x{}={}1{};{}", gaps[v[0]], gaps[v[1]], gaps[v[2]], gaps[v[3]], gaps[v[4]]), |cx, s| body(cx, s)));
    cx.family("mutants");
    let more = [
        "export let r = \\fold x -> let y : int -> int = \\z -> if z < 1 then x z else 2; y;",
        "export type t a b = export A (t a b) rec | B; let f : (a -> b) -> t a (t b a) = ?h;",
        "import o from \"std/option\"; let f : o.Option int -> int = \\v -> match v with | o.Some x -> x | o.None -> 2 end; export let r = f (o.map (\\x -> x) o.None);",
        "type N = Z | S rec; export let f : N -> int = \\fold n -> match n with | Z -> 0 | S m -> 1 + m end;",
        "import a (b, c) from \"std/x\"; export let d : a.t (a.u int) = match a.v with | a.A x y -> x | B -> a.w end;",
    ];
    for t in TEXTS.iter().chain(&more) {
        mutants(cx, t, TOKENS, body);
    }
    // operators
    let run: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c04_run(&or, cx, s);
    let n = cx.pick(4, 5);
    cx.bound("operator_chain", n);
    cx.family("operator_chains");
    let operands = ["7", "f 5", "3", "9 ", "f 2", "4"];
    for k in 1..=n {
        sequences(BINOPS.len(), k, &mut |v| {
            cx.lazy(
                || {
                    let mut s = String::from("let f = \\x -> x + 10; export let r = 20");
                    for (i, o) in v.iter().enumerate() {
                        s.push_str(&format!(" {} {}", BINOPS[*o], if BINOPS[*o] == "|>" { "f" } else { operands[i] }));
                    }
                    s.push(';');
                    s
                },
                |cx, s| run(cx, s),
            );
        });
    }
    cx.family("operators_and_forms");
    let forms = ["7", "f 5", "\\y -> y * 3", "(\\y -> y) 2", "if 1 < 2 then 5 else 6", "let z = 8; z", "(2 + 3)", "match A 3 with | A q -> q end", "f", "h 1 2", "true", "\"s\""];
    for k in 1..=2 {
        sequences(BINOPS.len(), k, &mut |v| {
            sequences(forms.len(), k + 1, &mut |w| {
                cx.lazy(
                    || {
                        let mut s = format!("type t = A int; let f = \\x -> x + 10; let h = \\x -> \\y -> x - y; export let r = {}", forms[w[0]]);
                        for (i, o) in v.iter().enumerate() {
                            s.push_str(&format!(" {} {}", BINOPS[*o], forms[w[i + 1]]));
                        }
                        s.push(';');
                        s
                    },
                    |cx, s| run(cx, s),
                );
            });
        });
    }
}

const MEANING: &str = "a state is a distinct text, a transition one query of the real front end on it, a validated trace one answer compared with what it must be";
const ASSUMPTIONS: &[&str] = &["the reference lexer, parser and checker in harness/src/refimpl define the language; they share no code with /repo", "texts outside the enumerated families are not covered; within a family the enumeration is complete up to the stated bound"];

pub static C01: Check = Check { id: "C01", run: c01, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C02: Check = Check { id: "C02", run: c02, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 120, mem_mb: 3000 };
pub static C03: Check = Check { id: "C03", run: c03, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C04: Check = Check { id: "C04", run: c04, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
