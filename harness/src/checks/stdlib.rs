//! C24: the standard library against plain Rust.
use super::arith::lines;
use crate::engine::{Check, Cx};

/// A value of the library's types.
#[derive(Clone, PartialEq, Debug)]
enum D {
    I(u64),
    B(bool),
    S(Vec<u8>),
    L(Vec<D>),
    O(Option<Box<D>>),
    R(Result<Box<D>, Box<D>>),
}
use D::*;

fn some(d: D) -> D {
    O(Some(Box::new(d)))
}
fn none() -> D {
    O(None)
}
fn ok(d: D) -> D {
    R(Ok(Box::new(d)))
}
fn err(d: D) -> D {
    R(Err(Box::new(d)))
}
fn ints(v: impl IntoIterator<Item = u64>) -> D {
    L(v.into_iter().map(I).collect())
}

impl D {
    fn expr(&self) -> String {
        match self {
            I(n) => n.to_string(),
            B(b) => b.to_string(),
            S(s) => {
                let mut parts: Vec<String> = Vec::new();
                let mut cur = String::new();
                for &c in s {
                    if (32..127).contains(&c) && c != b'"' && c != b'\\' {
                        cur.push(c as char);
                    } else {
                        if !cur.is_empty() {
                            parts.push(format!("\"{}\"", std::mem::take(&mut cur)));
                        }
                        parts.push(if c == 10 { "str.newline".into() } else { format!("(str.fromChar {c})") });
                    }
                }
                if !cur.is_empty() || parts.is_empty() {
                    parts.push(format!("\"{cur}\""));
                }
                let mut it = parts.into_iter().rev();
                let last = it.next().unwrap();
                it.fold(last, |acc, p| format!("(str.concat {p} {acc})"))
            }
            L(v) => v.iter().rev().fold("lst.Nil".into(), |acc, x| format!("(lst.Cons {} {acc})", x.expr())),
            O(None) => "opt.None".into(),
            O(Some(x)) => format!("(opt.Some {})", x.expr()),
            R(Ok(x)) => format!("(res.Ok {})", x.expr()),
            R(Err(x)) => format!("(res.Err {})", x.expr()),
        }
    }
    fn show(&self) -> String {
        self.show_at(false)
    }
    fn show_at(&self, atom: bool) -> String {
        let data = |n: &str, fs: Vec<&D>| {
            let s = format!("{n}{}", fs.iter().map(|f| format!(" {}", f.show_at(true))).collect::<String>());
            if atom && !fs.is_empty() { format!("({s})") } else { s }
        };
        match self {
            I(n) => n.to_string(),
            B(b) => b.to_string(),
            S(s) => {
                let mut o = String::from("\"");
                for &c in s {
                    match c {
                        b'\n' => o.push_str("\\n"),
                        b'\r' => o.push_str("\\r"),
                        32..=126 => o.push(c as char),
                        _ => o.push_str(&format!("\\x{c:02x}")),
                    }
                }
                o + "\""
            }
            L(v) => {
                // printed as nested constructors
                let mut s = String::from("Nil");
                for x in v.iter().rev() {
                    let t = if s == "Nil" { s } else { format!("({s})") };
                    s = format!("Cons {} {t}", x.show_at(true));
                }
                if atom && !v.is_empty() { format!("({s})") } else { s }
            }
            O(None) => "None".into(),
            O(Some(x)) => data("Some", vec![x]),
            R(Ok(x)) => data("Ok", vec![x]),
            R(Err(x)) => data("Err", vec![x]),
        }
    }
}

const HEAD: &str = "import opt from \"std/option\"; import res from \"std/result\"; import lst from \"std/list\"; import str from \"std/string\"; import num from \"std/int\"; import arr from \"std/array\";\n\
let add : int -> int -> int = \\a -> \\b -> a * 10 + b;\n";

struct Batch<'c> {
    cx: &'c mut Cx,
    head: &'static str,
    size: usize,
    defs: Vec<(String, String)>,
}

impl Batch<'_> {
    fn add(&mut self, e: String, v: D) {
        self.text(e, v.show());
    }
    fn text(&mut self, e: String, v: String) {
        self.defs.push((e, v));
        if self.defs.len() >= self.size {
            self.flush();
        }
    }
    fn flush(&mut self) {
        if !self.defs.is_empty() {
            lines(self.cx, self.head, &self.defs, &[false, true]);
            self.defs.clear();
        }
    }
    fn family(&mut self, n: &str) {
        self.flush();
        self.cx.family(n);
    }
}

/// Every sequence over the alphabet up to the length.
pub fn words<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last = 0;
    for _ in 0..max {
        let end = out.len();
        for i in last..end {
            for a in alpha {
                let mut w = out[i].clone();
                w.push(a.clone());
                out.push(w);
            }
        }
        last = end;
    }
    out
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

type IntFn = (&'static str, fn(u64) -> u64);
const INT_FNS: [IntFn; 3] = [("(\\x -> x + 1)", |x| x.wrapping_add(1)), ("(\\x -> x * x)", |x| x.wrapping_mul(x)), ("(\\x -> 7)", |_| 7)];
type PredFn = (&'static str, fn(u64) -> bool);
const PREDS: [PredFn; 4] = [("(\\x -> x < 2)", |x| x < 2), ("(\\x -> x % 2 == 0)", |x| x % 2 == 0), ("(\\x -> true)", |_| true), ("(\\x -> false)", |_| false)];
type OptFn = (&'static str, fn(u64) -> Option<u64>);
const OPT_FNS: [OptFn; 3] = [("(\\x -> if x < 2 then opt.Some (x + 5) else opt.None)", |x| if x < 2 { Some(x + 5) } else { None }), ("(\\x -> opt.None)", |_| None), ("(\\x -> opt.Some x)", Some)];

fn o(x: Option<u64>) -> D {
    x.map_or(none(), |x| some(I(x)))
}
fn r(x: Result<u64, u64>) -> D {
    match x {
        Ok(x) => ok(I(x)),
        Err(x) => err(I(x)),
    }
}

fn numbers(b: &mut Batch, thorough: bool) {
    b.family("int");
    let mut es: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 255, 256, 1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) - 1, u64::MAX - 1, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 6_000_000_000, 9_000_000_000];
    // neighbouring Fibonacci numbers take the most steps
    let (mut x, mut y) = (1u64, 1u64);
    let mut fibs = vec![1u64];
    while let Some(z) = x.checked_add(y) {
        (x, y) = (y, z);
        fibs.push(y);
    }
    es.extend(&fibs[fibs.len() - 4..]);
    if thorough {
        es.extend((0..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]));
        es.extend(&fibs);
        es.sort();
        es.dedup();
    }
    for &x in &es {
        b.add(format!("num.toString {x}"), S(x.to_string().into_bytes()));
        b.add(format!("num.parse (num.toString {x})"), ok(I(x)));
        b.add(format!("num.parse (str.concat \"000000000000000000000000\" (num.toString {x}))"), ok(I(x)));
        for &y in &es {
            b.add(format!("num.min {x} {y}"), I(x.min(y)));
            b.add(format!("num.max {x} {y}"), I(x.max(y)));
            b.add(format!("num.gcd {x} {y}"), I(gcd(x, y)));
            let g = gcd(x, y);
            b.add(format!("num.lcm {x} {y}"), I(if g == 0 { 0 } else { (x / g).wrapping_mul(y) }));
            b.add(format!("num.bitXor {x} {y}"), I(x ^ y));
            b.add(format!("num.bitAnd {x} {y}"), I(x & y));
            b.add(format!("num.bitOr {x} {y}"), I(x | y));
        }
    }
    for n in 0..40 {
        b.add(format!("num.iterate {n} (\\x -> x * 3 + 1) 2"), I((0..n).fold(2u64, |x, _| x.wrapping_mul(3).wrapping_add(1))));
        b.add(format!("num.iterate {n} (lst.Cons {n}) lst.Nil"), ints((0..n).map(|_| n)));
    }
    b.family("parse");
    let n = if thorough { 5 } else { 4 };
    b.cx.bound("parse_length", n);
    for w in words(b"019a /:", n) {
        let v = if !w.is_empty() && w.iter().all(u8::is_ascii_digit) { format!("Ok {}", w.iter().fold(0u64, |a, c| a * 10 + (*c - b'0') as u64)) } else { "Err ParseErr".into() };
        b.text(format!("num.parse {}", S(w).expr()), v);
    }
    // around the largest number
    let near = "18446744073709551615";
    let mut texts: Vec<String> = Vec::new();
    for p in 0..near.len() {
        for d in 0..10 {
            let t = format!("{}{d}{}", &near[..p], &near[p + 1..]);
            texts.push(format!("000{t}"));
            texts.push(format!("{t}0"));
            texts.push(format!("{d}{t}"));
            texts.push(t);
        }
    }
    texts.extend((18..45).flat_map(|n| ["1", "5", "9"].map(|d| d.repeat(n))));
    texts.extend((0..30).map(|n| format!("1{}", "0".repeat(n))));
    for t in texts {
        let v = t.bytes().try_fold(0u64, |a, c| a.checked_mul(10)?.checked_add((c - b'0') as u64)).map_or("Err ParseErr".into(), |v| format!("Ok {v}"));
        b.text(format!("num.parse \"{t}\""), v);
    }
    for c in 0..256u64 {
        let v = if (48..58).contains(&c) { format!("Ok {}", c - 48) } else { "Err ParseErr".into() };
        b.text(format!("num.parse (str.fromChar {c})"), v);
    }
}

fn options(b: &mut Batch) {
    b.family("option");
    let os: Vec<Option<u64>> = vec![None, Some(0), Some(1), Some(2), Some(u64::MAX)];
    let rs: Vec<Result<u64, u64>> = vec![Ok(0), Ok(1), Ok(2), Err(0), Err(1), Err(u64::MAX)];
    for &x in &os {
        let e = o(x).expr();
        for (n, f) in INT_FNS {
            b.add(format!("opt.map {n} {e}"), o(x.map(f)));
            b.add(format!("opt.apply {e} (opt.Some {n})"), o(x.map(f)));
        }
        b.add(format!("opt.apply {e} nofn"), none());
        for (n, f) in OPT_FNS {
            b.add(format!("opt.andThen {n} {e}"), o(x.and_then(f)));
        }
        for d in [0, 9] {
            b.add(format!("opt.unwrapOr {d} {e}"), I(x.unwrap_or(d)));
            b.add(format!("res.okOr {d} {e}"), r(x.ok_or(d)));
        }
        b.add(format!("opt.isSome {e}"), B(x.is_some()));
        b.add(format!("opt.isNone {e}"), B(x.is_none()));
        b.add(format!("opt.flatten (opt.Some {e})"), o(x));
    }
    b.add("opt.flatten noopt".into(), none());
    for &x in &rs {
        let e = r(x).expr();
        for (n, f) in INT_FNS {
            b.add(format!("res.map {n} {e}"), r(x.map(f)));
            b.add(format!("res.mapErr {n} {e}"), r(x.map_err(f)));
            b.add(format!("res.apply {e} (res.Ok {n})"), r(x.map(f)));
        }
        b.add(format!("res.apply {e} (res.Err 77)"), r(Err(77)));
        b.add(format!("res.andThen (\\x -> if x < 2 then res.Ok (x + 5) else res.Err 3) {e}"), r(x.and_then(|x| if x < 2 { Ok(x + 5) } else { Err(3) })));
        b.add(format!("res.unwrapOr 9 {e}"), I(x.unwrap_or(9)));
        b.add(format!("res.ok {e}"), o(x.ok()));
        b.add(format!("res.err {e}"), o(x.err()));
        b.add(format!("res.flatten (res.Ok {e})"), r(x));
        b.add(format!("res.flatten (if true then res.Err 5 else res.Ok {e})"), err(I(5)));
        b.add(format!("res.join {e}"), I(match x { Ok(x) | Err(x) => x }));
    }
}

fn lists(b: &mut Batch, thorough: bool) {
    b.family("list");
    let n = if thorough { 6 } else { 4 };
    b.cx.bound("list_length", n);
    let ls = words(&[0u64, 1, 12], n);
    for l in &ls {
        let e = ints(l.iter().copied()).expr();
        for (n, f) in INT_FNS {
            b.add(format!("lst.map {n} {e}"), ints(l.iter().map(|x| f(*x))));
            b.add(format!("lst.flatMap (\\x -> lst.Cons x (lst.Cons ({n} x) lst.Nil)) {e}"), ints(l.iter().flat_map(|x| [*x, f(*x)])));
        }
        b.add(format!("lst.flatMap (\\x -> lst.repeat x x) {e}"), ints(l.iter().flat_map(|x| vec![*x; *x as usize])));
        for (n, f) in PREDS {
            b.add(format!("lst.filter {n} {e}"), ints(l.iter().copied().filter(|x| f(*x))));
            b.add(format!("lst.any (lst.map {n} {e})"), B(l.iter().any(|x| f(*x))));
            b.add(format!("lst.all (lst.map {n} {e})"), B(l.iter().all(|x| f(*x))));
        }
        for (n, f) in OPT_FNS {
            b.add(format!("lst.filterMap {n} {e}"), ints(l.iter().copied().filter_map(f)));
            let all: Option<Vec<u64>> = l.iter().copied().map(f).collect();
            b.add(format!("lst.allSome (lst.map {n} {e})"), all.map_or(none(), |v| some(ints(v))));
        }
        let all: Result<Vec<u64>, u64> = l.iter().map(|x| if *x == 1 { Err(*x + 8) } else { Ok(*x) }).collect();
        b.add(format!("lst.allOk (lst.map (\\x -> if x == 1 then res.Err (x + 8) else res.Ok x) {e})"), match all { Ok(v) => ok(ints(v)), Err(e) => err(I(e)) });
        // the first error counts
        let all: Result<Vec<u64>, u64> = l.iter().map(|x| if *x >= 1 { Err(*x) } else { Ok(*x) }).collect();
        b.add(format!("lst.allOk (lst.map (\\x -> if x >= 1 then res.Err x else res.Ok x) {e})"), match all { Ok(v) => ok(ints(v)), Err(e) => err(I(e)) });
        b.add(format!("lst.sum {e}"), I(l.iter().sum()));
        b.add(format!("lst.product {e}"), I(l.iter().product()));
        b.add(format!("lst.length {e}"), I(l.len() as u64));
        b.add(format!("lst.head {e}"), o(l.first().copied()));
        b.add(format!("lst.tail {e}"), if l.is_empty() { none() } else { some(ints(l[1..].iter().copied())) });
        b.add(format!("lst.reverse {e}"), ints(l.iter().rev().copied()));
        b.add(format!("lst.max {e}"), o(l.iter().max().copied()));
        b.add(format!("lst.min {e}"), o(l.iter().min().copied()));
        b.add(format!("lst.maxBy (\\a -> \\b -> a < b) {e}"), o(l.iter().max().copied()));
        b.add(format!("lst.minBy (\\a -> \\b -> a < b) {e}"), o(l.iter().min().copied()));
        b.add(format!("lst.maxBy (\\a -> \\b -> a > b) {e}"), o(l.iter().min().copied()));
        b.add(format!("lst.minBy (\\a -> \\b -> a > b) {e}"), o(l.iter().max().copied()));
        // an order with ties: only the key of the result is determined
        b.add(format!("opt.map (\\x -> x % 2) (lst.maxBy (\\a -> \\b -> a % 2 < b % 2) {e})"), o(l.iter().map(|x| x % 2).max()));
        b.add(format!("opt.map (\\x -> x % 2) (lst.minBy (\\a -> \\b -> a % 2 < b % 2) {e})"), o(l.iter().map(|x| x % 2).min()));
        b.add(format!("lst.foldr add 5 {e}"), I(l.iter().rev().fold(5u64, |acc, x| x * 10 + acc)));
        b.add(format!("lst.foldl 5 (\\acc -> \\x -> acc * 10 + x) {e}"), I(l.iter().fold(5u64, |acc, x| acc * 10 + x)));
        b.add(format!("lst.foldl lst.Nil (\\acc -> \\x -> lst.Cons x acc) {e}"), ints(l.iter().rev().copied()));
        let mut s = l.clone();
        s.sort();
        b.add(format!("lst.sortBy (\\a -> \\b -> a < b) {e}"), ints(s.iter().copied()));
        b.add(format!("lst.sortBy (\\a -> \\b -> a > b) {e}"), ints(s.iter().rev().copied()));
        let mut k: Vec<u64> = l.iter().map(|x| x % 2).collect();
        k.sort();
        b.add(format!("lst.map (\\x -> x % 2) (lst.sortBy (\\a -> \\b -> a % 2 < b % 2) {e})"), ints(k));
        for v in [0, 1, 12] {
            b.add(format!("lst.length (lst.filter (\\x -> x == {v}) (lst.sortBy (\\a -> \\b -> a % 2 < b % 2) {e}))"), I(l.iter().filter(|x| **x == v).count() as u64));
        }
        for n in 0..=l.len() as u64 + 2 {
            let m = (n as usize).min(l.len());
            b.add(format!("lst.take {n} {e}"), ints(l[..m].iter().copied()));
            b.add(format!("lst.skip {n} {e}"), ints(l[m..].iter().copied()));
            b.add(format!("lst.concat (lst.take {n} {e}) (lst.skip {n} {e})"), ints(l.iter().copied()));
        }
        for n in [1u64 << 32, 1 << 63, u64::MAX] {
            b.add(format!("lst.take {n} {e}"), ints(l.iter().copied()));
            b.add(format!("lst.skip {n} {e}"), ints([]));
        }
        b.add(format!("arr.toList (arr.fromList {e})"), ints(l.iter().copied()));
        b.add(format!("arr.length (arr.fromList {e})"), I(l.len() as u64));
    }
    b.family("list_sort");
    let n = if thorough { 8 } else { 6 };
    b.cx.bound("sort_length", n);
    // all orders of up to n values, with repetitions
    let mut perms: Vec<Vec<u64>> = vec![vec![]];
    for k in 1..=n as u64 {
        let prev: Vec<Vec<u64>> = perms.iter().filter(|p| p.len() as u64 == k - 1).cloned().collect();
        for p in prev {
            for i in 0..=p.len() {
                let mut q = p.clone();
                q.insert(i, k);
                perms.push(q);
            }
        }
    }
    for p in perms {
        let e = ints(p.iter().copied()).expr();
        let mut s = p.clone();
        s.sort();
        b.add(format!("lst.sortBy (\\a -> \\b -> a < b) {e}"), ints(s.iter().copied()));
        b.add(format!("lst.max {e}"), o(p.iter().max().copied()));
        b.add(format!("lst.min {e}"), o(p.iter().min().copied()));
        b.add(format!("lst.reverse {e}"), ints(p.iter().rev().copied()));
    }
    b.family("list_pairs");
    let n = if thorough { 4 } else { 3 };
    let ls = words(&[1u64, 2], n);
    b.cx.bound("list_pairs_length", n);
    for x in &ls {
        for y in &ls {
            let (ex, ey) = (ints(x.iter().copied()).expr(), ints(y.iter().copied()).expr());
            b.add(format!("lst.concat {ex} {ey}"), ints(x.iter().chain(y).copied()));
            b.add(format!("lst.zip add {ex} {ey}"), ints(x.iter().zip(y).map(|(a, b)| a * 10 + b)));
            for z in [vec![], vec![7u64], vec![7, 8]] {
                let ez = ints(z.iter().copied()).expr();
                b.add(format!("lst.flatten (lst.Cons {ex} (lst.Cons {ez} (lst.Cons {ey} lst.Nil)))"), ints(x.iter().chain(&z).chain(y).copied()));
            }
        }
    }
    b.family("list_numbers");
    for a in 0..12u64 {
        for z in 0..12u64 {
            b.add(format!("lst.range {a} {z}"), ints(a..z));
        }
        b.add(format!("lst.repeat {a} {a}"), ints((0..a).map(|_| a)));
        b.add(format!("lst.range (18446744073709551615 - {a}) 18446744073709551615"), ints(u64::MAX - a..u64::MAX));
        b.add(format!("lst.range 18446744073709551615 {a}"), ints([]));
        b.add(format!("lst.range 9223372036854775808 {a}"), ints([]));
    }
    b.family("join");
    let n = if thorough { 5 } else { 4 };
    let items: Vec<Vec<u8>> = vec![b"".to_vec(), b"x".to_vec(), b"ab".to_vec()];
    for l in words(&items, n) {
        for sep in [&b""[..], b",", b", "] {
            let e = L(l.iter().map(|x| S(x.clone())).collect()).expr();
            b.add(format!("lst.join {} {e}", S(sep.to_vec()).expr()), S(l.join(sep)));
        }
    }
}

fn split(c: u8, s: &[u8]) -> D {
    L(s.split(|x| *x == c).map(|x| S(x.to_vec())).collect())
}

/// Lines end at a line feed, a carriage return before it belongs to the end;
/// the text after the last line feed is a line when not empty.
fn split_lines(s: &[u8]) -> D {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for &c in s {
        if c == b'\n' {
            if cur.last() == Some(&b'\r') {
                cur.pop();
            }
            out.push(S(std::mem::take(&mut cur)));
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(S(cur));
    }
    L(out)
}

fn strings(b: &mut Batch, thorough: bool) {
    b.family("string");
    let n = if thorough { 6 } else { 4 };
    b.cx.bound("string_length", n);
    for w in words(b"a ,\n\r", n) {
        let e = S(w.clone()).expr();
        b.add(format!("str.length {e}"), I(w.len() as u64));
        b.add(format!("str.split 44 {e}"), split(44, &w));
        b.add(format!("str.lines {e}"), split_lines(&w));
        b.add(format!("lst.join \",\" (str.split 44 {e})"), S(w.clone()));
        b.add(format!("str.chars {e}"), ints(w.iter().map(|c| *c as u64)));
        let t: &[u8] = &w;
        let start = t.iter().position(|c| *c != 32).unwrap_or(t.len());
        let end = t.iter().rposition(|c| *c != 32).map_or(start, |p| p + 1);
        b.add(format!("str.trim {e}"), S(t[start..end].to_vec()));
        b.add(format!("str.foldChars 1 (\\a -> \\c -> a * 3 + c) {e}"), I(w.iter().fold(1u64, |a, c| a.wrapping_mul(3).wrapping_add(*c as u64))));
    }
    b.family("string_split");
    for w in words(b"ab\x00\xff", n.min(5)) {
        let e = S(w.clone()).expr();
        for c in [0u64, 97, 98, 255, 99, 256, 353] {
            let v = if c < 256 { split(c as u8, &w) } else { L(vec![S(w.clone())]) };
            b.add(format!("str.split {c} {e}"), v);
        }
    }
    b.family("string_pairs");
    let ws = words(b"ab", if thorough { 5 } else { 4 });
    for x in &ws {
        for y in &ws {
            let (ex, ey) = (S(x.clone()).expr(), S(y.clone()).expr());
            b.add(format!("str.equal {ex} {ey}"), B(x == y));
            b.add(format!("str.startsWith {ex} {ey}"), B(y.starts_with(x)));
            b.add(format!("str.concat {ex} {ey}"), S([&x[..], &y[..]].concat()));
        }
    }
    b.family("string_index");
    for w in [&b""[..], b"x", b"ab", b"abc"] {
        let e = S(w.to_vec()).expr();
        let is = [0u64, 1, 2, 3, 4, 255, 256, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
        for i in is {
            b.add(format!("str.charAt {i} {e}"), I(if i < w.len() as u64 { w[i as usize] as u64 } else { 0 }));
            for l in is {
                let n = w.len() as u128;
                let (f, t) = ((i as u128).min(n), (i as u128 + l as u128).min(n));
                b.add(format!("str.substring {i} {l} {e}"), S(w[f as usize..t as usize].to_vec()));
            }
        }
    }
    for c in 0..=300u64 {
        b.add(format!("str.fromChar {c}"), S(vec![c as u8]));
        b.add(format!("str.equal (str.fromChar {c}) (str.fromChar 65)"), B(c % 256 == 65));
    }
    b.add("str.newline".into(), S(vec![10]));
}

#[derive(Clone, Copy, Debug)]
enum A {
    Set(u64, u64),
    Map(u64),
    Trunc(u64),
    Reload,
}

fn arrays(b: &mut Batch, thorough: bool) {
    b.family("array");
    let top = if thorough { 260 } else { 70 };
    b.cx.bound("array_size", top);
    for n in 0..=top {
        let e = format!("(arr.new {n} 3)");
        b.add(format!("arr.length {e}"), I(n));
        b.add(format!("arr.toList {e}"), ints((0..n).map(|_| 3)));
        b.add(format!("arr.get {n} {e}"), none());
        b.add(format!("arr.get 18446744073709551615 {e}"), none());
        b.add(format!("arr.toList (arr.fromList (lst.range 0 {n}))"), ints(0..n));
        b.add(format!("lst.length (lst.filter (\\i -> match arr.get i (arr.fromList (lst.range 0 {n})) with | opt.None -> false | opt.Some x -> x == i end) (lst.range 0 {}))", n + 3), I(n));
        b.add(format!("arr.toList (arr.set {n} 9 {e})"), ints((0..n).map(|_| 3)));
        for i in [0, n / 4, n / 2, n.wrapping_sub(1)] {
            if i < n {
                b.add(format!("arr.toList (arr.set {i} 9 {e})"), ints((0..n).map(|x| if x == i { 9 } else { 3 })));
                b.add(format!("arr.toList (arr.mapIdx {i} (\\x -> x * x) {e})"), ints((0..n).map(|x| if x == i { 9 } else { 3 })));
            }
        }
        if n <= 20 {
            for m in 0..=n + 1 {
                b.add(format!("arr.toList (arr.truncate {m} (arr.fromList (lst.range 0 {n})))"), ints(0..n.min(m)));
                b.add(format!("arr.get {m} (arr.fromList (lst.range 0 {n}))"), if m < n { some(I(m)) } else { none() });
            }
        }
    }
    b.add("arr.length arr.empty".into(), I(0));
    b.add("opt.isNone (arr.get 0 arr.empty)".into(), B(true));
    b.add("arr.toList (arr.set 0 1 arr.empty)".into(), ints([]));
    b.add("arr.toList (arr.truncate 0 (arr.set 0 1 arr.empty))".into(), ints([]));
    b.add("arr.length (arr.truncate 5 (arr.set 0 1 arr.empty))".into(), I(0));
    // histories of updates against a plain vector
    b.family("array_histories");
    let depth = if thorough { 4 } else { 3 };
    b.cx.bound("array_history_length", depth);
    for size in [0u64, 1, 4, 5, 17] {
        let last = size.saturating_sub(1);
        let ops = [A::Set(0, 7), A::Set(last, 8), A::Set(size, 9), A::Set(size / 2, 6), A::Map(last), A::Map(size / 2), A::Trunc(size / 2 + 1), A::Trunc(0), A::Reload];
        for h in words(&ops, depth) {
            let mut e = format!("(arr.new {size} 2)");
            let mut v = vec![2u64; size as usize];
            for a in h {
                match a {
                    A::Set(i, x) => {
                        e = format!("(arr.set {i} {x} {e})");
                        if let Some(y) = v.get_mut(i as usize) {
                            *y = x;
                        }
                    }
                    A::Map(i) => {
                        e = format!("(arr.mapIdx {i} (\\x -> x * 10 + 1) {e})");
                        if let Some(y) = v.get_mut(i as usize) {
                            *y = *y * 10 + 1;
                        }
                    }
                    A::Trunc(n) => {
                        e = format!("(arr.truncate {n} {e})");
                        v.truncate(n as usize);
                    }
                    A::Reload => e = format!("(arr.fromList (arr.toList {e}))"),
                }
            }
            b.add(format!("arr.toList {e}"), ints(v.iter().copied()));
            b.add(format!("arr.length {e}"), I(v.len() as u64));
            b.add(format!("arr.get {last} {e}"), o(v.get(last as usize).copied()));
        }
    }
    // sizes near the limits, only a few cells looked at
    b.family("array_huge");
    let is: Vec<u64> = vec![0, 1, 3, 4, 15, 16, (1 << 62) - 1, 1 << 62, 1 << 63, 3 << 62, u64::MAX - 4, u64::MAX - 1];
    for size in [1u64 << 31, 1 << 32, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, 1 << 63, u64::MAX - 1, u64::MAX] {
        for &i in &is {
            for &j in &is {
                let cell = |k: u64| if k >= size { none() } else if k == j { some(I(6)) } else if k == i { some(I(5)) } else { some(I(1)) };
                for k in [i, j, i ^ 1] {
                    b.add(format!("arr.get {k} (arr.set {j} 6 (arr.set {i} 5 (arr.new {size} 1)))"), cell(k));
                }
            }
        }
    }
}

fn c24(cx: &mut Cx) {
    let thorough = cx.pick(0, 1) == 1;
    let head = Box::leak(format!("{HEAD}let noopt : opt.Option (opt.Option int) = opt.None; let nofn : opt.Option (int -> int) = opt.None;\n").into_boxed_str());
    let mut b = Batch { cx, head, size: 40, defs: Vec::new() };
    options(&mut b);
    numbers(&mut b, thorough);
    lists(&mut b, thorough);
    strings(&mut b, thorough);
    arrays(&mut b, thorough);
    b.flush();
}

pub static C24: Check = Check {
    id: "C24",
    run: c24,
    assumptions: &[
        "a number that does not fit into 64 bits is not a number `parse` accepts",
        "ties of orders: any maximal element and any sorted order are right",
        "orders passed to sorting are strict weak orders",
    ],
    meaning: "a state is a distinct program of up to 40 library calls, a transition one run by the real code, a validated trace one run whose whole output was compared with plain Rust",
    hang_s: 20,
    mem_mb: 3000,
};
