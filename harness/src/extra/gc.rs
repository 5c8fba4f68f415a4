//! C15: programs with garbage collections at chosen points, on the real heap.
use crate::engine::{Check, Cx};
use crate::gen;
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, Out, Runner};
use std::cell::Cell;
use std::rc::Rc;

/// Runs the bytecode with collections at the points the plan chooses; also
/// tells how many points there were.
fn run_with(u: &mut ticc::CompilationUnit, plan: impl Fn(u64) -> bool + 'static) -> (Out, u64) {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    ticc_eval::mc::set_plan(Some(Box::new(move || {
        let i = m.get();
        m.set(i + 1);
        plan(i)
    })));
    let r = crate::engine::guard(|| real::run(u, Runner::Bytecode));
    ticc_eval::mc::set_plan(None);
    match r {
        Ok(o) => (o, n.get()),
        Err(e) => panic!("{e}"),
    }
}

struct Depth {
    subsets: u64,
    pairs: u64,
    singles: u64,
}

fn expected(src: &str, opt: bool, or: Option<&Oracle>) -> Result<Out, String> {
    let mut u = real::unit(src, opt, &real::none());
    let e = real::errors(&mut u);
    if !e.is_empty() {
        return Err(format!("rejected: {e:?}"));
    }
    let want = real::run(&mut u, Runner::Treewalk);
    let other = real::run(&mut u, Runner::Lambda);
    if want != other && !(want.trap() && other.trap()) {
        return Err(format!("treewalk {want}, lambda {other}"));
    }
    if let Some(or) = or {
        or.reset();
        match or.compile(src) {
            Verdict::Ok(u) => {
                if let Some(v) = or.run(&u) {
                    // optimized programs may leave out holes
                    if v != want && !(opt && v.trap()) && !(v.trap() && want.trap()) {
                        return Err(format!("treewalk {want}, should have {v}"));
                    }
                }
            }
            _ => return Err("the reference rejects the program".into()),
        }
    }
    Ok(want)
}

fn same(a: &Out, b: &Out) -> bool {
    a == b || (a.trap() && b.trap())
}

fn schedules(cx: &mut Cx, src: &str, d: &Depth, or: Option<&Oracle>) -> Result<(), String> {
    for opt in [false, true] {
        let want = expected(src, opt, or)?;
        let mut u = real::unit(src, opt, &real::none());
        let mut check = |cx: &mut Cx, what: &str, (got, n): (Out, u64)| {
            cx.ops(1);
            cx.validated(1);
            cx.count("schedules", 1);
            if same(&got, &want) { Ok(n) } else { Err(format!("(optimize: {opt}) with {what} {got}, should have {want}")) }
        };
        let r = run_with(&mut u, |_| false);
        let n = check(cx, "no forced collection", r)?;
        cx.count("points", n);
        let r = run_with(&mut u, |_| true);
        check(cx, "a collection at every point", r)?;
        if n <= d.subsets {
            for m in 1u64..(1 << n) - 1 {
                let r = run_with(&mut u, move |i| m >> i & 1 == 1);
                check(cx, &format!("collections at the points {m:b} (lowest bit first)"), r)?;
            }
            continue;
        }
        // every point when there are few, and otherwise every stretch of points
        let step = n.div_ceil(d.singles).max(1);
        if step > 1 {
            cx.count("programs_with_stretches", 1);
        }
        for k in (0..n).step_by(step as usize) {
            let r = run_with(&mut u, move |i| i >= k && i < k + step);
            check(cx, &format!("collections from point {k} to {}", k + step), r)?;
            let r = run_with(&mut u, move |i| !(i >= k && i < k + step));
            check(cx, &format!("collections everywhere but from point {k} to {}", k + step), r)?;
        }
        if n <= d.pairs {
            for a in 0..n {
                for b in a + 1..n {
                    let r = run_with(&mut u, move |i| i == a || i == b);
                    check(cx, &format!("collections at the points {a} and {b}"), r)?;
                }
            }
        }
    }
    Ok(())
}

const BOX: &str = "type box = B int | N; type str = S string; ";

/// Objects with `n` fields, of which `kind(i)` tells the kind.
fn wide(n: usize, kind: &dyn Fn(usize) -> u8) -> String {
    let mut o = String::from(BOX);
    let ty = |i: usize| ["int", "box", "string", "bool", "(box -> box)"][kind(i) as usize];
    o.push_str("type t = T");
    (0..n).for_each(|i| o.push_str(&format!(" {}", ty(i))));
    o.push_str("; let mk : box -> t = \\b -> T");
    for i in 0..n {
        o.push_str(&match kind(i) {
            0 => format!(" {i}"),
            1 if i % 3 == 0 => " b".into(),
            1 => format!(" (B {i})"),
            2 => format!(" \"s{i}\""),
            3 => format!(" {}", i % 2 == 0),
            _ => " (\\x -> b)".into(),
        });
    }
    // everything is read back in another order after new allocations
    o.push_str("; export let v = mk (B 77); type w = W");
    (0..n).rev().for_each(|i| o.push_str(&format!(" {}", if kind(i) == 4 { "box" } else { ty(i) })));
    o.push_str(" string; export let w = match v with | T");
    (0..n).for_each(|i| o.push_str(&format!(" a{i}")));
    o.push_str(" -> W");
    for i in (0..n).rev() {
        o.push_str(&if kind(i) == 4 { format!(" (a{i} N)") } else { format!(" a{i}") });
    }
    o.push_str(" \"end\" end;");
    o
}

/// Closures with `n` captures.
fn captures(n: usize, kind: &dyn Fn(usize) -> u8) -> String {
    let mut o = String::from(BOX);
    let ty = |i: usize| ["int", "box", "string", "bool"][kind(i) as usize % 4];
    o.push_str("type t = T");
    (0..n).for_each(|i| o.push_str(&format!(" {}", ty(i))));
    o.push_str("; type w = W int");
    (0..n).rev().for_each(|i| o.push_str(&format!(" {}", ty(i))));
    o.push_str("; let f : t -> int -> w = \\v -> match v with | T");
    (0..n).for_each(|i| o.push_str(&format!(" a{i}")));
    o.push_str(" -> \\u -> W u");
    (0..n).rev().for_each(|i| o.push_str(&format!(" a{i}")));
    o.push_str(" end; let g : int -> w = f (T");
    for i in 0..n {
        o.push_str(&match kind(i) % 4 {
            0 => format!(" {i}"),
            1 => format!(" (B {i})"),
            2 => format!(" \"s{i}\""),
            _ => format!(" {}", i % 2 == 0),
        });
    }
    o.push_str("); export let p = g 1; export let q = g 2; export let r = p;");
    o
}

/// Functions with `n` parameters, applied one by one.
fn curried(n: usize) -> String {
    let mut o = String::from(BOX);
    o.push_str("type w = W");
    (0..n).for_each(|i| o.push_str(if i % 2 == 0 { " box" } else { " int" }));
    o.push_str("; let f : ");
    (0..n).for_each(|i| o.push_str(if i % 2 == 0 { "box -> " } else { "int -> " }));
    o.push_str("w = ");
    (0..n).for_each(|i| o.push_str(&format!("\\a{i} -> ")));
    o.push_str("W");
    (0..n).for_each(|i| o.push_str(&format!(" a{i}")));
    o.push(';');
    for k in 0..=n {
        let p = if k == 0 { "f".to_owned() } else { format!("g{k}") };
        if k == n {
            o.push_str(&format!("export let r = {p}; export let s = f"));
            (0..n).for_each(|i| o.push_str(&if i % 2 == 0 { format!(" (B {})", 100 + i) } else { format!(" {i}") }));
            o.push(';');
        } else {
            o.push_str(&format!("let g{} = {p} {};", k + 1, if k % 2 == 0 { format!("(B {k})") } else { k.to_string() }));
        }
    }
    o
}

/// Values sharing parts: every node of level `i` holds nodes of lower levels.
fn shared(depth: usize, pattern: usize) -> String {
    let mut o = String::from("type t = L string | P rec rec | Q rec int rec; let v0 : t = L \"a\"; let v1 : t = L \"b\";");
    for i in 2..depth + 2 {
        let (x, y) = match pattern {
            0 => (i - 1, i - 1),
            1 => (i - 1, i - 2),
            2 => (i - 2, i - 1),
            _ => (0, i - 1),
        };
        o.push_str(&if i % 2 == 0 { format!("let v{i} : t = P v{x} v{y};") } else { format!("let v{i} : t = Q v{x} {i} v{y};") });
    }
    o.push_str(&format!("export let r = v{}; export let s = match r with | L x -> L x | P a b -> P b a | Q a n b -> Q b n a end;", depth + 1));
    o
}

const IMPORTS: &str = "import opt from \"std/option\"; import lst from \"std/list\"; import str from \"std/string\"; import num from \"std/int\"; import arr from \"std/array\";\n";

fn workloads(thorough: bool) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    let mut add = |n: String, s: String| v.push((n, s));
    let widths: Vec<usize> = if thorough { (0..=135).chain([190, 191, 192, 193, 194, 255, 256, 257, 320]).collect() } else { (0..=6).chain([31, 33, 63, 64, 65, 66, 127, 128, 129, 193]).collect() };
    for &n in &widths {
        for (k, f) in [(0, (|_| 1) as fn(usize) -> u8), (1, |i| (i % 5) as u8), (2, |i| (i % 2) as u8), (3, |_| 0), (4, |i| ((i * i + i / 64) % 4) as u8)] {
            add(format!("fields {n} {k}"), wide(n, &f));
            if k != 1 {
                add(format!("captures {n} {k}"), captures(n, &f));
            }
        }
        // a single pointer, at every boundary
        if n > 0 {
            for p in [0, n / 2, n - 1] {
                add(format!("pointer {n} {p}"), wide(n, &move |i| (i == p) as u8));
            }
        }
    }
    for n in 1..=12 {
        add(format!("parameters {n}"), curried(n));
    }
    for d in [1, 2, 3, 5, 9] {
        for p in 0..4 {
            add(format!("shared {d} {p}"), shared(d, p));
        }
    }
    for n in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 40, 199, 200, 201, 255, 256, 257, 1000, 5000] {
        let s = "x".repeat(n);
        add(format!("strings {n}"), format!("{IMPORTS}let s = \"{s}\"; export let a = str.concat s s; export let b = str.substring 1 {n} a; export let c = str.concat b (str.fromChar 65); export let d = str.length c; export let e = str.charAt {} c; export let f = num.toString {n}; export let g = str.concat a (str.concat b c);", n.saturating_sub(1)));
        add(format!("constants {n}"), {
            let mut o = format!("{IMPORTS}type t = T string string; let k : int -> t = \\x -> T \"{s}\" (num.toString x);");
            for i in 0..6 {
                o.push_str(&format!("export let a{i} = k {i}; export let b{i} = \"{s}{i}\";"));
            }
            o
        });
    }
    for n in [0, 1, 2, 5, 8] {
        for (name, e) in [
            ("sort", "lst.sortBy (\\a -> \\b -> a > b) l"),
            ("map", "lst.map (\\x -> str.concat (num.toString x) \"!\") (lst.filter (\\x -> x > 1) l)"),
            ("reverse", "lst.reverse (lst.concat l (lst.reverse l))"),
            ("flat", "lst.flatMap (\\x -> lst.map (\\y -> lst.Cons x (lst.Cons y lst.Nil)) l) l"),
            ("zip", "lst.zip (\\a -> \\b -> lst.Cons a (lst.Cons b lst.Nil)) l (lst.reverse l)"),
            ("folds", "lst.foldr (\\a -> \\k -> \\x -> k (x + a)) (\\x -> x) l 5"),
            ("array", "arr.toList (arr.set 1 99 (arr.fromList l))"),
            ("arrays", "arr.toList (arr.mapIdx 0 (\\x -> lst.concat x x) (arr.new 3 l))"),
            ("join", "lst.join \", \" (lst.map num.toString l)"),
            ("options", "lst.allSome (lst.map (\\x -> if x > 100 then opt.None else opt.Some (num.toString x)) l)"),
            ("split", "str.split 44 (lst.join \",\" (lst.map num.toString l))"),
        ] {
            add(format!("{name} {n}"), format!("{IMPORTS}let l : lst.List int = lst.map (\\x -> 7 - x) (lst.range 0 {n}); export let r = {e};"));
        }
    }
    add("booleans".into(), "type t = T bool bool; let f : bool -> t = \\b -> T b (if b then false else true); export let a = f true; export let b = f (1 < 2); export let c = match a with | T x y -> if x then f y else f x end; export let d = match c with | T x y -> if y then T y x else T x y end;".into());
    add("holes".into(), "type t = T int rec | E; let f : int -> t -> t = \\n -> \\t -> T n (T n t); export let a = f 1 (f 2 E); export let b = match a with | T n r -> if n == 1 then ?stop else r | E -> E end;".into());
    add("recursion".into(), "type n = S rec | Z; let f : n -> string -> string = \\fold x -> match x with | S k -> \\s -> k s | Z -> \\s -> s end; export let r = f (S (S (S (S (S Z))))) \"end\"; type l = C int rec | E; let up : n -> l = \\fold x -> match x with | S k -> C 1 k | Z -> E end; export let q = up (S (S (S Z)));".into());
    v
}

fn c15(cx: &mut Cx) {
    let or = Oracle::new();
    cx.family("forced_workloads");
    let d = Depth { subsets: cx.pick(7, 12) as u64, pairs: cx.pick(16, 120) as u64, singles: cx.pick(20, 4000) as u64 };
    cx.bound("all_subsets_up_to_points", d.subsets);
    cx.bound("all_pairs_up_to_points", d.pairs);
    cx.bound("every_point_up_to", d.singles);
    let ws = workloads(cx.thorough);
    for (n, w) in &ws {
        cx.lazy(|| format!("-- {n}\n{w}"), |cx, s| schedules(cx, s, &d, None));
    }
    cx.family("forced_programs");
    let depth = cx.pick(1, 2);
    cx.bound("contexts_depth", depth);
    let d = Depth { subsets: cx.pick(5, 8) as u64, pairs: cx.pick(0, 30) as u64, singles: 1000 };
    for k in 0..=depth {
        gen::compose(k, false, &mut |p| cx.lazy(|| p(), |cx, s| schedules(cx, s, &d, Some(&or))));
    }
    for t in gen::themes() {
        let max = if cx.thorough { t.sizes.0 } else { t.sizes.0.saturating_sub(1) };
        cx.family(&format!("forced_{}", t.name));
        cx.bound(&format!("forced_{}_size", t.name), max);
        gen::programs(&t, max, &mut |p| cx.lazy(|| p(), |cx, s| schedules(cx, s, &Depth { subsets: 3, pairs: 0, singles: cx.pick(8, 1000) as u64 }, None)));
    }
    // no forced collections: every distance between the first real ones and
    // the allocations of the program, by live and dead strings before them
    cx.family("padded_workloads");
    let (live, dead) = (cx.pick(264, 2000), cx.pick(264, 2000));
    cx.bound("live_bytes", live);
    cx.bound("dead_bytes", dead);
    for (n, w) in &ws {
        let quick = !cx.thorough;
        cx.lazy(|| format!("-- {n}, padded\n{w}"), |cx, s| {
            let wants = [expected(s, false, None)?, expected(s, true, None)?];
            let step = if !quick { 8 } else if s.len() < 700 { 16 } else { 48 };
            let head = "import mcs from \"std/string\"; ";
            for dead_first in [false, true] {
                for k in (0..=if dead_first { dead } else { live }).step_by(step) {
                    let pad = if dead_first {
                        format!("{head}let mcpad = mcs.length (mcs.concat \"\" (mcs.substring 0 {k} \"{}\")); ", "p".repeat(dead))
                    } else {
                        format!("{head}let mcpad = \"{}\"; ", "p".repeat(k))
                    };
                    let (first, rest) = if s.contains(IMPORTS) { s.split_once(IMPORTS).map(|(a, b)| (format!("{a}{IMPORTS}"), b)).unwrap() } else { (String::new(), &s[..]) };
                    let text = format!("{first}\n{pad}\n{rest}\nexport let mcend = mcpad;");
                    for opt in [false, true] {
                        let want = &wants[opt as usize];
                        let mut u = real::unit(&text, opt, &real::none());
                        let e = real::errors(&mut u);
                        if !e.is_empty() {
                            return Err(format!("padding {k} makes it an error: {e:?}"));
                        }
                        let got = real::run(&mut u, Runner::Bytecode);
                        cx.ops(1);
                        cx.validated(1);
                        cx.count("paddings", 1);
                        let ok = match (&got, want) {
                            (Out::Val(g), Out::Val(w)) => g.rsplit_once("mcend = ").is_some_and(|(a, _)| a == w),
                            (g, w) => same(g, w),
                        };
                        if !ok {
                            return Err(format!("(optimize: {opt}) behind {k} {} bytes {got}, should start with {want}", if dead_first { "dead" } else { "live" }));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

pub static C15: Check = Check {
    id: "C15",
    run: c15,
    assumptions: &["collections are forced at the two points of an allocation where the runner may collect: before it when memory is short, and after it when much is in use", "the jit runner only exists on windows and is not part of the exploration"],
    meaning: "a state is a program, a transition one run of the bytecode under one schedule of collections, a validated trace one such run compared with the other runners",
    hang_s: 300,
    mem_mb: 0,
};
