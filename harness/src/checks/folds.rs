//! C14: fold is structural recursion.
use crate::checks::text::sequences;
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, RUNNERS};

fn c14_case(or: &Oracle, cx: &mut Cx, src: &str) -> Result<(), String> {
    or.reset();
    let u = match or.compile(src) {
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(u) => return Err(format!("the reference rejects the generated program: {:?}", u.errors)),
        Verdict::Ok(u) => u,
    };
    let want = or.run(&u).ok_or("the reference does not finish")?;
    for o in [false, true] {
        let mut r = real::unit(src, o, &real::none());
        let e = real::errors(&mut r);
        if !e.is_empty() {
            return Err(format!("rejected: {e:?}"));
        }
        for k in RUNNERS {
            let got = real::run(&mut r, k);
            cx.ops(1);
            if got != want {
                return Err(format!("{k} (optimize: {o}) {got}, should have {want}"));
            }
            cx.validated(1);
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum F {
    Int,
    Rec,
    Par,
}

type Shape = Vec<Vec<F>>;

const NAMES: [&str; 4] = ["Ca", "Cb", "Cc", "Cd"];

fn decl(s: &Shape, par: bool) -> String {
    let cs: Vec<String> = s
        .iter()
        .enumerate()
        .map(|(i, fs)| {
            let f: String = fs.iter().map(|f| match f { F::Int => " int", F::Rec => " rec", F::Par => " a" }).collect();
            format!("{}{f}", NAMES[i])
        })
        .collect();
    format!("type t{} = {}; ", if par { " a" } else { "" }, cs.join(" | "))
}

/// A tree of constructors.
#[derive(Clone)]
struct V(usize, Vec<V>);

/// All values with exactly `n` nodes.
fn values(s: &Shape, n: usize, memo: &mut Vec<Vec<V>>) -> Vec<V> {
    if n == 0 {
        return vec![];
    }
    if n < memo.len() {
        return memo[n].clone();
    }
    let mut out = Vec::new();
    for (c, fs) in s.iter().enumerate() {
        let k = fs.iter().filter(|f| **f == F::Rec).count();
        split(s, n - 1, k, memo, &mut vec![], &mut |ch| out.push(V(c, ch.to_vec())));
    }
    out
}

fn split(s: &Shape, n: usize, k: usize, memo: &mut Vec<Vec<V>>, acc: &mut Vec<V>, f: &mut dyn FnMut(&[V])) {
    if k == 0 {
        if n == 0 {
            f(acc);
        }
        return;
    }
    for first in 1..=n.saturating_sub(k - 1) {
        for v in values(s, first, memo) {
            acc.push(v);
            split(s, n - first, k - 1, memo, acc, f);
            acc.pop();
        }
    }
}

fn all_values(s: &Shape, max: usize, cap: usize) -> Vec<V> {
    let mut memo: Vec<Vec<V>> = vec![vec![]];
    for n in 1..=max {
        let v = values(s, n, &mut memo);
        memo.push(v);
    }
    memo.into_iter().flatten().take(cap).collect()
}

/// Writes the value, numbering its plain fields.
fn show(v: &V, s: &Shape, par: &dyn Fn(usize) -> String, next: &mut usize) -> String {
    let mut o = format!("({}", NAMES[v.0]);
    let mut ch = v.1.iter();
    for f in &s[v.0] {
        o.push(' ');
        match f {
            F::Rec => o.push_str(&show(ch.next().unwrap(), s, par, next)),
            F::Int => {
                *next += 1;
                o.push_str(&next.to_string());
            }
            F::Par => {
                *next += 1;
                o.push_str(&par(*next));
            }
        }
    }
    o.push(')');
    o
}

/// The algebras. `p` turns a parameter-typed field into an int.
fn algebra(kind: usize, s: &Shape, p: &dyn Fn(&str) -> String) -> String {
    let mut o = String::new();
    for (c, fs) in s.iter().enumerate() {
        let vars: Vec<String> = (0..fs.len()).map(|i| format!("v{i}")).collect();
        o.push_str(&format!("| {}{} -> ", NAMES[c], vars.iter().map(|v| format!(" {v}")).collect::<String>()));
        let term = |i: usize, f: &F| match f {
            F::Par => p(&vars[i]),
            _ => vars[i].clone(),
        };
        match kind {
            // a different weight for each place
            0 => {
                o.push_str(&format!("{}", c + 1));
                for (i, f) in fs.iter().enumerate() {
                    o.push_str(&format!(" * {} + {}", 7 + i, term(i, f)));
                }
            }
            // the same value again
            1 => {
                o.push_str(NAMES[c]);
                for v in &vars {
                    o.push_str(&format!(" {v}"));
                }
            }
            // a function of how far down
            2 => {
                o.push_str(&format!("\\d -> d * {}", c + 3));
                for (i, f) in fs.iter().enumerate() {
                    let t = if *f == F::Rec { format!("v{i} (d + {})", i + 1) } else { term(i, f) };
                    o.push_str(&format!(" * 5 + {t}"));
                }
            }
            // the last field only, the first field twice
            3 => match fs.len() {
                0 => o.push_str(&format!("{}", 40 + c)),
                n => o.push_str(&format!("{} * 3 + {} + {}", term(n - 1, &fs[n - 1]), term(0, &fs[0]), term(0, &fs[0]))),
            },
            // a data type of its own
            _ => {
                let mut t = String::from("Done");
                for (i, f) in fs.iter().enumerate() {
                    t = match f {
                        F::Rec => format!("(Two v{i} {t})"),
                        _ => format!("(One {} {t})", term(i, f)),
                    };
                }
                o.push_str(&format!("One {} {t}", 900 + c));
            }
        }
        o.push(' ');
    }
    format!("\\fold x -> match x with {o}end")
}

fn program(s: &Shape, mode: usize, nodes: usize, cap: usize) -> String {
    let par = s.iter().flatten().any(|f| *f == F::Par);
    let mut o = decl(s, par);
    o.push_str("type out = Done | One int rec | Two rec rec; type w a = W a; ");
    let nested = mode / 5 == 1;
    // the parameter holds ints or, nested, values of the same type with ints
    let inner = |n: usize| -> String {
        if !nested {
            return n.to_string();
        }
        let base = s.iter().position(|fs| !fs.contains(&F::Rec)).unwrap();
        let mut k = n * 10;
        show(&V(base, vec![]), s, &|n| n.to_string(), &mut k)
    };
    let p = |v: &str| if nested { format!("(inner {v})") } else { v.to_owned() };
    if nested {
        o.push_str(&format!("let inner : t int -> int = {}; ", algebra(0, s, &|v| v.to_owned())));
    }
    let ann = match mode % 5 {
        1 if nested => " : t a -> t a",
        3 if nested => " : t (t int) -> int",
        3 if par => " : t int -> int",
        _ => "",
    };
    o.push_str(&format!("let f{ann} = {}; ", algebra(mode % 5, s, &p)));
    let apply = if mode % 5 == 2 { " 1" } else { "" };
    for (i, v) in all_values(s, nodes, cap).iter().enumerate() {
        let mut n = 0;
        let t = show(v, s, &inner, &mut n);
        match i % 3 {
            0 => o.push_str(&format!("export let r{i} = f {t}{apply}; ")),
            1 => o.push_str(&format!("export let r{i} = let v = {t}; match W (f v{apply}) with | W y -> y end; ")),
            _ => o.push_str(&format!("let v{i}{} = {t}; export let r{i} = f v{i}{apply}; ", if nested { " : t (t int)" } else { "" })),
        }
    }
    o
}

fn shapes(ctors: usize, fields: usize) -> Vec<Shape> {
    let mut one: Vec<Vec<F>> = Vec::new();
    for n in 0..=fields {
        sequences(3, n, &mut |v| one.push(v.iter().map(|i| [F::Int, F::Rec, F::Par][*i]).collect()));
    }
    let mut out = Vec::new();
    sequences(one.len(), ctors, &mut |v| {
        let s: Shape = v.iter().map(|i| one[*i].clone()).collect();
        if s.iter().any(|fs| !fs.contains(&F::Rec)) {
            out.push(s);
        }
    });
    out
}

fn c14(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c14_case(&or, cx, s);
    let nodes = cx.pick(4, 5);
    let cap = cx.pick(24, 80);
    cx.bound("value_nodes", nodes);
    cx.bound("values_per_type", cap);
    let plan: &[(usize, usize)] = if cx.thorough { &[(1, 4), (2, 4), (3, 2), (4, 2)] } else { &[(1, 3), (2, 3), (3, 2), (4, 1)] };
    for (c, fl) in plan {
        cx.family(&format!("types_{c}_constructors_{fl}_fields"));
        for s in shapes(*c, *fl) {
            let par = s.iter().flatten().any(|f| *f == F::Par);
            for mode in 0..if par { 10 } else { 5 } {
                cx.lazy(|| program(&s, mode, nodes, cap), |cx, s| body(cx, s));
            }
        }
    }
    // every order of fields
    let (longest, mixed) = (cx.pick(7, 9), cx.pick(4, 6));
    cx.bound("orders_of_fields", longest);
    cx.family("orders_of_fields");
    for n in 4..=longest {
        let kinds = if n <= mixed { 3 } else { 2 };
        sequences(kinds, n, &mut |v| {
            let fs: Vec<F> = v.iter().map(|i| [F::Int, F::Rec, F::Par][*i]).collect();
            for s in [vec![vec![], fs.clone()], vec![fs.clone(), vec![F::Int]]] {
                for mode in 0..5 {
                    cx.lazy(|| program(&s, mode, 4.max(n / 2 + 2), 8), |cx, s| body(cx, s));
                }
            }
        });
    }
    // more fields than any inline path handles
    cx.family("wide_constructors");
    for n in [4usize, 5, 6, 7, 8, 9, 10, 12, 16, 20, 31, 32, 33, 63, 64, 65, 66] {
        for at in 0..n.min(12) {
            for two in [false, true] {
                let s: Shape = vec![vec![], (0..n).map(|i| if i == at || (two && i == n - 1) { F::Rec } else { F::Int }).collect()];
                for mode in [0, 1, 3] {
                    cx.lazy(|| program(&s, mode, 2 + 2 * n.min(1), 6), |cx, s| body(cx, s));
                }
            }
        }
    }
    // each recursive field is folded once, even when its result is not used
    cx.family("long");
    for n in [30usize, 60, 200] {
        for (f, t) in [("Cb 1 ", "Ca"), ("Cc Ca ", "Ca"), ("Cd 2 ", "Ca")] {
            for alg in ["| Ca -> 0 | Cb x r -> x + r | Cc l r -> r + 1 | Cd x r -> x", "| Ca -> 0 | Cb x r -> x | Cc l r -> l | Cd x r -> r", "| Ca -> 1 | Cb x r -> r + r | Cc l r -> l + r + r | Cd x r -> r * x * r"] {
                for shadow in [false, true] {
                    cx.lazy(
                        || {
                            let mut v = String::new();
                            for _ in 0..n {
                                v.push_str(f);
                                v.push('(');
                            }
                            let v = format!("{v}{t}{}", ")".repeat(n));
                            let body = if shadow { format!("\\fold x -> let y = match x with {alg} end; y + (match x with {alg} end)") } else { format!("\\fold x -> match x with {alg} end") };
                            format!("type t = Ca | Cb int rec | Cc rec rec | Cd int rec; let f = {body}; export let r = f ({v}); export let q = f Ca;")
                        },
                        |cx, s| body(cx, s),
                    );
                }
            }
        }
    }
}

const MEANING: &str = "a state is a program declaring one data type with one algebra applied to all its values up to the bound, a transition one run of it, a validated trace one run compared with the reference";
const ASSUMPTIONS: &[&str] = &["folding a field more than once is only observable by its running time, which the family of long values makes exponential"];

pub static C14: Check = Check { id: "C14", run: c14, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
