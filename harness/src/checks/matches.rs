//! C10: match coverage.
use crate::checks::front::{describe, family, real_unit, split_mods, Fam};
use crate::checks::text::sequences;
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, RUNNERS};
use crate::refimpl::check::Cls;
use std::collections::BTreeSet;

fn words(m: &str) -> BTreeSet<&str> {
    m.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').collect()
}

fn c10_case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    or.reset();
    let (mods, src) = split_mods(text);
    let mut r = real_unit(&mods, &src, true);
    let got = real::errors(&mut r);
    cx.ops(1);
    let spans: BTreeSet<_> = got.iter().map(|e| (e.0, e.1)).collect();
    cx.validated(1);
    match or.compile_mods(&mods, &src) {
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(u) => {
            let want: BTreeSet<_> = u.errors.iter().map(|e| e.span).collect();
            if want != spans {
                return Err(format!("errors are reported at {} but belong at {}: {got:?}", describe(&src, &spans), describe(&src, &want)));
            }
            for e in u.errors.iter().filter(|e| e.cls == Cls::NotCovered) {
                if u.errors.iter().any(|x| x.span == e.span && x.cls != e.cls) {
                    continue;
                }
                let here: Vec<&str> = got.iter().filter(|g| (g.0, g.1) == e.span).map(|g| g.2.as_str()).collect();
                let named: BTreeSet<&str> = here.iter().flat_map(|m| words(m)).collect();
                let right = if e.missing.len() <= 2 { e.missing.iter().all(|m| named.contains(m.as_str())) } else { e.missing.iter().any(|m| named.contains(m.as_str())) };
                // "A and 3 more": those named and those counted are all of them
                let counted: Vec<usize> = here.iter().flat_map(|m| m.split_whitespace()).filter_map(|w| w.parse().ok()).collect();
                if let [n] = counted.as_slice() {
                    let listed = e.missing.iter().filter(|m| named.contains(m.as_str())).count();
                    if here.len() == 1 && listed + n != e.missing.len() {
                        return Err(format!("the match lacks {:?}, {} constructors, but the message is {here:?}", e.missing, e.missing.len()));
                    }
                }
                if !right || e.covered.iter().any(|c| named.contains(c.as_str()) && !e.missing.contains(c)) {
                    return Err(format!("the match lacks {:?} and has {:?} but the message is {here:?}", e.missing, e.covered));
                }
            }
            cx.count("rejected", 1);
        }
        Verdict::Ok(u) => {
            if !got.is_empty() {
                return Err(format!("rejected: {got:?}"));
            }
            cx.count("accepted", 1);
            let Some(want) = or.run(&u) else { return Ok(()) };
            for o in [false, true] {
                let mut r = real_unit(&mods, &src, o);
                for k in RUNNERS {
                    let got = real::run(&mut r, k);
                    cx.ops(1);
                    if got != want {
                        return Err(format!("{k} (optimize: {o}) {got}, should have {want}"));
                    }
                    cx.validated(1);
                }
            }
        }
    }
    Ok(())
}

/// Field lists of the constructors, by position.
const SHAPES: [&[&str]; 3] = [&["", "int", "rec", "int rec", "rec int rec", "int int"], &["rec rec", "", "a int", "", "rec a", "int"], &["", "", "", "", "", ""]];
const CTORS: [&str; 6] = ["Ca", "Cb", "Cc", "Cd", "Ce", "Cf"];

fn ty(shape: &[&str], k: usize) -> String {
    let p = if shape.iter().any(|f| f.contains('a')) { " a" } else { "" };
    format!("type t{p} = {};", (0..k).map(|i| format!("{} {}", CTORS[i], shape[i])).collect::<Vec<_>>().join(" | "))
}

/// A value of each constructor.
fn value(shape: &[&str], i: usize, base: usize) -> String {
    let mut s = format!("({}", CTORS[i]);
    for (n, f) in shape[i].split_whitespace().enumerate() {
        if f == "rec" {
            s.push_str(&format!(" {}", value(shape, base, base)));
        } else {
            s.push_str(&format!(" {}", 10 * (i + 1) + n));
        }
    }
    s.push(')');
    s
}

/// Cases: `0..k` each constructor, `k` the same constructor 0 without its
/// fields' names, `k+1` a foreign one, `k+2` one with a field too many.
fn case_text(shape: &[&str], k: usize, c: usize) -> String {
    let vars = |n: usize| (0..n).map(|i| format!(" v{i}")).collect::<String>();
    if c < k {
        let fs: Vec<&str> = shape[c].split_whitespace().collect();
        let ints: String = fs.iter().enumerate().filter(|f| *f.1 != "rec").map(|(i, f)| if *f == "int" { format!(" * 100 + v{i}") } else { String::new() }).collect();
        format!("| {}{} -> {}{} ", CTORS[c], vars(fs.len()), c + 1, ints)
    } else if c == k {
        "| Other -> 50 ".to_owned()
    } else if c == k + 1 {
        format!("| {}{} -> 60 ", CTORS[0], vars(shape[0].split_whitespace().count() + 1))
    } else {
        "| Nowhere -> 70 ".to_owned()
    }
}

fn c10(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c10_case(&or, cx, s);
    let most = cx.pick(4, 5);
    cx.bound("constructors", most);
    for k in 1..=most {
        for (si, shape) in SHAPES.iter().enumerate() {
            // a constructor without recursive fields, for building values
            let Some(base) = (0..k).find(|i| !shape[*i].contains("rec")) else { continue };
            cx.family(&format!("case_lists_{k}"));
            for n in 0..=k + 1 {
                sequences(k + 3, n, &mut |v| {
                    for scrutinee in 0..4 {
                        if (scrutinee > 0 || si > 0) && v.iter().any(|c| *c == k + 2) {
                            cx.skip();
                            continue;
                        }
                        cx.lazy(
                            || {
                                let cases: String = v.iter().map(|c| case_text(shape, k, *c)).collect();
                                let mut s = format!("{} type o = Other | Ca2; ", ty(shape, k));
                                match scrutinee {
                                    0 => {
                                        for i in 0..k {
                                            s.push_str(&format!("export let r{i} = match {} with {cases}end; ", value(shape, i, base)));
                                        }
                                    }
                                    1 => {
                                        s.push_str(&format!("let f = \\x -> match x with {cases}end; "));
                                        for i in 0..k {
                                            s.push_str(&format!("export let r{i} = f {}; ", value(shape, i, base)));
                                        }
                                    }
                                    2 => {
                                        s.push_str(&format!("let f = \\fold x -> match x with {cases}end; "));
                                        for i in 0..k {
                                            s.push_str(&format!("export let r{i} = f {}; ", value(shape, i, base)));
                                        }
                                    }
                                    _ => {
                                        // a match in a match, around and inside
                                        s.push_str(&format!("let f = \\x -> match (match x with {cases}end) < 3 |> (\\b -> if b then Other else Ca2) with | Other -> 1 | Ca2 -> match x with {cases}end end; "));
                                        for i in 0..k {
                                            s.push_str(&format!("export let r{i} = f {}; ", value(shape, i, base)));
                                        }
                                    }
                                }
                                s
                            },
                            |cx, s| body(cx, s),
                        );
                    }
                });
            }
        }
    }
    // many constructors: each single omission, duplication and rotation
    cx.family("wide");
    for k in [8usize, 9, 10, 11, 16, 33, 64, 65, 130] {
        let names: Vec<String> = (0..k).map(|i| format!("K{i}x")).collect();
        let decl = format!("type t = {};", names.iter().enumerate().map(|(i, n)| if i % 3 == 1 { format!("{n} int") } else { n.clone() }).collect::<Vec<_>>().join(" | "));
        let arm = |i: usize| if i % 3 == 1 { format!("| {} x -> x + {i} ", names[i]) } else { format!("| {} -> {i} ", names[i]) };
        for i in 0..k {
            for kind in 0..3 {
                cx.lazy(
                    || {
                        let order: Vec<usize> = match kind {
                            0 => (0..k).filter(|j| *j != i).collect(),
                            1 => (0..k).chain([i]).collect(),
                            _ => (0..k).map(|j| (j + i) % k).collect(),
                        };
                        let cases: String = order.iter().map(|j| arm(*j)).collect();
                        let vals: String = (0..k).step_by(1 + k / 8).map(|j| format!("export let r{j} = f {}; ", if j % 3 == 1 { format!("({} 1000)", names[j]) } else { names[j].clone() })).collect();
                        format!("{decl} let f = \\x -> match x with {cases}end; {vals}")
                    },
                    |cx, s| body(cx, s),
                );
            }
        }
    }
    for f in FAMS {
        family(cx, f, body);
    }
}

const FAMS: &[Fam] = &[
    Fam {
        name: "modules",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "-- module m\nexport type t = export A | B int; let b = B 7; export let v = b; export type p a = export Q | R a; export type h = H; export let hv = H;\n-- module n\nimport m from \"m\"; export type t = export A | C int; export let v = C 8; export type u = export W (m.t) | A2; export let w = W m.v;\n-- main\n<I>export let r = match <S> with <C>end;\n"),
            ('P', 0, "-- module m\nexport type t = export A | B int; let b = B 7; export let v = b; export type p a = export Q | R a; export type h = H; export let hv = H;\n-- module n\nimport m from \"m\"; export type t = export A | C int; export let v = C 8; export type u = export W (m.t) | A2; export let w = W m.v;\n-- main\n<I>let f = \\s -> match s with <C>end; export let r = f <S>;\n"),
            ('I', 0, "import m from \"m\"; import n from \"n\"; "),
            ('I', 1, "import m from \"m\"; import n (A, C) from \"n\"; "),
            ('I', 1, "import m (A) from \"m\"; import n from \"n\"; "),
            ('I', 1, "import m (A) from \"m\"; import n from \"n\"; type t = A | D; "),
            ('S', 1, "m.v"),
            ('S', 1, "n.v"),
            ('S', 1, "n.w"),
            ('S', 1, "A"),
            ('S', 1, "m.A"),
            ('S', 1, "(n.C 3)"),
            ('S', 1, "m.hv"),
            ('C', 0, ""),
            ('C', 1, "| m.A -> 1 <C>"),
            ('C', 1, "| m.B x -> x <C>"),
            ('C', 1, "| n.A -> 3 <C>"),
            ('C', 1, "| n.C x -> x + 40 <C>"),
            ('C', 1, "| A -> 5 <C>"),
            ('C', 1, "| C y -> 60 + y <C>"),
            ('C', 1, "| n.W x -> 7 <C>"),
            ('C', 1, "| n.A2 -> 8 <C>"),
            ('C', 1, "| D -> 9 <C>"),
        ],
    },
    Fam {
        name: "shadowed",
        quick: 7,
        thorough: 8,
        rules: &[
            ('P', 0, "<I>let v = <V>; <I>export let r = match <S> with <C>end;"),
            ('I', 0, "type t = A | B; "),
            ('I', 1, "type t = B int | A; "),
            ('I', 1, "type u = A | C; "),
            ('I', 1, "type t a = A a | B; "),
            ('I', 1, ""),
            ('V', 1, "A"),
            ('V', 1, "B"),
            ('V', 1, "B 4"),
            ('V', 1, "\\x -> A x"),
            ('S', 1, "v"),
            ('S', 1, "A"),
            ('S', 1, "v 1"),
            ('S', 1, "1"),
            ('S', 1, "true"),
            ('S', 1, "(\\x -> x)"),
            ('C', 0, ""),
            ('C', 1, "| A -> 1 <C>"),
            ('C', 1, "| B -> 2 <C>"),
            ('C', 1, "| C -> 3 <C>"),
            ('C', 1, "| B x -> x <C>"),
            ('C', 1, "| A x -> 5 <C>"),
        ],
    },
    Fam {
        name: "nested",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "type t = A | B t; let v = B (B A); export let r = <M>;"),
            ('M', 1, "(match <S> with <C>end)"),
            ('S', 1, "v"),
            ('S', 1, "A"),
            ('S', 1, "x"),
            ('S', 1, "<N>"),
            ('N', 1, "(match v with | A -> v | B x -> <S> end)"),
            ('C', 0, ""),
            ('C', 1, "| A -> 1 <C>"),
            ('C', 1, "| B x -> <M> + 10 <C>"),
            ('C', 1, "| B x -> 2 <C>"),
            ('C', 1, "| A -> <M> <C>"),
        ],
    },
];

const MEANING: &str = "a state is a distinct program, a transition one check or run of it by the real code, a validated trace one outcome compared with the reference";
const ASSUMPTIONS: &[&str] = &["the reference coverage checker in harness/src/refimpl defines coverage; it shares no code with /repo"];

pub static C10: Check = Check { id: "C10", run: c10, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
