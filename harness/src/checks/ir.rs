//! C16: the printed intermediate code read back.
use crate::engine::{Check, Cx};
use crate::irtext::{self, Stop};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, Out, Runner};

fn case(or: &Oracle, cx: &mut Cx, src: &str) -> Result<(), String> {
    or.reset();
    let u = match or.compile(src) {
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(u) => return Err(format!("the reference rejects the generated program: {:?}", u.errors)),
        Verdict::Ok(u) => u,
    };
    let Some(want) = or.run(&u) else {
        cx.count("out_of_fuel", 1);
        return Ok(());
    };
    for o in [false, true] {
        let mut r = real::unit(src, o, &real::none());
        let e = real::errors(&mut r);
        if !e.is_empty() {
            return Err(format!("rejected: {e:?}"));
        }
        let text = r.emit_ir();
        cx.ops(1);
        let got = irtext::read(&text).and_then(|ir| match irtext::run(&ir, 20_000_000) {
            Ok(s) => Ok(Some(Out::Val(s))),
            Err(Stop::Trap(s)) => Ok(Some(Out::Trap(s))),
            Err(Stop::Fuel) => Ok(None),
            Err(Stop::Wrong(s)) => Err(s),
        });
        let got = match got {
            Ok(Some(g)) => g,
            Ok(None) => return Err(format!("optimize: {o}: the printed code does not finish, the program does: {want}\n{text}")),
            Err(e) => return Err(format!("optimize: {o}: the printed code cannot be read back: {e}\n{text}")),
        };
        let run = real::run(&mut r, Runner::Bytecode);
        cx.ops(1);
        if !(got == run || got.trap() && run.trap()) {
            return Err(format!("optimize: {o}: the printed code means: {got}, the program: {run}\n{text}"));
        }
        if !(got == want || got.trap() && want.trap() || o && want.trap()) {
            return Err(format!("optimize: {o}: the printed code means: {got}, the source: {want}\n{text}"));
        }
        cx.validated(1);
    }
    Ok(())
}

const OPS: [(&str, bool); 11] = [("+", false), ("-", false), ("*", false), ("/", false), ("%", false), ("<", true), ("<=", true), (">", true), (">=", true), ("==", true), ("!=", true)];

/// Operator trees with `n` leaves as text and whether the result is a truth value.
fn trees(n: usize, next: usize) -> Vec<(String, bool)> {
    const LEAF: [&str; 5] = ["a", "b", "3", "c", "(f 7)"];
    if n == 1 {
        return vec![(LEAF[next % 5].to_owned(), false)];
    }
    let mut out = Vec::new();
    for l in 1..n {
        let (x, y) = (trees(l, next), trees(n - l, next + l));
        for (x, xb) in &x {
            for (y, yb) in &y {
                if *xb || *yb {
                    continue;
                }
                for (o, b) in OPS {
                    out.push((format!("({x} {o} {y})"), b));
                }
            }
        }
    }
    out
}

/// Places an expression can stand in; `#` for one of type int.
const PLACES: [&str; 14] = [
    "#",
    "f #",
    "(# - 1) * 2",
    "if # < 2 then # else 3",
    "match Two # (\\x -> #) with | One -> 0 | Two x y -> y x | Three p -> 1 end",
    "match One with | One -> # | Two x y -> # | Three p -> p end",
    "(\\x -> #) a",
    "(\\x -> \\y -> #) a #",
    "let x = #; x * #",
    "let x : a -> a = \\y -> y; x #",
    "h (\\x -> #)",
    "len (str #)",
    "k (Three #)",
    "loop (Cons # (Cons 2 Nil))",
];

const HEAD: &str = "import i from \"std/intrinsics\"; type D = One | Two int (int -> int) | Three int; type L = Nil | Cons int rec; \
let f : int -> int = \\x -> x * 5 - 1; let h : (int -> int) -> int = \\g -> g (g 2); let len : string -> int = i.stringLength; let str : int -> string = i.intToString; \
let k : D -> int = \\d -> match d with | Three x -> x + 1 | One -> 0 | Two x g -> g x end; \
let loop : L -> int = \\fold l -> match l with | Nil -> 1 | Cons x r -> x - r end; ";

fn c16(cx: &mut Cx) {
    let or = Oracle::new();
    let n = cx.pick(4, 5);
    cx.family("operators");
    cx.bound("operators_leaves", n);
    for n in 2..=n {
        for (t, b) in trees(n, 0) {
            let t = if b { format!("if {t} then 10 else 20") } else { t };
            cx.lazy(|| format!("let f : int -> int = \\x -> x * x; let g : int -> int -> int -> int = \\a -> \\b -> \\c -> {t}; export let r = g 11 4 3; export let q = g 0 18446744073709551615 0;"), |cx, s| case(&or, cx, s));
        }
    }
    // every place an expression can stand in inside every other
    let depth = cx.pick(3, 4);
    cx.family("places");
    cx.bound("places_depth", depth);
    let inner = ["a", "(a + 1)", "(if a < 3 then a else 4)", "(let z = a; z + a)", "?hole", "(match One with | One -> a | Two x y -> x | Three x -> x end)"];
    let mut ix = vec![0usize; depth];
    loop {
        for e in inner {
            cx.lazy(
                || {
                    let mut s = e.to_owned();
                    for i in &ix {
                        s = format!("({})", PLACES[*i].replace('#', &s));
                    }
                    format!("{HEAD}export let r : int -> int = \\a -> {s}; export let q = r 9;")
                },
                |cx, s| case(&or, cx, s),
            );
        }
        let Some(p) = (0..depth).find(|p| ix[*p] + 1 < PLACES.len()) else { break };
        ix[p] += 1;
        ix[..p].fill(0);
    }
    cx.family("strings");
    for c in (32u8..127).filter(|c| *c != b'"' && *c != b'\\') {
        for t in [format!("{}", c as char), format!("a{}b", c as char), format!("{0}{0}", c as char), format!(" {} ", c as char)] {
            cx.lazy(|| format!("export let s : string = \"{t}\"; type W = W string; export let w = W \"{t}\"; import i from \"std/intrinsics\"; export let n = i.stringLength \"{t}\";"), |cx, s| case(&or, cx, s));
        }
    }
    for t in ["é", "日本", "😀", "\u{7f}", "a\u{a0}b", "\t"] {
        cx.lazy(|| format!("export let s : string = \"{t}\"; import i from \"std/intrinsics\"; export let n = i.stringLength \"{t}\";"), |cx, s| case(&or, cx, s));
    }
    cx.family("numbers");
    for k in 0..64 {
        for d in [0u64, 1, u64::MAX] {
            let n = (1u64 << k).wrapping_add(d);
            cx.lazy(|| format!("export let r = {n}; export let q = {n} - 1; type W = W int int; export let w = W {n} {n};"), |cx, s| case(&or, cx, s));
        }
    }
    // names: shadowing, equal names in different scopes, names that look like
    // the printed forms
    cx.family("names");
    let names = ["x", "t0", "t1", "x_1", "x_", "_x", "if_", "Pi", "for", "rec_", "true_", "end_1", "export_", "trap"];
    for a in names {
        for b in names {
            cx.lazy(
                || format!("type D = D int; let {a} : int = 5; let f : int -> int = \\{b} -> {b} - {a}; export let g : int -> int = \\{a} -> let {b} = {a} * 2; f {b} - {a}; export let {b} = match D (g 3) with | D {a} -> {a} + 1 end; let {a} : t0 -> t0 = \\{b} -> {b}; export let q = {a} (g 1);"),
                |cx, s| case(&or, cx, s),
            );
        }
    }
    // polymorphic code of every number of type parameters and shapes of types
    cx.family("types");
    let types = ["a", "b", "int", "O a", "O (O b)", "P a b", "P (O int) (a -> b)", "(a -> b)", "(a -> b) -> a", "a -> b -> a", "O (a -> O b)", "F a", "(a -> a) -> b -> F b"];
    for a in types {
        for b in types {
            cx.lazy(
                || {
                    format!(
                        "type O a = N | S a; type P a b = P a b; type F a = F (int -> a) | G rec (F a); let k : ({a}) -> ({b}) -> ({a}) = \\x -> \\y -> x; let m : O ({a}) -> (({a}) -> ({b})) -> O ({b}) = \\o -> \\f -> match o with | N -> N | S x -> S (f x) end; let e : O ({a}) = N; let u : P ({a}) (O ({b})) -> ({a}) = \\p -> match p with | P x y -> k x (match y with | N -> ?h | S z -> z end) end; export let fin : ({a}) -> int = \\x -> match m (S x) (\\v -> 1) with | N -> 0 | S q -> q end; export let w : O ({a}) -> O ({b}) -> int = \\x -> \\y -> 3; export let r = w N N; export let z = match e with | N -> 5 | S q -> 6 end;"
                    )
                },
                |cx, s| {
                    // `m` and `fin` only fit where `({b})` can be `int`; the
                    // reference decides
                    or.reset();
                    match or.compile(s) {
                        Verdict::Ok(_) => case(&or, cx, s),
                        _ => {
                            let mut r = real::unit(s, false, &real::none());
                            if real::errors(&mut r).is_empty() { Err("accepted a program the reference rejects".into()) } else { Ok(()) }
                        }
                    }
                },
            );
        }
    }
    super::run::corpus(cx, &mut |cx, s| case(&or, cx, s));
}

pub static C16: Check = Check {
    id: "C16",
    run: c16,
    assumptions: &["the reader of the printed code erases types: types are checked to be well formed and closed, not to be those of the values", "programs outside the enumerated families are not covered"],
    meaning: "a state is a distinct program, a transition one printing or run by the real code, a validated trace one printed program read back, evaluated and compared",
    hang_s: 60,
    mem_mb: 3000,
};
