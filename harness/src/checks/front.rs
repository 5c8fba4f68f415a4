//! C04, C05, C06, C07, C09, C10, C26: the front end against the reference.
use crate::cfg::Cfg;
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self};
use std::collections::BTreeSet;

pub struct Fam {
    pub name: &'static str,
    pub rules: &'static [(char, usize, &'static str)],
    pub quick: usize,
    pub thorough: usize,
}

impl Fam {
    /// The same family with smaller bounds.
    pub fn by(&self, less: usize) -> Fam {
        Fam { name: self.name, rules: self.rules, quick: self.quick.saturating_sub(less), thorough: self.thorough.saturating_sub(less) }
    }
}

pub fn family(cx: &mut Cx, f: &Fam, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    let max = cx.pick(f.quick, f.thorough);
    cx.family(f.name);
    cx.bound(&format!("{}_size", f.name), max);
    let mut g = Cfg::new(f.rules);
    g.upto('P', max, &mut |s| cx.lazy(s, |cx, s| body(cx, s)));
}

/// Names of all lengths around powers of two, that differ at the end only.
pub fn long_names(cx: &mut Cx, body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    cx.family("long_names");
    for n in [1usize, 2, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4097] {
        let name = |c: char| format!("{}{c}", "n".repeat(n - 1));
        let (a, b, c, d, e) = (name('a'), name('B'), name('c'), name('D'), name('_'));
        let one = format!("-- module m\nexport let {a} : int = 1; export type {b} {a} = export {c} {a} int | {d};\n-- main\nimport {e}({a}, {b}, {c}) from \"m\"; let {d} : {b} int -> int = \\{b} -> match {b} with | {e}.{c} {c} {d} -> {c} + {d} | {e}.{d} -> {e}.{a} end; export let {e} : {e}.{b} int -> int = \\{a} -> {d} ({c} 2 3) + {d} {a};\n");
        cx.case(&one, |cx| body(cx, &one));
        let two = format!("type {a} {b} = {c} {b} rec | {d}; let {e} : {a} int -> int = \\fold {a} -> match {a} with | {d} -> 0 | {c} {b} {c} -> {b} + {c} end; export let {b} = let {a} : {e} -> {e} = \\{e} -> {e}; {a} ({e} ({c} 1 {d})) + ?{a};");
        cx.case(&two, |cx| body(cx, &two));
    }
}

type Spans = BTreeSet<(usize, usize)>;

/// Error spans of the real checker and of the reference (`None` for a syntax error).
pub fn error_spans(or: &Oracle, cx: &mut Cx, src: &str) -> (Spans, Option<Spans>, Vec<(usize, usize, String)>) {
    or.reset();
    let (mods, src) = &split_mods(src);
    let mut u = real_unit(mods, src, true);
    let e = real::errors(&mut u);
    cx.ops(1);
    let want = match or.compile_mods(mods, src) {
        Verdict::Syntax => None,
        Verdict::Errors(u) => Some(u.errors.iter().map(|e| e.span).collect()),
        Verdict::Ok(_) => Some(BTreeSet::new()),
    };
    (e.iter().map(|e| (e.0, e.1)).collect(), want, e)
}

pub fn describe(src: &str, s: &Spans) -> String {
    format!("{:?}", s.iter().map(|x| format!("{}..{} {:?}", x.0, x.1, src.get(x.0..x.1).unwrap_or("<bad span>"))).collect::<Vec<_>>())
}

pub fn accept(or: &Oracle, cx: &mut Cx, src: &str, spans: bool) -> Result<bool, String> {
    let (got, want, raw) = error_spans(or, cx, src);
    let Some(want) = want else { return Err("the generated program has a syntax error".into()) };
    cx.validated(1);
    if got.is_empty() != want.is_empty() {
        return Err(if want.is_empty() {
            format!("a correct program is rejected: {raw:?}")
        } else {
            format!("an erroneous program is accepted; expected errors at {}", describe(src, &want))
        });
    }
    if spans && got != want {
        return Err(format!("errors are reported at {} but belong at {}", describe(src, &got), describe(src, &want)));
    }
    Ok(got.is_empty())
}

pub const C09_FAMS: &[Fam] = &[
    Fam {
        name: "lambda_calculus",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "let x = 1; let y = \\a -> a; export let r = <E>;"),
            ('P', 0, "let x = 1; let y = \\a -> a; export let r : int = <E>;"),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "(\\x -> <E>)"),
            ('E', 1, "(\\y -> <E>)"),
            ('E', 1, "(<E> <E>)"),
            ('E', 1, "(let x = <E>; <E>)"),
            ('E', 1, "(if <E> then <E> else <E>)"),
            ('E', 1, "(<E> < <E>)"),
        ],
    },
    Fam {
        name: "everything",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "type L a = N | K a rec; type D = A | B int; let x = 1; let y = true; let g : a -> a = \\x -> x; export let r = <E>;"),
            ('P', 0, "type L a = N | K a rec; type D = A | B int; let x = 1; let y = true; let g : a -> a = \\x -> x; export let r : <T> = <E>;"),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "g"),
            ('E', 1, "N"),
            ('E', 1, "A"),
            ('E', 1, "K"),
            ('E', 1, "\"s\""),
            ('E', 1, "?h"),
            ('E', 1, "(\\x -> <E>)"),
            ('E', 1, "(\\fold x -> <E>)"),
            ('E', 1, "(<E> <E>)"),
            ('E', 1, "(let x = <E>; <E>)"),
            ('E', 1, "(let x : <T> = <E>; <E>)"),
            ('E', 1, "(if <E> then <E> else <E>)"),
            ('E', 1, "(<E> + <E>)"),
            ('E', 1, "(<E> < <E>)"),
            ('E', 1, "(<E> |> <E>)"),
            ('E', 1, "(match <E> with | N -> <E> | K x y -> <E> end)"),
            ('E', 1, "(match <E> with | A -> <E> | B y -> <E> end)"),
            ('T', 1, "int"),
            ('T', 1, "bool"),
            ('T', 1, "(int -> int)"),
            ('T', 1, "L int"),
            ('T', 1, "a"),
        ],
    },
    Fam {
        name: "numbers_of_arguments",
        quick: 3,
        thorough: 4,
        rules: &[
            ('P', 0, "-- module m\nexport type p = c; export type t a = d a; export type w a b = e a b;\n-- main\n<Q>"),
            ('Q', 0, "import m(p, t, w) from \"m\"; type l = A; type k a = B a; export let r : <T> = ?h;"),
            ('Q', 0, "import m from \"m\"; import (t) from \"m\"; type l = A; type k a = B a <F>; export let r : int = 1;"),
            ('Q', 0, "import m(w) from \"m\"; type l = A; export let r : a -> int = \\x -> (let y : <T> = ?h; 1);"),
            ('F', 0, "(<T>)"),
            ('T', 0, "<H>"),
            ('T', 0, "<H> <A>"),
            ('T', 0, "<H> <A> <A>"),
            ('T', 0, "<A> -> <T>"),
            ('H', 1, "p"),
            ('H', 1, "t"),
            ('H', 1, "w"),
            ('H', 1, "m.p"),
            ('H', 1, "m.t"),
            ('H', 1, "m.w"),
            ('H', 1, "l"),
            ('H', 1, "k"),
            ('H', 1, "a"),
            ('A', 1, "int"),
            ('A', 1, "m.p"),
            ('A', 1, "m.t"),
            ('A', 1, "l"),
            ('A', 1, "k"),
            ('A', 1, "a"),
            ('A', 0, "(<T>)"),
        ],
    },
    Fam {
        name: "nested_folds",
        quick: 5,
        thorough: 7,
        rules: &[
            ('P', 0, "type N = Z | S rec; export let f = \\fold x -> (let g = \\fold y -> <E>; <E>);"),
            ('P', 0, "type N = Z | S rec; export let f : N -> int = \\fold x -> (let g : N -> bool = \\fold y -> <E>; <E>);"),
            ('P', 0, "type N = Z | S rec; export let f : N -> int = \\fold x -> match x with | Z -> 1 | S p -> (let g : N -> bool = \\fold y -> <E>; <E>) end;"),
            ('P', 0, "type N = Z | S rec; export let f : N -> a -> int = \\fold x -> \\w -> match x with | Z -> 1 | S p -> p (let g = \\fold y -> <E>; w) end;"),
            ('D', 1, "x"),
            ('D', 1, "y"),
            ('D', 1, "p"),
            ('D', 1, "Z"),
            ('D', 0, "(if true then <D> else <D>)"),
            ('B', 1, "1"),
            ('B', 1, "true"),
            ('B', 1, "r"),
            ('B', 1, "(g <D>)"),
            ('B', 1, "(p w)"),
            ('E', 0, "<D>"),
            ('E', 0, "<B>"),
            ('E', 0, "(match <D> with | Z -> <B> | S r -> <B> end)"),
        ],
    },
    Fam {
        name: "escaping_type_variables",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "type L a = N | K a rec; export let f = \\x -> \\y -> (let g : <S> = \\fold l -> match l with | N -> <J> | K h t -> (let o = <W>; <J>) end; <W>);"),
            ('P', 0, "type L a = N | K a rec; export let f : c -> d -> int = \\x -> \\y -> (let g : <S> = \\fold l -> match l with | N -> <J> | K h t -> (let o = <W>; <J>) end; 1);"),
            ('S', 1, "L a -> int"),
            ('S', 1, "L int -> a -> int"),
            ('S', 1, "L int -> L a"),
            ('S', 1, "L a -> L b -> a"),
            ('J', 0, "1"),
            ('J', 1, "t"),
            ('J', 0, "\\w -> 1"),
            ('J', 1, "N"),
            ('J', 1, "\\w -> h"),
            ('W', 0, "<V>"),
            ('W', 1, "(if true then <V> else <V>)"),
            ('W', 1, "x (<V>)"),
            ('W', 1, "x g"),
            ('V', 1, "x"),
            ('V', 1, "y"),
            ('V', 1, "h"),
            ('V', 1, "t"),
            ('V', 1, "l"),
            ('V', 1, "\\z -> h"),
            ('V', 1, "\\z -> t"),
            ('V', 1, "(K x l)"),
            ('V', 1, "\\fold k -> match k with | N -> x | K i j -> y end"),
        ],
    },
    Fam {
        name: "several_local_variables",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "type P a b = M a b; export let r = let f : <A> = \\x -> \\y -> <L>; <U>;"),
            ('P', 0, "type P a b = M a b; export let r : b -> a -> P a b = \\u -> \\v -> (let f : <A> = \\x -> \\y -> <L>; <U>);"),
            ('A', 1, "a -> b -> a"),
            ('A', 1, "b -> a -> a"),
            ('A', 1, "c -> d -> P d c"),
            ('A', 1, "c -> d -> c -> d"),
            ('A', 1, "(c -> d) -> c -> d"),
            ('A', 1, "c -> a -> P a c"),
            ('A', 1, "c -> d -> e -> e"),
            ('L', 1, "x"),
            ('L', 1, "y"),
            ('L', 1, "x y"),
            ('L', 1, "M x y"),
            ('L', 1, "M y x"),
            ('L', 1, "\\z -> y"),
            ('L', 1, "\\z -> z"),
            ('L', 1, "?h"),
            ('U', 0, "<V>"),
            ('V', 1, "f"),
            ('V', 1, "u"),
            ('V', 1, "1"),
            ('V', 1, "true"),
            ('V', 1, "(\\x -> x)"),
            ('V', 0, "(f <V> <V>)"),
            ('V', 1, "(f <V>)"),
            ('V', 1, "(let g : e -> h -> e = \\x -> \\y -> x; g <V> \"s\")"),
            ('V', 1, "(match <V> with | M x y -> f y x end)"),
        ],
    },
    Fam {
        name: "polymorphism",
        quick: 7,
        thorough: 8,
        rules: &[
            ('P', 0, "type P a b = M a b; let i : a -> a = \\x -> x; let k : a -> b -> a = \\x -> \\y -> x; export let r : <S> = \\x -> \\y -> <E>;"),
            ('S', 1, "a -> b -> a"),
            ('S', 1, "a -> a -> a"),
            ('S', 1, "a -> b -> P a b"),
            ('S', 1, "a -> b -> P b a"),
            ('S', 1, "(a -> b) -> a -> b"),
            ('S', 1, "int -> a -> a"),
            ('S', 1, "a -> a -> int"),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "1"),
            ('E', 1, "(i <E>)"),
            ('E', 1, "(k <E> <E>)"),
            ('E', 1, "(M <E> <E>)"),
            ('E', 1, "(<E> <E>)"),
            ('E', 1, "(let z : <V> = <E>; <E>)"),
            ('E', 1, "(let y = <E>; <E>)"),
            ('E', 1, "(match <E> with | M x y -> <E> end)"),
            ('E', 1, "z"),
            ('V', 1, "a"),
            ('V', 1, "b"),
            ('V', 1, "c"),
            ('V', 1, "c -> c"),
            ('V', 1, "a -> b"),
            ('V', 1, "P a c"),
        ],
    },
    Fam {
        name: "local_polymorphism",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "let i : a -> a = \\x -> x; export let r = let f<A> = <L>; <U>;"),
            ('A', 1, ""),
            ('A', 1, " : a -> a"),
            ('A', 1, " : int -> int"),
            ('A', 1, " : a -> b"),
            ('A', 1, " : a -> int"),
            ('A', 1, " : (a -> a) -> a -> a"),
            ('L', 1, "\\x -> <B>"),
            ('L', 1, "i"),
            ('L', 1, "i i"),
            ('B', 1, "x"),
            ('B', 1, "1"),
            ('B', 1, "i x"),
            ('B', 1, "x 1"),
            ('B', 1, "(let g : a -> a = \\y -> <B>; g x)"),
            ('B', 1, "(let g : b -> b = \\y -> y; g (<B>))"),
            ('B', 1, "(let g : c -> a = \\y -> <B>; g true)"),
            ('U', 1, "f 1"),
            ('U', 1, "f true"),
            ('U', 1, "f f"),
            ('U', 1, "f i"),
            ('U', 1, "(let a = <U>; <U>)"),
            ('U', 1, "(if <U> then <U> else <U>)"),
            ('U', 1, "f (<U>)"),
        ],
    },
    Fam {
        name: "declarations",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "type O a = No | So a; type P a b = Mk a b; type X<Q> = C <F>; export let r = 1;"),
            ('P', 0, "type O a = No | So a; type P a b = Mk a b; let f : <T> = ?h; export let r = 1;"),
            ('P', 0, "type O a = No | So a; type P a b = Mk a b; export let r = let f : <T> = ?h; 1;"),
            ('P', 0, "type O a = No | So a; type P a b = Mk a b; type X<Q> = E | C <F> | D <F>; export let r = E;"),
            ('Q', 1, ""),
            ('Q', 1, " a"),
            ('Q', 1, " a b"),
            ('Q', 1, " O"),
            ('F', 1, "<G>"),
            ('F', 1, "<G> <G>"),
            ('G', 1, "rec"),
            ('G', 1, "int"),
            ('G', 1, "a"),
            ('G', 1, "O"),
            ('G', 1, "X"),
            ('G', 1, "(<T>)"),
            ('T', 1, "int"),
            ('T', 1, "a"),
            ('T', 1, "b"),
            ('T', 1, "B"),
            ('T', 1, "O"),
            ('T', 1, "O <U>"),
            ('T', 1, "P <U>"),
            ('T', 1, "P <U> <U>"),
            ('T', 1, "a <U>"),
            ('T', 1, "X"),
            ('T', 1, "X <U>"),
            ('T', 1, "<U> -> <T>"),
            ('U', 1, "int"),
            ('U', 1, "a"),
            ('U', 1, "O"),
            ('U', 1, "X"),
            ('U', 0, "(<T>)"),
        ],
    },
    Fam {
        name: "folds",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "type L a = N | K a rec; type D = A | B rec rec; let l = K 1 N; export let r<A> = <E>;"),
            ('A', 1, ""),
            ('A', 1, " : L int -> int"),
            ('A', 1, " : L a -> L a"),
            ('A', 1, " : a -> a"),
            ('A', 1, " : L int -> int -> int"),
            ('E', 1, "(\\fold x -> <E>)"),
            ('E', 1, "(\\y -> <E>)"),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "1"),
            ('E', 1, "N"),
            ('E', 1, "l"),
            ('E', 1, "(match <E> with | N -> <E> | K h t -> <E> end)"),
            ('E', 1, "(match x with | A -> <E> | B h t -> <E> end)"),
            ('E', 1, "(match x with | N -> <E> | K h t -> <E> end)"),
            ('E', 1, "h"),
            ('E', 1, "t"),
            ('E', 1, "(<E> <E>)"),
            ('E', 1, "(K <E> <E>)"),
            ('E', 1, "(<E> + <E>)"),
            ('E', 1, "(let x = x; <E>)"),
            ('E', 1, "((\\f -> f x) (\\fold q -> <E>))"),
        ],
    },
    Fam {
        name: "across_items",
        quick: 6,
        thorough: 6,
        rules: &[
            ('P', 0, "type L a = N | K a rec; let p<A> = <E>; let q<A> = <F>; export let r<A> = <F>;"),
            ('A', 1, ""),
            ('A', 1, " : int"),
            ('A', 1, " : bool"),
            ('A', 1, " : L int"),
            ('A', 1, " : a -> a"),
            ('E', 1, "1"),
            ('E', 1, "N"),
            ('E', 1, "\\x -> x"),
            ('E', 1, "\\x -> x 1"),
            ('E', 1, "K"),
            ('E', 1, "?h"),
            ('E', 1, "1 1"),
            ('E', 1, "\\f -> \\x -> f (f x)"),
            ('F', 1, "p"),
            ('F', 1, "K p N"),
            ('F', 1, "p 1"),
            ('F', 1, "p true"),
            ('F', 1, "p p"),
            ('F', 1, "p q"),
            ('F', 1, "q"),
            ('F', 1, "q 1"),
            ('F', 1, "q + 1"),
            ('F', 1, "(if <F> then <F> else <F>)"),
        ],
    },
    Fam {
        name: "type_contexts",
        quick: 3,
        thorough: 4,
        rules: &[
            ('P', 0, "type L a = N | K a rec; type E a b = Lf a | Rt b | Bo b a; type W a = W a (int -> a) rec | U; let i : a -> a = \\x -> x; let k : a -> b -> a = \\x -> \\y -> x; let s : a -> a -> a = \\x -> \\y -> x; let n = 1; export let r<A> = \\x -> \\y -> <S>;"),
            ('A', 0, ""),
            ('A', 0, " : a -> b -> a"),
            ('A', 0, " : E int bool -> L int -> int"),
            ('S', 1, "x"),
            ('S', 1, "y"),
            ('S', 1, "z"),
            ('S', 1, "w"),
            ('S', 1, "n"),
            ('S', 1, "N"),
            ('S', 1, "U"),
            ('S', 1, "(Bo x y)"),
            ('S', 1, "i"),
            ('S', 1, "Lf"),
            ('S', 1, "?h"),
            ('S', 1, "(\\z -> <S>)"),
            ('S', 1, "(\\fold z -> <S>)"),
            ('S', 1, "(\\fold z -> match z with | N -> x | K z w -> <S> end)"),
            ('S', 1, "(\\fold z -> match z with | U -> n | W z _ w -> <S> end)"),
            ('S', 1, "(<S> x)"),
            ('S', 1, "(<S> n y)"),
            ('S', 1, "(i <S>)"),
            ('S', 1, "(x <S>)"),
            ('S', 1, "(k <S> y)"),
            ('S', 1, "(s x <S>)"),
            ('S', 1, "(s <S> y)"),
            ('S', 1, "(s (\\z -> z) <S>)"),
            ('S', 1, "(K <S> N)"),
            ('S', 1, "(K x <S>)"),
            ('S', 1, "(Lf <S>)"),
            ('S', 1, "(Bo <S> y)"),
            ('S', 1, "(W n <S> U)"),
            ('S', 1, "(let z = <S>; z)"),
            ('S', 1, "(let z = \\w -> <S>; s (z n) x)"),
            ('S', 1, "(let z = \\w -> w; <S>)"),
            ('S', 1, "(let z : c -> c = \\w -> w; <S>)"),
            ('S', 1, "(let z : c -> L c = \\w -> <S>; z y)"),
            ('S', 1, "(let z : c -> E a c = \\w -> <S>; z)"),
            ('S', 1, "(if <S> then x else y)"),
            ('S', 1, "(if z then <S> else w)"),
            ('S', 1, "(if true then y else <S>)"),
            ('S', 1, "(n + <S>)"),
            ('S', 1, "(<S> < x)"),
            ('S', 1, "(<S> |> i)"),
            ('S', 1, "(x |> <S>)"),
            ('S', 1, "(match <S> with | N -> x | K z w -> z end)"),
            ('S', 1, "(match <S> with | Lf z -> x | Rt z -> z | Bo z w -> w end)"),
            ('S', 1, "(match x with | Lf z -> <S> | Rt z -> y | Bo z w -> x end)"),
            ('S', 1, "(match x with | Lf z -> n | Rt z -> <S> | Bo z w -> w end)"),
            ('S', 1, "(match x with | Lf z -> z | Rt z -> n | Bo z w -> <S> end)"),
            ('S', 1, "(match y with | N -> <S> | K z w -> z end)"),
            ('S', 1, "(match y with | U -> x | W z w _ -> <S> end)"),
            ('S', 1, "(match Rt <S> with | Lf z -> n | Bo z w -> w | Rt z -> z end)"),
        ],
    },
    Fam {
        name: "constructors",
        quick: 7,
        thorough: 8,
        rules: &[
            ('P', 0, "type D = A | B int | C int bool rec; type E a = F a; export let r = <E>;"),
            ('E', 1, "1"),
            ('E', 1, "true"),
            ('E', 1, "A"),
            ('E', 1, "(B <E>)"),
            ('E', 1, "(C <E> <E>)"),
            ('E', 1, "(C <E> <E> <E>)"),
            ('E', 1, "(F <E>)"),
            ('E', 1, "(match <E> with | A -> <E> | B<V> -> <E> | C<V> -> <E> end)"),
            ('E', 1, "(match <E> with | F<V> -> <E> end)"),
            ('E', 1, "x"),
            ('V', 1, ""),
            ('V', 1, " x"),
            ('V', 1, " _ x"),
            ('V', 1, " _ _ x"),
            ('V', 1, " a b c d"),
        ],
    },
];

fn c09(cx: &mut Cx) {
    let or = Oracle::new();
    long_names(cx, &mut |cx, s| accept(&or, cx, s, false).map(|ok| cx.count(if ok { "accepted" } else { "rejected" }, 1)));
    let strict = std::env::var("MC_SPANS").is_ok();
    for f in C09_FAMS.iter().chain(NAMES) {
        family(cx, f, &mut |cx, s| {
            if accept(&or, cx, s, strict)? {
                cx.count("accepted", 1);
            } else {
                cx.count("rejected", 1);
            }
            Ok(())
        });
    }
}

const MEANING: &str = "a state is a distinct program, a transition one query of the real front end on it, a validated trace one answer compared with the reference implementation";
const ASSUMPTIONS: &[&str] = &["the reference checker in harness/src/refimpl is the definition of the language; it shares no code with /repo and agrees with every program of the test tree"];

pub static C09: Check = Check { id: "C09", run: c09, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };

// ---- several modules in one case text ------------------------------------

/// `-- module NAME` starts a module, `-- main` the program.
pub fn split_mods(text: &str) -> (Vec<(String, String)>, String) {
    if !text.starts_with("-- module ") {
        return (vec![], text.to_owned());
    }
    let mut mods: Vec<(String, String)> = Vec::new();
    let mut main = None;
    for l in text.split_inclusive('\n') {
        if main.is_none() {
            if let Some(n) = l.strip_prefix("-- module ") {
                mods.push((n.trim().to_owned(), String::new()));
                continue;
            }
            if l.trim_end() == "-- main" {
                main = Some(String::new());
                continue;
            }
        }
        match &mut main {
            Some(m) => m.push_str(l),
            None => mods.last_mut().unwrap().1.push_str(l),
        }
    }
    (mods, main.unwrap_or_default())
}

pub fn real_unit(mods: &[(String, String)], src: &str, optimize: bool) -> ticc::CompilationUnit {
    let r: real::Res = if mods.is_empty() { real::none() } else { real::mods(mods, real::opts(optimize)) };
    real::unit(src, optimize, &r)
}

// ---- names ---------------------------------------------------------------

pub const NAMES: &[Fam] = &[
    Fam {
        name: "values",
        quick: 9,
        thorough: 10,
        rules: &[
            ('P', 0, "<I><I>export let y = <E>;"),
            ('I', 1, ""),
            ('I', 1, "let x = <E>; "),
            ('I', 1, "let x : a -> a = <E>; "),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "(\\x -> <E>)"),
            ('E', 1, "(\\fold y -> <E>)"),
            ('E', 1, "(let x = <E>; <E>)"),
            ('E', 1, "(let y : int = <E>; <E>)"),
            ('E', 1, "(<E> <E>)"),
        ],
    },
    Fam {
        name: "constructors_and_patterns",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "<I>let x = 1; <I>export let r = <E>;"),
            ('I', 1, ""),
            ('I', 1, "type x = C int | x | y int; "),
            ('I', 1, "type y = C rec | x | y y; "),
            ('I', 1, "type y = C int | C x; "),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "C"),
            ('E', 1, "(\\C -> <E>)"),
            ('E', 1, "(match <E> with | C x -> <E> | x -> <E> end)"),
            ('E', 1, "(match <E> with | y x -> <E> | C C -> <E> end)"),
            ('E', 1, "(let x = <E>; <E>)"),
        ],
    },
    Fam {
        name: "types",
        quick: 7,
        thorough: 8,
        rules: &[
            ('P', 0, "<I>type C a = c <F>; <I>let f : <T> -> a = ?h; export let r : <T> = (let g : <T> -> C a = (let a : a = ?i; ?j); \\x -> (let h : b -> a = ?k; f));"),
            ('I', 1, ""),
            ('I', 1, "type a = A; "),
            ('I', 1, "type b a = B a rec; "),
            ('F', 1, "a"),
            ('F', 1, "b"),
            ('F', 1, "(b <F>)"),
            ('T', 1, "a"),
            ('T', 1, "b"),
            ('T', 1, "B"),
            ('T', 1, "C <U>"),
            ('T', 1, "b <U>"),
            ('T', 1, "<U> -> <T>"),
            ('U', 0, "(<T>)"),
            ('U', 1, "a"),
            ('U', 1, "int"),
        ],
    },
    Fam {
        name: "modules",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "-- module m\nexport type t a = export c a | d; export type p = q; export let x : int = 1; let y = x; export let t = 2; type u = export w;\n-- main\n<I><I>export let r : <T> = <E>;\n"),
            ('I', 1, ""),
            ('I', 1, "import m from \"m\"; "),
            ('I', 1, "import (x, t, c) from \"m\"; "),
            ('I', 1, "import x(y, q, w, t) from \"m\"; "),
            ('I', 1, "import m from \"nowhere\"; "),
            ('I', 1, "let m = 1; "),
            ('E', 1, "x"),
            ('E', 1, "m.x"),
            ('E', 1, "m.y"),
            ('E', 1, "m.c"),
            ('E', 1, "m.d"),
            ('E', 1, "m.q"),
            ('E', 1, "m.w"),
            ('E', 1, "m.t"),
            ('E', 1, "x.t"),
            ('E', 1, "t"),
            ('E', 1, "c"),
            ('E', 1, "(match x with | m.c x -> <E> | m.d -> <E> | c m -> x end)"),
            ('E', 1, "(match m with | m.t -> t | x.q -> <E> | t -> <E> | m.z -> 1 end)"),
            ('E', 1, "(let m = <E>; <E>)"),
            ('E', 1, "(\\x -> <E>)"),
            ('T', 1, "int"),
            ('T', 1, "t int"),
            ('T', 1, "m.t a"),
            ('T', 1, "m.p"),
            ('T', 1, "m.u"),
            ('T', 1, "x.t (m.t a)"),
            ('T', 1, "m.x"),
            ('T', 1, "c"),
        ],
    },
    Fam {
        name: "name_contexts",
        quick: 4,
        thorough: 5,
        rules: &[
            ('P', 0, "-- module m\nexport type t a = export c a | d; export type p = q; export let x : int = 1; let y = x; export let t = 2; type u = export w;\n-- main\n<I>export let r = <E>;\n"),
            ('I', 0, "import m from \"m\"; type v a = d | c a v; let x = 1; "),
            ('I', 0, "import m(c, x) from \"m\"; let y = 2; let x = c; type t a = d a | q; "),
            ('I', 0, "let x = 1; import y(d, t) from \"m\"; let y = d; "),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "c"),
            ('E', 1, "d"),
            ('E', 1, "m.x"),
            ('E', 1, "m.d"),
            ('E', 1, "y.t"),
            ('E', 1, "m.y"),
            ('E', 1, "m.nothing"),
            ('E', 1, "(\\x -> <E>)"),
            ('E', 1, "(\\y -> \\x -> <E>)"),
            ('E', 1, "(\\d -> <E>)"),
            ('E', 1, "(\\fold x -> <E>)"),
            ('E', 1, "(let x = <E>; x)"),
            ('E', 1, "(let x = y; <E>)"),
            ('E', 1, "(let y : a -> a = <E>; y)"),
            ('E', 1, "(let x : a -> a = x; <E>)"),
            ('E', 1, "(let y : int = <E>; x)"),
            ('E', 1, "(let y : t a = y; <E>)"),
            ('E', 1, "(match <E> with | c x -> x | d -> y end)"),
            ('E', 1, "(match x with | c y -> <E> | d -> y end)"),
            ('E', 1, "(match y with | d x -> x | q -> <E> end)"),
            ('E', 1, "(match <E> with | m.c x -> x | y.d -> c end)"),
            ('E', 1, "(match x with | m.c x -> <E> | m.q -> y end)"),
            ('E', 1, "(match x with | m.x -> y | y.c y -> <E> end)"),
            ('E', 1, "(<E> y)"),
            ('E', 1, "(x <E>)"),
            ('E', 1, "(m.c <E>)"),
            ('E', 1, "(m.t + <E>)"),
            ('E', 1, "(<E> |> x)"),
            ('E', 1, "(if <E> then x else y)"),
            ('E', 1, "(if x then <E> else m.x)"),
            ('E', 1, "(if y then x else <E>)"),
        ],
    },
    Fam {
        name: "type_contexts",
        quick: 4,
        thorough: 5,
        rules: &[
            ('P', 0, "-- module m\nexport type t a = export c a | d; export type p = q; type u = w; export let x : int = 1;\n-- main\n<I>export let r : int = 1;\n"),
            ('I', 0, "import m(t) from \"m\"; type v a = e a <F>; "),
            ('I', 0, "import m from \"m\"; let f : <T> = ?h; "),
            ('I', 0, "import m(p) from \"m\"; type t a = h a; let f = \\x -> (let g : <T> = ?h; g); "),
            ('I', 0, "import t(t, p) from \"m\"; let f : a -> int = \\x -> (let g : b -> <T> = ?h; let k : <T> = ?k; 1); "),
            ('I', 0, "import m from \"m\"; type m = e; type v a b = e | k a <F> rec; let g : v <U> <U> = e; "),
            ('F', 0, "<U>"),
            ('U', 1, "a"),
            ('U', 1, "b"),
            ('U', 1, "v"),
            ('U', 1, "t"),
            ('U', 1, "m.p"),
            ('U', 1, "m.u"),
            ('U', 0, "(<T>)"),
            ('T', 1, "int"),
            ('T', 1, "a"),
            ('T', 1, "p"),
            ('T', 1, "m"),
            ('T', 1, "t <U>"),
            ('T', 1, "m.t <U>"),
            ('T', 1, "v <U> a"),
            ('T', 1, "t.t <U>"),
            ('T', 1, "m.x"),
            ('T', 1, "c <U>"),
            ('T', 1, "<U> -> int"),
            ('T', 1, "b -> <T>"),
        ],
    },
    Fam {
        name: "spellings",
        quick: 1,
        thorough: 1,
        rules: &[
            ('P', 0, "let <N> = 1; export let r = 2;"),
            ('P', 0, "export let r = let <N> = 1; 2;"),
            ('P', 0, "export let r = \\<N> -> 2;"),
            ('P', 0, "export let r = \\fold <N> -> 2;"),
            ('P', 0, "type t = <N> int; export let r : t -> int = \\v -> 1;"),
            ('P', 0, "type <N> = C int; export let r = C 1;"),
            ('P', 0, "type t <N> = C int; export let r = C 1;"),
            ('P', 0, "type t = C int int; export let r = match C 1 2 with | C <N> q -> q end;"),
            ('P', 0, "type t = C int int; export let r = match C 1 2 with | C q <N> -> q end;"),
            ('P', 0, "-- module m\nexport let q : int = 1; export let a : int = 1;\n-- main\nimport <N> from \"m\"; export let r = 2;"),
            ('P', 0, "-- module m\nexport let q : int = 1; export let <N> : int = 1;\n-- main\nimport (<N>, q) from \"m\"; export let r = q;"),
            ('N', 0, "a"),
            ('N', 0, "Z"),
            ('N', 0, "_"),
            ('N', 0, "aa"),
            ('N', 0, "aZ"),
            ('N', 0, "a_"),
            ('N', 0, "a1"),
            ('N', 0, "Za"),
            ('N', 0, "ZZ"),
            ('N', 0, "Z_"),
            ('N', 0, "Z1"),
            ('N', 0, "_a"),
            ('N', 0, "_Z"),
            ('N', 0, "__"),
            ('N', 0, "_1"),
            ('N', 0, "aaa"),
            ('N', 0, "aaZ"),
            ('N', 0, "aa_"),
            ('N', 0, "aa1"),
            ('N', 0, "aZa"),
            ('N', 0, "aZZ"),
            ('N', 0, "aZ_"),
            ('N', 0, "aZ1"),
            ('N', 0, "a_a"),
            ('N', 0, "a_Z"),
            ('N', 0, "a__"),
            ('N', 0, "a_1"),
            ('N', 0, "a1a"),
            ('N', 0, "a1Z"),
            ('N', 0, "a1_"),
            ('N', 0, "a11"),
            ('N', 0, "Zaa"),
            ('N', 0, "ZaZ"),
            ('N', 0, "Za_"),
            ('N', 0, "Za1"),
            ('N', 0, "ZZa"),
            ('N', 0, "ZZZ"),
            ('N', 0, "ZZ_"),
            ('N', 0, "ZZ1"),
            ('N', 0, "Z_a"),
            ('N', 0, "Z_Z"),
            ('N', 0, "Z__"),
            ('N', 0, "Z_1"),
            ('N', 0, "Z1a"),
            ('N', 0, "Z1Z"),
            ('N', 0, "Z1_"),
            ('N', 0, "Z11"),
            ('N', 0, "_aa"),
            ('N', 0, "_aZ"),
            ('N', 0, "_a_"),
            ('N', 0, "_a1"),
            ('N', 0, "_Za"),
            ('N', 0, "_ZZ"),
            ('N', 0, "_Z_"),
            ('N', 0, "_Z1"),
            ('N', 0, "__a"),
            ('N', 0, "__Z"),
            ('N', 0, "___"),
            ('N', 0, "__1"),
            ('N', 0, "_1a"),
            ('N', 0, "_1Z"),
            ('N', 0, "_1_"),
            ('N', 0, "_11"),
        ],
    },
    Fam {
        name: "similar_names",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "let ab = 1; let aB = 2; let _ab = 3; type Ab = ab_ | AB; type AB = Ab int; export let r = <E>;"),
            ('P', 0, "-- module m\nexport let ab : int = 1; export let aB : int = 2; export type Ab = export AB | Ab;\n-- main\nimport ab(aB, Ab) from \"m\"; import aB(ab, AB) from \"m\"; export let r : Ab -> int = \\AB -> <E>;"),
            ('P', 1, "-- module m\nexport let _ab : int = 1; export let ab_ : int = 2; export type _AB = export _Ab int | AB_;\n-- main\nimport ab(_ab, _AB) from \"m\"; import _aB(AB_, _Ab) from \"m\"; export let r : _aB._AB -> int = \\Ab -> <G>;"),
            ('G', 0, "<E>"),
            ('G', 1, "_ab"),
            ('G', 1, "_aB._ab"),
            ('G', 1, "ab._Ab ab.ab_"),
            ('G', 1, "(match Ab with | _aB._Ab _ab -> <E> | ab.AB_ -> <E> end)"),
            ('E', 1, "ab"),
            ('E', 1, "aB"),
            ('E', 1, "AB"),
            ('E', 1, "a"),
            ('E', 1, "aB.Ab"),
            ('E', 1, "(\\ab -> <E>)"),
            ('E', 1, "(let aB = <E>; <E>)"),
            ('E', 1, "(match <E> with | Ab AB -> <E> | AB -> ab end)"),
            ('E', 1, "(match <E> with | ab.AB -> <E> | ab.Ab -> aB end)"),
        ],
    },
    Fam {
        name: "items_in_order",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "<I><I><I>export let r = x y z;"),
            ('I', 1, ""),
            ('I', 1, "let x = <E>; "),
            ('I', 1, "export let y = <E>; "),
            ('I', 1, "let _z = <E>; "),
            ('I', 1, "type x = y | _z; "),
            ('I', 1, "type t a = export z a x; "),
            ('I', 1, "export type _u = z int; "),
            ('E', 1, "x"),
            ('E', 1, "y"),
            ('E', 1, "z"),
            ('E', 1, "_z"),
            ('E', 1, "(\\_x -> x)"),
            ('E', 1, "(\\x -> <E>)"),
            ('E', 1, "(match <E> with | z x -> 1 | y -> z end)"),
        ],
    },
];

struct Expect<'a> {
    mods: Vec<(String, String)>,
    src: String,
    _p: std::marker::PhantomData<&'a ()>,
}

fn both(or: &Oracle, text: &str) -> Result<(Expect<'static>, ticc::CompilationUnit, crate::refimpl::check::Unit), String> {
    or.reset();
    let (mods, src) = split_mods(text);
    let u = match or.compile_mods(&mods, &src) {
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(u) => u,
        Verdict::Ok(u) => std::rc::Rc::try_unwrap(u).ok().unwrap(),
    };
    let r = real_unit(&mods, &src, true);
    Ok((Expect { mods, src, _p: Default::default() }, r, u))
}

/// Name-related error classes, which must be reported exactly at their name.
fn name_class(c: crate::refimpl::check::Cls) -> bool {
    use crate::refimpl::check::Cls::*;
    matches!(c, UndefVar | UndefType | UndefModule | UndefCtor | NoExport | WrongNs | ModMissing | DupCtor)
}

fn sp(s: ticc::Span) -> (usize, usize) {
    (s.start().source_pos(), s.end().source_pos())
}

fn c05_case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    let (x, mut r, u) = both(or, text)?;
    let src = &x.src;
    // undefined names are reported, at the name, and nothing else is
    let errs: Spans = real::errors(&mut r).iter().map(|e| (e.0, e.1)).collect();
    cx.ops(1);
    let all: Spans = u.errors.iter().map(|e| e.span).collect();
    let names: Spans = u.errors.iter().filter(|e| name_class(e.cls)).map(|e| e.span).collect();
    if let Some(m) = names.iter().find(|n| !errs.contains(n)) {
        return Err(format!("{:?} at {m:?} is not declared but no error is reported there; errors at {}", &src[m.0..m.1], describe(src, &errs)));
    }
    let toks: Vec<_> = crate::refimpl::lex::lex(src).into_iter().filter(|t| t.k == crate::refimpl::lex::K::Name).collect();
    let tok_spans: Spans = toks.iter().map(|t| (t.s, t.e)).collect();
    if let Some(m) = errs.iter().find(|n| tok_spans.contains(n) && !all.contains(n)) {
        return Err(format!("{:?} at {m:?} is declared but an error is reported there", &src[m.0..m.1]));
    }
    cx.validated(1);
    let mut at: Vec<Option<usize>> = vec![None; src.len() + 1];
    for (i, t) in toks.iter().enumerate() {
        for p in t.s..=t.e {
            at[p] = Some(i);
        }
    }
    for p in 0..=src.len() {
        let def = r.find_definition(real::pos(p)).map(sp);
        let refs = r.find_references(real::pos(p)).map(|v| {
            let mut v: Vec<_> = v.into_iter().map(sp).collect();
            v.sort();
            v
        });
        cx.ops(2);
        let Some(i) = at[p] else {
            if def.is_some() || refs.is_some() {
                return Err(format!("offset {p} is on no name but has definition {def:?} and references {refs:?}"));
            }
            continue;
        };
        let t = &toks[i];
        let span = (t.s, t.e);
        // symbols the token may stand for
        let mut syms: Vec<usize> = u.defs.iter().filter(|d| d.span == span).map(|d| d.sym).collect();
        if let Some(s) = u.ref_by_span.get(&span) {
            syms = vec![*s];
        }
        let name = &src[t.s..t.e];
        if syms.is_empty() {
            if def.is_some() || refs.is_some() {
                return Err(format!("{name:?} at {span:?} resolves to nothing but has definition {def:?} and references {refs:?} at offset {p}"));
            }
            continue;
        }
        let mut ok_def = false;
        let mut ok_refs = false;
        let mut want = Vec::new();
        for s in &syms {
            let d = u.defs.iter().find(|d| d.sym == *s).map(|d| d.span);
            let rs = d.map(|_| {
                let mut v: Vec<_> = u.refs.iter().filter(|r| r.1 == *s).map(|r| r.0).collect();
                v.sort();
                v
            });
            // importing the same thing twice declares the same symbol twice
            ok_def |= match def {
                None => d.is_none(),
                Some(g) => u.defs.iter().any(|d| d.sym == *s && d.span == g),
            };
            ok_refs |= rs == refs;
            want.push((d, rs));
        }
        if !ok_def {
            return Err(format!("definition of {name:?} from offset {p} is {def:?}, should be one of {:?}", want.iter().map(|w| w.0).collect::<Vec<_>>()));
        }
        if !ok_refs {
            return Err(format!("references of {name:?} from offset {p} are {refs:?}, should be one of {:?}", want.iter().map(|w| &w.1).collect::<Vec<_>>()));
        }
        cx.validated(2);
    }
    Ok(())
}

fn c05(cx: &mut Cx) {
    let or = Oracle::new();
    for f in NAMES {
        family(cx, f, &mut |cx, s| c05_case(&or, cx, s));
    }
    long_names(cx, &mut |cx, s| c05_case(&or, cx, s));
}

fn c06_case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    let (x, mut r, u) = both(or, text)?;
    for (span, want) in &u.offers {
        for p in span.0..=span.1 {
            let got = r.completions(real::pos(p));
            cx.ops(1);
            let got: Vec<String> = got.unwrap_or_default().into_iter().map(|c| c.name).collect();
            let set: BTreeSet<String> = got.iter().cloned().collect();
            if set != *want || set.len() != got.len() {
                return Err(format!("completions at offset {p} ({:?}) are {got:?}, should be {want:?}", &x.src[span.0..span.1]));
            }
            cx.validated(1);
        }
    }
    Ok(())
}

fn c06(cx: &mut Cx) {
    let or = Oracle::new();
    for f in NAMES {
        // completions are asked for at every position
        let less = (f.name == "name_contexts") as usize;
        let f = &Fam { quick: f.quick - less, thorough: f.thorough - less, ..*f };
        family(cx, f, &mut |cx, s| c06_case(&or, cx, s));
    }
    long_names(cx, &mut |cx, s| c06_case(&or, cx, s));
}

fn c26_case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    let (x, mut r, u) = both(or, text)?;
    let w: Vec<(usize, usize)> = r.diagnostics().filter(|d| d.severity == ticc::Severity::Warning).map(|d| sp(d.span)).collect();
    cx.ops(1);
    let got: Spans = w.iter().copied().filter(|s| !u.unused_either.contains(s)).collect();
    if got != u.unused {
        return Err(format!("unused warnings at {}, should be at {}", describe(&x.src, &got), describe(&x.src, &u.unused)));
    }
    cx.validated(1);
    Ok(())
}

fn c26(cx: &mut Cx) {
    let or = Oracle::new();
    for f in NAMES {
        family(cx, f, &mut |cx, s| c26_case(&or, cx, s));
    }
}

pub static C05: Check = Check { id: "C05", run: c05, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C06: Check = Check { id: "C06", run: c06, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C26: Check = Check { id: "C26", run: c26, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
