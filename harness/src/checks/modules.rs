//! C17: modules expose exactly their exports.
use super::front::{describe, family, real_unit, split_mods, Fam};
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, RUNNERS};
use crate::refimpl::check::Cls;
use std::collections::BTreeSet;
use std::rc::Rc;

fn case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    or.reset();
    let (mods, src) = split_mods(text);
    for (i, m) in mods.iter().enumerate() {
        if let Verdict::Syntax = or.compile_mods(&mods[..i], &m.1) {
            return Err(format!("module {} of the generated case has a syntax error", m.0));
        }
    }
    or.reset();
    let u = match or.compile_mods(&mods, &src) {
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(u) => Rc::new(u),
        Verdict::Ok(u) => u,
    };
    let mut r = real_unit(&mods, &src, false);
    let raw = real::errors(&mut r);
    cx.ops(1);
    let got: BTreeSet<(usize, usize)> = raw.iter().map(|e| (e.0, e.1)).collect();
    let name = |c: Cls| matches!(c, Cls::UndefVar | Cls::UndefType | Cls::UndefModule | Cls::UndefCtor | Cls::NoExport | Cls::WrongNs | Cls::ModMissing);
    for e in u.errors.iter().filter(|e| name(e.cls)) {
        if !got.contains(&e.span) {
            return Err(format!("no error at {}; errors are {raw:?}", describe(&src, &[e.span].into())));
        }
    }
    if got.is_empty() != u.ok() {
        return Err(if u.ok() { format!("a correct program is rejected: {raw:?}") } else { format!("an erroneous program is accepted; expected errors: {:?}", u.errors) });
    }
    cx.validated(1);
    if !u.ok() {
        return Ok(());
    }
    // errors in imported modules are reported for those; only whole programs run
    for (i, m) in mods.iter().enumerate() {
        if !matches!(or.compile_mods(&mods[..i], &m.1), Verdict::Ok(_)) {
            return Ok(());
        }
    }
    let want = or.run(&u).ok_or("the reference does not finish")?;
    for o in [false, true] {
        let mut r = real_unit(&mods, &src, o);
        for k in RUNNERS {
            let got = real::run(&mut r, k);
            cx.ops(1);
            if !(got == want || got.trap() && want.trap() || o && want.trap()) {
                return Err(format!("{k} (optimize: {o}) {got}, should have {want}"));
            }
            cx.validated(1);
        }
    }
    Ok(())
}

const FAMS: &[Fam] = &[
    Fam {
        // every way to import one module, every use of its names
        name: "exports",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "-- module m\nexport type t a = export c a | d; export type p = q; export let x : int = 1; let y = x; export let t = 2; type u = export w; export let f : t int -> int = \\v -> match v with | c z -> z | d -> y end;\n-- main\n<I><I>export let r = <E>;\n"),
            ('I', 1, ""),
            ('I', 1, "import m from \"m\"; "),
            ('I', 1, "import (x, t, c) from \"m\"; "),
            ('I', 1, "import x(y, q, w, t) from \"m\"; "),
            ('I', 1, "import (f, d, t) from \"m\"; "),
            ('I', 1, "import m from \"nowhere\"; "),
            ('I', 1, "let m = 1; "),
            ('E', 1, "x"),
            ('E', 1, "3"),
            ('E', 1, "m.x"),
            ('E', 1, "m.y"),
            ('E', 1, "(m.c <E>)"),
            ('E', 1, "m.d"),
            ('E', 1, "m.q"),
            ('E', 1, "m.w"),
            ('E', 1, "(m.f <E>)"),
            ('E', 1, "m.t"),
            ('E', 1, "x.t"),
            ('E', 1, "x.x"),
            ('E', 1, "t"),
            ('E', 1, "(c <E>)"),
            ('E', 1, "d"),
            ('E', 1, "w"),
            ('E', 1, "(f <E>)"),
            ('E', 1, "(match <E> with | m.c x -> <E> | m.d -> <E> end)"),
            ('E', 1, "(match <E> with | c m -> <E> | d -> <E> end)"),
            ('E', 1, "(match <E> with | m.w -> <E> end)"),
            ('E', 1, "(let m = <E>; <E>)"),
        ],
    },
    Fam {
        // a diamond: two modules pass on the types of a third
        name: "diamond",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "-- module a\nexport type t v = export c v | d; type h = hc int; export let hide : int -> h = \\x -> hc x; export let show : h -> int = \\x -> match x with | hc y -> y end; export let one = 1;\n-- module b\nimport x from \"a\"; export type t v = export c v | e; export let mk : v -> x.t v = \\v -> x.c v; export let own : int -> t int = \\v -> c v; export let hid = x.hide 7;\n-- module c\nimport (t, c, d, show) from \"a\"; import b from \"b\"; export let un : t int -> int = \\v -> match v with | c x -> x | d -> 0 end; export let unb : b.t int -> int = \\v -> match v with | b.c x -> x + 100 | b.e -> 200 end; export let sh = show; export let bb = b.mk 5;\n-- main\n<I>export let r : <T> = <E>;\n"),
            ('I', 1, "import a from \"a\"; import b from \"b\"; import c from \"c\"; "),
            ('I', 1, "import c from \"c\"; import b from \"b\"; import a from \"a\"; "),
            ('I', 1, "import c(un, sh) from \"c\"; import b from \"b\"; "),
            ('I', 1, "import a(t, c) from \"a\"; import b(mk) from \"b\"; import c from \"c\"; import again from \"a\"; "),
            ('T', 1, "int"),
            ('T', 1, "a.t int"),
            ('T', 1, "b.t int"),
            ('T', 1, "a.h"),
            ('T', 1, "t int"),
            ('E', 1, "9"),
            ('E', 1, "(a.c <E>)"),
            ('E', 1, "(b.c <E>)"),
            ('E', 1, "a.d"),
            ('E', 1, "b.e"),
            ('E', 1, "(b.mk <E>)"),
            ('E', 1, "(b.own <E>)"),
            ('E', 1, "(c.un <E>)"),
            ('E', 1, "(c.unb <E>)"),
            ('E', 1, "c.bb"),
            ('E', 1, "b.hid"),
            ('E', 1, "(a.hide <E>)"),
            ('E', 1, "(a.show <E>)"),
            ('E', 1, "(c.sh <E>)"),
            ('E', 1, "(c <E>)"),
            ('E', 1, "(un <E>)"),
            ('E', 1, "(mk <E>)"),
            ('E', 1, "(again.c <E>)"),
            ('E', 1, "(match <E> with | a.c x -> x | a.d -> <E> end)"),
            ('E', 1, "(match <E> with | b.c x -> x | b.e -> <E> end)"),
            ('E', 1, "a.hc"),
            ('E', 1, "c.t"),
            ('E', 1, "c.b"),
        ],
    },
    Fam {
        // equal names everywhere: chains of modules that shadow and re-declare
        name: "chain",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "-- module a\n<A>-- module b\n<M><B>-- main\n<N>export let r = <E>;\n"),
            ('A', 1, "export type x = export x int; export let f : x -> int = \\v -> match v with | x y -> y end;\n"),
            ('A', 1, "export let x : int = 1; export let x : int -> int = \\v -> v + 1; let f = x 1;\n"),
            ('A', 1, "type x = export x int; export let f = x 5; let x = f;\n"),
            ('A', 1, "export let f : a -> a = \\x -> x; export type x = f;\n"),
            ('M', 1, "import a from \"a\"; "),
            ('M', 1, "import x(x, f) from \"a\"; "),
            ('M', 1, "import (f) from \"a\"; let x = 40; "),
            ('M', 1, "let f = 1; import (x, f) from \"a\"; "),
            ('B', 1, "export let x = <F>;\n"),
            ('B', 1, "export let f = <F>; export type x = export f int | x;\n"),
            ('B', 1, "type a = x int; export let x = \\v -> f v; export let f : a = x 3;\n"),
            ('F', 1, "f"),
            ('F', 1, "a.f"),
            ('F', 1, "x.f"),
            ('F', 1, "(x 3)"),
            ('F', 1, "(\\v -> f v)"),
            ('F', 1, "(a.f a.x)"),
            ('N', 1, "import a from \"a\"; import b from \"b\"; "),
            ('N', 1, "import b(x) from \"b\"; import (f) from \"a\"; "),
            ('N', 1, "import a(x, f) from \"a\"; import b(x, f) from \"b\"; "),
            ('E', 1, "x"),
            ('E', 1, "f"),
            ('E', 1, "a.x"),
            ('E', 1, "b.x"),
            ('E', 1, "a.f"),
            ('E', 1, "b.f"),
            ('E', 1, "4"),
            ('E', 1, "(<E> <E>)"),
            ('E', 1, "(match <E> with | x v -> v end)"),
            ('E', 1, "(match <E> with | b.f v -> v | b.x -> 0 end)"),
        ],
    },
    Fam {
        // values and functions of types only modules further away import
        name: "far",
        quick: 7,
        thorough: 8,
        rules: &[
            ('P', 0, "-- module a\nexport type t = export c int | d rec; export let v : t = d (c 3); export let get : t -> int = \\fold x -> match x with | c y -> y | d r -> r + 1 end; export let up : t -> t = \\x -> d x;\n-- module m1\nimport p from \"a\"; <L>-- module m2\nimport p from \"m1\"; <L>-- module m3\nimport p from \"m2\"; <L>-- main\n<N>export let r = <E>;\n"),
            ('P', 0, "-- module b\nexport type t = export d int | c rec; type h x = h x x; export let hide : int -> h t = \\x -> h (d x) (c (d 2)); export let left : h x -> x = \\v -> match v with | h x y -> x end; export let num : t -> int = \\x -> match x with | d y -> y | c y -> 70 end;\n-- module a\nimport b from \"b\"; type s = s int; export let v = b.hide 6; export let get = \\x -> b.num (b.left x); export let up = \\x -> b.hide (b.num (b.left x));\n-- module m1\nimport p from \"a\"; export let v = p.v; export let get = p.get; export let up = p.up;\n-- module m2\nimport p from \"m1\"; <L>-- module m3\nimport p from \"m2\"; <L>-- main\n<N>export let r = <E>;\n"),
            ('L', 1, "export let v = p.v; export let get = p.get; export let up = p.up;\n"),
            ('L', 1, "let x = 1; type s = s int; export let get = \\x -> p.get x; export let v = p.up p.v; export let up = \\x -> p.up (p.up x);\n"),
            ('L', 1, "import a from \"a\"; let f : a.t -> int = \\x -> match x with | a.c y -> y | a.d z -> p.get z + 10 end; export let get = f; export let v = p.v; export let up = p.up;\n"),
            ('L', 1, "type b x = k x; export let v = p.v; let q = k p.v; export let get = \\z -> match q with | k x -> p.get x * p.get z end; export let up = \\x -> match k x with | k y -> p.up y end;\n"),
            ('N', 1, "import p from \"m3\"; "),
            ('N', 1, "import a from \"a\"; import p from \"m3\"; "),
            ('N', 1, "import p from \"m2\"; import q(v) from \"m3\"; "),
            ('E', 1, "p.v"),
            ('E', 1, "q.v"),
            ('E', 1, "v"),
            ('E', 1, "5"),
            ('E', 1, "(p.get <E>)"),
            ('E', 1, "(p.up <E>)"),
            ('E', 1, "p.get"),
            ('E', 1, "(\\x -> p.up x)"),
            ('E', 1, "(let q = <E>; q)"),
            ('E', 1, "(match <E> with | a.c x -> x | a.d x -> <E> end)"),
        ],
    },
    Fam {
        // library types passed between modules
        name: "library",
        quick: 5,
        thorough: 6,
        rules: &[
            ('P', 0, "-- module m\nimport o from \"std/option\"; import (List, Nil, Cons) from \"std/list\"; export let some : a -> o.Option a = o.Some; export let none : o.Option int = o.None; export let two : a -> List a = \\x -> Cons x (Cons x Nil); type Option a = None | Some a; export let fake = Some 1;\n-- main\n<I>export let r = <E>;\n"),
            ('I', 1, "import m from \"m\"; import o from \"std/option\"; import l from \"std/list\"; "),
            ('I', 1, "import l(Nil, Cons, map) from \"std/list\"; import o(Some, None, map) from \"std/option\"; import m(some, none) from \"m\"; "),
            ('I', 1, "import m from \"m\"; import o(map) from \"std/option\"; import l(map) from \"std/list\"; "),
            ('E', 1, "1"),
            ('E', 1, "m.none"),
            ('E', 1, "m.fake"),
            ('E', 1, "(m.some <E>)"),
            ('E', 1, "(m.two <E>)"),
            ('E', 1, "(o.Some <E>)"),
            ('E', 1, "(Some <E>)"),
            ('E', 1, "None"),
            ('E', 1, "(o.map (\\x -> <E>) <E>)"),
            ('E', 1, "(map (\\x -> <E>) <E>)"),
            ('E', 1, "(l.head <E>)"),
            ('E', 1, "(l.Cons <E> l.Nil)"),
            ('E', 1, "(o.unwrapOr <E> <E>)"),
            ('E', 1, "(match <E> with | o.Some x -> x | o.None -> <E> end)"),
        ],
    },
    Fam {
        // polymorphic and higher order exports, and modules with errors or holes
        name: "generic",
        quick: 6,
        thorough: 7,
        rules: &[
            ('P', 0, "-- module m\n<D>export type p a b = export mk a b; export let id : a -> a = \\x -> x; export let fst : p a b -> a = \\v -> match v with | mk x y -> x end; export let app : (a -> b) -> a -> b = \\f -> \\x -> f x; export let base = 10; export let add = \\x -> x + base;\n-- module n\nimport m from \"m\"; export let swap : m.p a b -> m.p b a = \\v -> match v with | m.mk x y -> m.mk y x end; export let both : a -> m.p a a = \\x -> m.mk x x; export let go = m.app m.add;\n-- main\nimport m from \"m\"; import n from \"n\"; export let r = <E>;\n"),
            ('D', 1, ""),
            ('D', 1, "let unused = ?deep; "),
            ('D', 1, "let broken : int = true; "),
            ('E', 1, "1"),
            ('E', 1, "true"),
            ('E', 1, "m.id"),
            ('E', 1, "(m.mk <E> <E>)"),
            ('E', 1, "(m.fst <E>)"),
            ('E', 1, "(n.swap <E>)"),
            ('E', 1, "(n.both <E>)"),
            ('E', 1, "(n.go <E>)"),
            ('E', 1, "(m.app <E> <E>)"),
            ('E', 1, "m.add"),
            ('E', 1, "(m.id <E>)"),
        ],
    },
];

fn c17(cx: &mut Cx) {
    let or = Oracle::new();
    for f in FAMS {
        family(cx, f, &mut |cx, s| case(&or, cx, s));
    }
    // chains of every length up to a bound, the value passed through all
    cx.family("long_chains");
    let n = cx.pick(12, 40);
    cx.bound("long_chains_length", n);
    for len in 1..=n {
        for skip in 1..=3usize.min(len) {
            cx.lazy(
                || {
                    let mut t = String::from("-- module m0\nexport type t = export c int; export let v = c 1; export let get : t -> int = \\x -> match x with | c y -> y end;\n");
                    for i in 1..=len {
                        let j = i.saturating_sub(skip);
                        t.push_str(&format!("-- module m{i}\nimport p from \"m{}\"; import q from \"m{j}\"; import b from \"m0\"; export type t = export c int; export let v = b.c (b.get p.v * 2 + b.get q.v); export let own = c {i};\n", i - 1));
                    }
                    t.push_str(&format!("-- main\nimport m from \"m{len}\"; import b from \"m0\"; export let r = m.v; export let s = b.get m.v; export let o = m.own;\n"));
                    t
                },
                |cx, s| case(&or, cx, s),
            );
            cx.lazy(
                || {
                    let mut t = String::from("-- module m0\nexport type t = export c int; export let v = c 1; export let get : t -> int = \\x -> match x with | c y -> y end;\n");
                    for i in 1..=len {
                        t.push_str(&format!("-- module m{i}\nimport p from \"m{}\"; export type t = export c int; export let v = p.c {i}; export let get : t -> int = \\x -> match x with | c y -> y end;\n", i - 1));
                    }
                    // types of neighbouring modules are different
                    t.push_str(&format!("-- main\nimport m from \"m{len}\"; import b from \"m{}\"; export let r = b.get m.v; export let s = m.get (m.c 2){};\n", len - 1, if skip == 1 { "" } else { "; export let bad = m.get m.v" }));
                    t
                },
                |cx, s| case(&or, cx, s),
            );
        }
    }
}

pub static C17: Check = Check {
    id: "C17",
    run: c17,
    assumptions: &["modules are supplied in memory; reading them from files is explored by C18", "the jit runner only exists on windows and is not part of the exploration"],
    meaning: "a state is a distinct set of modules with a program, a transition one compilation or run by the real code, a validated trace one outcome compared with the reference",
    hang_s: 60,
    mem_mb: 3000,
};
