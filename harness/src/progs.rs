//! Further families of well typed programs for the checks that run programs.
use crate::cfg::Cfg;

pub type K<'a> = &'a mut dyn FnMut(&dyn Fn() -> String);

/// Name, what bounds it, the enumeration.
pub struct Progs {
    pub name: &'static str,
    pub bound: fn(bool) -> u64,
    pub each: fn(u64, K),
}

fn tuples(items: &[&str], n: usize, k: &mut dyn FnMut(&[&str])) {
    let mut idx = vec![0; n];
    loop {
        let v: Vec<&str> = idx.iter().map(|i| items[*i]).collect();
        k(&v);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            idx[i] += 1;
            if idx[i] < items.len() {
                break;
            }
            idx[i] = 0;
            i += 1;
        }
    }
}

/// Loops with accumulators, every combination of arguments in the recursive
/// call.
fn loops(max: u64, k: K) {
    let pre = "type L = N | K int rec; let l : L = K 1 (K 2 (K 3 N)); ";
    let args = ["a", "b", "h", "(a - b)", "(b + h)"];
    tuples(&args, 2, &mut |v| {
        let (p, q) = (v[0], v[1]);
        for style in 0..5 {
            k(&|| match style {
                0 => format!("{pre}let go : L -> int -> int -> int = \\fold l -> match l with | N -> \\a -> \\b -> a * 1000 + b | K h t -> \\a -> \\b -> t {p} {q} end; export let r = go l 5 7;"),
                1 => format!("{pre}let go : L -> int -> int -> int = \\fold l -> \\a -> \\b -> match l with | N -> a * 1000 + b | K h t -> t {p} {q} end; export let r = go l 5 7; export let s = go (K 4 N) 5;"),
                2 => format!("{pre}let go : int -> L -> int -> int = \\a -> \\fold l -> \\b -> match l with | N -> a * 1000 + b | K h t -> t {p} - {q} end; export let r = go 5 l 7;"),
                3 => format!("{pre}let go : L -> int -> int -> int = \\fold l -> \\a -> \\b -> match l with | N -> a * 1000 + b | K h t -> let c = {p}; t {q} c end; export let r = go l 5 7;"),
                _ => format!("{pre}let go : L -> int -> (int -> int) -> int = \\fold l -> \\a -> \\f -> match l with | N -> f a | K h t -> t (let b = 2; {p}) (\\b -> f {q}) end; export let r = go l 5 (\\x -> x * 3);"),
            });
        }
        for op in ["if h < 2 then", "if a < b then"] {
            tuples(&args, 2, &mut |w| {
                k(&|| format!("{pre}let go : L -> int -> int -> int = \\fold l -> \\a -> \\b -> match l with | N -> a * 1000 + b | K h t -> {op} t {p} {q} else t {} {} end; export let r = go l 5 7;", w[0], w[1]));
            });
        }
    });
    let args = ["a", "b", "c", "h", "(a - c)"];
    tuples(&args[..if max > 2 { 5 } else { 4 }], 3, &mut |v| {
        k(&|| format!("{pre}let go : L -> int -> int -> int -> int = \\fold l -> \\a -> \\b -> \\c -> match l with | N -> a * 10000 + b * 100 + c | K h t -> t {} {} {} end; export let r = go l 5 7 9; export let f = go l 5; export let s = f 7 9;", v[0], v[1], v[2]));
        k(&|| format!("{pre}let go : L -> int -> int -> int -> int = \\fold l -> \\a -> match l with | N -> \\b -> \\c -> a * 10000 + b * 100 + c | K h t -> \\b -> \\c -> (\\x -> t {} x {}) {} end; export let r = go l 5 7 9;", v[0], v[1], v[2]));
        // loops within loops
        k(&|| {
            format!(
                "{pre}let go : L -> int -> int = \\fold l -> \\a -> match l with | N -> a | K h t -> (\\fold m -> \\b -> match m with | N -> t b | K c u -> u {} + t {} end) (K h (K 4 N)) {} end; export let r = go l 5;",
                v[0].replace('c', "(b - c)"),
                v[1].replace('b', "a").replace('c', "h"),
                v[2].replace('b', "a").replace('c', "h")
            )
        });
    });
    // steps of a counted loop
    tuples(&["a", "b", "(a - b)", "(a + 1)", "7"], 2, &mut |v| {
        k(&|| format!("import n from \"std/intrinsics\"; type P = P int int; export let r = n.iterate 3 (\\p -> match p with | P a b -> P {} {} end) (P 5 2);", v[0], v[1]));
        k(&|| format!("import n from \"std/intrinsics\"; export let r = n.iterate 2 (\\f -> \\a -> \\b -> f {} {}) (\\a -> \\b -> a * 100 + b) 5 2;", v[0], v[1]));
        k(&|| format!("import n from \"std/intrinsics\"; export let r = n.iterate 3 (\\a -> n.iterate ({} % 4) (\\b -> {}) (a % 3)) 4;", v[0].replace('b', "2"), v[1]));
    });
}

/// Operators on all operands of interest, known and unknown when compiling.
fn algebra(max: u64, k: K) {
    let all = [
        ('P', 0, "<E>"),
        ('E', 1, "x"),
        ('E', 1, "0"),
        ('E', 1, "1"),
        ('E', 0, "(<E> + <E>)"),
        ('E', 0, "(<E> - <E>)"),
        ('E', 0, "(<E> * <E>)"),
        ('E', 0, "(<E> / <E>)"),
        ('E', 0, "(<E> % <E>)"),
        ('E', 1, "y"),
        ('E', 1, "5"),
        ('E', 1, "18446744073709551615"),
        ('E', 0, "(if <E> < <E> then x else 3)"),
        ('E', 0, "(if <E> <= <E> then x else 3)"),
        ('E', 0, "(if <E> > <E> then y else 3)"),
        ('E', 0, "(if <E> >= <E> then y else 3)"),
        ('E', 0, "(if <E> == <E> then 2 else 3)"),
        ('E', 0, "(if <E> != <E> then 2 else 3)"),
    ];
    let mut each = |e: &dyn Fn() -> String| {
        k(&|| {
            let e = e();
            // the loop keeps one use from being expanded
            format!("import n from \"std/intrinsics\"; type P = P int int int int int int; export let f : int -> int -> int = \\x -> \\y -> {e}; let t : (int -> int -> int) -> P = \\g -> P (g 0 0) (g 7 7) (g 0 18446744073709551615) (g 4294967296 3) (g 1 0) (g 18446744073709551615 2); export let r = t f; export let s = n.iterate 1 (\\p -> t (\\x -> \\y -> {e})) (P 0 0 0 0 0 0);")
        })
    };
    Cfg::new(&all).upto('P', max as usize - 1, &mut each);
    // deeper with fewer
    Cfg::new(&all[..9]).upto('P', max as usize, &mut each);
}

/// How values are shown.
fn shown(max: u64, k: K) {
    let mut g = Cfg::new(&[
        ('P', 0, "type D a = A | B a | C a int; type H a b c = G a b c; type E = S string bool; export let r = <V>;"),
        ('P', 0, "type D a = A | B a | C a int; type H a b c = G a b c; type E = S string bool; export let q = A; export let r = \\x -> x; export let r = (\\u -> <V>) 1; export let s = 2;"),
        ('V', 1, "0"),
        ('V', 1, "18446744073709551615"),
        ('V', 1, "true"),
        ('V', 1, "\"q\""),
        ('V', 1, "\"\""),
        ('V', 1, "\"'~é\u{1F600} x\""),
        ('V', 1, "(\\x -> 1)"),
        ('V', 1, "A"),
        ('V', 1, "B"),
        ('V', 1, "(B <V>)"),
        ('V', 1, "(C <V>)"),
        ('V', 1, "(C <V> 7)"),
        ('V', 1, "(G A <V> A)"),
        ('V', 1, "(G (C 1 2) <V> (B 3))"),
        ('V', 1, "(G (B (\\x -> x)) <V> (C (\\x -> 1) 2))"),
        ('V', 1, "(G (\\x -> x) <V> (\\y -> y))"),
        ('V', 1, "(G (B 1) (C 2 3) (B <V>))"),
        ('V', 1, "(S \"a\" false)"),
    ]);
    g.upto('P', max as usize, &mut |e| k(&|| e()));
    // bytes
    for b in 0..256 {
        k(&|| format!("import n from \"std/intrinsics\"; type D = D string; export let r = n.stringFromChar {b}; export let s = D (n.stringConcat \"a\" (n.stringConcat r \"1\")); export let l = n.stringLength r; export let c = n.stringCharAt 0 r;"));
    }
}

/// Matches on the results of matches.
fn merges(max: u64, k: K) {
    let vals = ["X", "(Y 3)", "(Z v 4)", "u", "(let q = v + 1; Y q)", "?h"];
    let inner = |v: &[&str]| format!("match u with | X -> {} | Y v -> {} | Z v w -> {} end", v[0].replace('v', "9"), v[1], v[2].replace('4', "w"));
    let orders = ["| X -> 1 | Y a -> a * 10 | Z a b -> a - b", "| Z a b -> a - b | X -> 1 | Y a -> a * 10", "| Y a -> a * 10 | Z a b -> a - b | X -> 1"];
    let n = if max > 2 { 6 } else { 5 };
    tuples(&vals[..n], 3, &mut |v| {
        for (i, o) in orders.iter().enumerate() {
            k(&|| format!("type T = X | Y int | Z int int; let f : T -> int = \\u -> match ({}) with {o} end; export let r = f X; export let s = f (Y 5); export let t = f (Z 6 7);", inner(v)));
            k(&|| format!("type T = X | Y int | Z int int; let g : T -> T = \\u -> {}; let f : T -> int = \\u -> match g (g u) with {o} end; export let r = f X; export let s = f (Y 5); export let t = f (Z 6 7);", inner(v)));
            k(&|| format!("type T = X | Y int | Z int int; export let f : T -> T = \\u -> match u with | X -> {} | Y a -> ({}) | Z a b -> match Y b with | Y v -> {} | Z v c -> X | X -> u end end; export let r = f X; export let s = f (Y 5); export let t = f (Z 6 {i});", v[0].replace('v', "9"), inner(v), v[2]));
        }
    });
    // two constructors of three, and functions out of matches
    tuples(&["A", "B", "C"], 2, &mut |v| {
        tuples(&["A", "B", "C"], 3, &mut |w| {
            k(&|| format!("type T = A | B | C; type U = P | Q; let f : U -> T = \\u -> match u with | P -> {} | Q -> {} end; let g : T -> T = \\t -> match t with | A -> {} | C -> {} | B -> {} end; export let r = g (f P); export let s = g (f Q); export let t = match g (match Q with | Q -> {} | P -> A end) with | B -> 1 | A -> 2 | C -> 3 end; export let h = \\u -> match g (f u) with | C -> 1 | A -> 2 | B -> 3 end;", v[0], v[1], w[0], w[1], w[2], v[1]));
        });
    });
}

/// Several declarations that use each other, shadowed and exported in turn.
fn items(max: u64, k: K) {
    let mut g = Cfg::new(&[
        ('P', 0, "let x = 3; let f = \\y -> y - 1; <I><I>export let z = f x;"),
        ('P', 1, "let x = 3; let f = \\y -> y - 1; <I><I><I>export let z = f x;"),
        ('I', 1, ""),
        ('I', 0, "let x = <E>; "),
        ('I', 0, "export let x : int = <E>; "),
        ('I', 0, "let f = \\y -> <E>; "),
        ('I', 0, "export let f = \\x -> <E>; "),
        ('I', 0, "export let f : int -> int = let x = <E>; \\y -> x; "),
        ('I', 0, "let g = \\f -> \\x -> f (f x); export let x = g f <E>; "),
        ('E', 1, "x"),
        ('E', 1, "2"),
        ('E', 1, "(f x)"),
        ('E', 1, "(f 4 * x)"),
        ('E', 1, "(let x = f x; x + 1)"),
        ('E', 1, "((\\f -> f 2) f)"),
        ('E', 1, "(if f x < x then x else ?h)"),
    ]);
    g.upto('P', max as usize, &mut |e| k(&|| e()));
}

/// Functions on strings, with arguments in and far out of range.
fn strings(max: u64, k: K) {
    let mut g = Cfg::new(&[
        ('P', 0, "import n from \"std/intrinsics\"; export let f : string -> int -> string = \\s -> \\i -> <S>; export let q = n.iterate 2 (\\s -> f s 4294967297) \"x\u{e9}yz\"; export let r = f \"xyz\" 1;"),
        ('P', 0, "import n from \"std/intrinsics\"; export let f : string -> int -> int = \\s -> \\i -> <I>; export let q = n.iterate 2 (f \"x\u{e9}yz\") 4294967297; export let r = f \"xyz\" 1;"),
        ('S', 1, "s"),
        ('S', 1, "\"\""),
        ('S', 1, "\"a\u{e9}\u{1F600}z\""),
        ('S', 0, "(n.stringConcat <S> <S>)"),
        ('S', 0, "(n.stringSubstring <I> <I> <S>)"),
        ('S', 1, "(n.stringFromChar <I>)"),
        ('S', 0, "(<S> |> n.stringSubstring <I> <I>)"),
        ('I', 1, "0"),
        ('I', 1, "1"),
        ('I', 1, "i"),
        ('I', 1, "4294967296"),
        ('I', 1, "4294967298"),
        ('I', 1, "9223372036854775809"),
        ('I', 1, "18446744073709551615"),
        ('I', 1, "55296"),
        ('I', 1, "(n.stringLength <S>)"),
        ('I', 0, "(n.stringCharAt <I> <S>)"),
        ('I', 0, "(<S> |> n.stringCharAt <I>)"),
    ]);
    g.upto('P', max as usize, &mut |f| k(f));
}

/// Generic functions which the optimiser can only put into their callers
/// after it has worked on them for a while, at types that are functions.
fn late(max: u64, k: K) {
    let pad = "let u = \\q -> if q == 1 then w (q + 2 + 3 + 4 + 5 + 6) else w (q * 2 + 3 + 4 + 5 + 6 + 1 + 2 + 3 + 4 + 5 + 6 + 7 + 8);";
    let pad2 = "let u = \\q -> if q then w z else if q then w (if q then z else z) else w (if q then (if q then z else z) else (if q then z else z));";
    let mut g = Cfg::new(&[
        ('P', 0, "type N = Z | S int rec; let mk : (int -> a) -> N -> int -> a = \\w -> <D> <F>; <R>"),
        ('P', 0, "type N = Z | S int rec; let mk : (b -> a) -> b -> N -> b -> a = \\w -> \\z -> <G> <H>; <T>"),
        ('D', 0, ""),
        ('D', 0, pad),
        ('G', 0, pad2),
        ('R', 0, "export let r : int = mk (\\x -> x * 2) (S 4 (S 2 Z)) 5;"),
        ('R', 0, "export let r : int = mk (\\x -> \\y -> x - 2 * y) (S 4 (S 2 Z)) 5 3;"),
        ('R', 0, "export let r : int = mk (\\x -> let t = x * x; \\y -> \\z -> t - y * z) (S 4 (S 2 Z)) 5 3 7;"),
        ('R', 0, "export let p = mk (\\x -> \\y -> x - 2 * y) (S 4 Z); export let q = p 6; export let r : int = mk (\\x -> \\y -> x - y) Z 1 2 + p 5 3 - q 4;"),
        ('T', 0, "export let r : int = mk (\\x -> \\y -> (if x then 5 else 7) - 2 * y) true (S 4 (S 2 Z)) false 3;"),
        ('T', 0, "export let r : N = mk (\\x -> \\y -> if y then x else Z) (S 1 Z) (S 4 (S 2 Z)) (S 9 Z) true;"),
        ('T', 0, "export let r : int = mk (\\s -> \\y -> \\z -> match s with | Z -> y | S n t -> n - y * z end) (S 1 Z) (S 4 (S 2 Z)) (S 9 Z) 3 7;"),
        ('F', 0, "\\fold n -> <B>"),
        ('F', 0, "let g : N -> int -> a = \\fold n -> <B>; g"),
        ('B', 0, "\\k -> <E>"),
        ('B', 0, "let t = <J>; \\k -> let k = k - t; <E>"),
        ('B', 1, "match n with | Z -> \\k -> w (k - 1) | S i m -> \\k -> m (k - i) end"),
        ('J', 0, "2"),
        ('J', 0, "match n with | Z -> 1 | S i m -> i end"),
        ('E', 0, "w <I>"),
        ('E', 0, "match n with | Z -> <E> | S i m -> m <I> end"),
        ('E', 0, "if <I> < 2 then <E> else <E>"),
        ('E', 0, "let y = <I>; <E>"),
        ('E', 0, "(let h = \\y -> w y; h <I>)"),
        ('I', 1, "k"),
        ('I', 1, "(k - 1)"),
        ('H', 0, "\\fold n -> \\k -> <V>"),
        ('H', 0, "let g : N -> b -> a = \\fold n -> \\k -> <V>; g"),
        ('V', 0, "w <U>"),
        ('V', 0, "match n with | Z -> <V> | S i m -> if i > 3 then m <U> else <V> end"),
        ('U', 1, "k"),
        ('U', 1, "z"),
    ]);
    g.upto('P', max as usize, &mut |f| k(f));
}

/// The sizes at which representations change.
fn scale(max: u64, k: K) {
    let mut sizes: Vec<usize> = (1..=12).collect();
    sizes.extend([15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257]);
    if max > 2 {
        sizes.extend([300, 400]);
    }
    let list = |n: usize, sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(sep);
    for n in sizes {
        // fields
        k(&|| format!("type T = O | C {}; let v = C {}; export let r = match v with | O -> 0 | C {} -> {} end; export let v : T = v;", list(n, " ", &|_| "int".into()), list(n, " ", &|i| (i + 1).to_string()), list(n, " ", &|i| format!("a{i}")), list(n, " - 3 * ", &|i| format!("a{i}"))));
        // constructors
        k(&|| format!("type T = {}; let f : T -> int = \\t -> match t with {} end; let g : T -> T = \\t -> match t with {} end; export let r = f C{}; export let s = f (g C0); export let t = g (g C{});", list(n, " | ", &|i| format!("C{i}")), list(n, " ", &|i| format!("| C{} -> {i}", n - 1 - i)), list(n, " ", &|i| format!("| C{i} -> C{}", (i + 1) % n)), n - 1, n / 2));
        // captured variables
        k(&|| format!("let f : int -> int -> int = \\z -> {} \\q -> {}; export let r = f 3 4; export let g = f 1;", list(n, " ", &|i| format!("let a{i} = z * {};", i + 2)), list(n, " - q * ", &|i| format!("a{i}"))));
        k(&|| format!("let m = \\{} -> \\q -> {} - q; export let r = m {} 5;", list(n, " -> \\", &|i| format!("a{i}")), list(n, " - 2 * ", &|i| format!("a{i}")), list(n, " ", &|i| format!("{i}"))));
        // parameters, all at once and one by one
        if n <= 12 || n >= 63 {
            for cut in [1, n / 2, n - 1] {
                if cut == 0 || cut >= n {
                    continue;
                }
                k(&|| format!("let f : {} -> int = \\{} -> {}; let p = f {}; export let r = p {}; export let s = f {};", list(n, " -> ", &|_| "int".into()), list(n, " -> \\", &|i| format!("a{i}")), list(n, " - 2 * ", &|i| format!("a{i}")), list(cut, " ", &|i| i.to_string()), list(n - cut, " ", &|i| (i + cut).to_string()), list(n, " ", &|i| (i * 3).to_string())));
            }
        }
        // declarations
        k(&|| format!("{}export let r = {};", list(n, "", &|i| format!("let v{i} = {};", if i == 0 { "1".into() } else { format!("v{} * 2 + v{}", i - 1, i / 2) })), list(n, " - ", &|i| format!("v{i}"))));
        // (inlining makes these grow faster than any power of the number of declarations)
        k(&|| format!("{}", list(n.min(66), "", &|i| format!("export let e{i} = {}; ", if i == 0 { "\\x -> x + 1".into() } else { format!("\\x -> e{} (e{} x)", i - 1, i / 8) })) + &format!("export let r = e{} 0;", n.min(12) - 1)));
        // nesting
        k(&|| format!("export let r = {}1{};", "(2 - ".repeat(n), ")".repeat(n)));
        k(&|| format!("export let r = {}x0 - x{}{};", list(n, "", &|i| format!("(\\x{i} -> ")), n - 1, (0..n).rev().map(|i| format!(") {i}")).collect::<String>()));
        k(&|| format!("type L a = N | K a rec; type S a = S a; export let v = {}1{}; export let r : int = {}x{};", "S (".repeat(n.min(40)), ")".repeat(n.min(40)), list(n.min(40), "", &|i| format!("match {} with | S x -> ", if i == 0 { "v" } else { "x" })), " end".repeat(n.min(40))));
        // lists
        k(&|| format!("type L = N | K int rec; let l = {}N{}; let s : L -> int = \\fold l -> match l with | N -> 0 | K h t -> h * 3 - t end; let v : L -> L -> L = \\fold l -> \\a -> match l with | N -> a | K h t -> t (K h a) end; export let r = s l; export let t = s (v l N); export let l : L = l;", list(n, "", &|i| format!("K {i} (")), ")".repeat(n)));
        // strings
        k(&|| format!("import n from \"std/intrinsics\"; let s = \"{}\"; export let l = n.stringLength s; export let c = n.stringCharAt {} s; export let t = n.iterate {n} (n.stringConcat \"ab\") s; export let u = n.stringSubstring {} 3 t;", list(n, "", &|i| ((b'a' + (i % 26) as u8) as char).to_string()), n - 1, 2 * n - 1));
        // operands waiting while others are computed
        k(&|| format!("let f : int -> int = \\x -> x * x; export let r = {};", list(n, " - ", &|i| format!("f ({i} + f {i})"))));
        k(&|| format!("let f : int -> int -> int -> int = \\x -> \\y -> \\z -> x - y * z; export let r = {}2{};", list(n, "", &|i| format!("f {i} (f 1 2 3) (")), ")".repeat(n)));
    }
}

pub const PROGS: &[Progs] = &[
    Progs { name: "loops", bound: |t| if t { 3 } else { 2 }, each: loops },
    Progs { name: "algebra", bound: |t| if t { 4 } else { 3 }, each: algebra },
    Progs { name: "shown", bound: |t| if t { 4 } else { 3 }, each: shown },
    Progs { name: "merges", bound: |t| if t { 3 } else { 2 }, each: merges },
    Progs { name: "items", bound: |t| if t { 4 } else { 3 }, each: items },
    Progs { name: "strings", bound: |t| if t { 5 } else { 4 }, each: strings },
    Progs { name: "late", bound: |t| if t { 4 } else { 3 }, each: late },
    Progs { name: "scale", bound: |t| if t { 3 } else { 2 }, each: scale },
];
