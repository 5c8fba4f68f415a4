//! Program generators shared by the checks: typed exhaustive enumeration of
//! expressions up to a size, composition of typed one-hole contexts up to a
//! depth, and scale families.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = usize;

#[derive(Clone)]
pub enum TyDef {
    Int,
    Bool,
    Str,
    /// Constructors; a field of `None` is the recursive one.
    Data { ctors: Vec<(&'static str, Vec<Option<Ty>>)> },
    Fn(Ty, Ty),
    /// Only made by constants.
    Other,
}

#[derive(Clone)]
pub struct Theme {
    pub name: &'static str,
    pub prelude: &'static str,
    pub types: Vec<(&'static str, TyDef)>,
    /// Closed expressions of a type, each of size one.
    pub consts: Vec<(Ty, &'static str)>,
    /// Binary operators: operand type, result type.
    pub ops: Vec<(Ty, &'static str, Ty)>,
    /// Calls: argument types, text with a `#` per argument, result type.
    pub calls: Vec<(Vec<Ty>, &'static str, Ty)>,
    pub ifs: bool,
    pub apps: Vec<(Ty, Ty)>,
    pub lets: Vec<Ty>,
    pub annotated_lets: bool,
    pub matches: Vec<Ty>,
    pub folds: Vec<(Ty, Ty)>,
    pub holes: bool,
    /// Number of distinct local names; 0 for always fresh ones.
    pub names: usize,
    pub result: Ty,
    /// How the enumerated expression is put in a program; `#` stands for it.
    pub program: &'static str,
    pub sizes: (usize, usize),
}

impl Theme {
    pub fn base(name: &'static str) -> Theme {
        Theme {
            name,
            prelude: "",
            types: vec![("int", TyDef::Int), ("bool", TyDef::Bool)],
            consts: vec![],
            ops: vec![],
            calls: vec![],
            ifs: false,
            apps: vec![],
            lets: vec![],
            annotated_lets: false,
            matches: vec![],
            folds: vec![],
            holes: false,
            names: 0,
            result: 0,
            program: "export let r : int = #;",
            sizes: (5, 6),
        }
    }
}

type Memo = HashMap<(Ty, usize, Vec<Ty>), Rc<Vec<String>>>;

pub struct Gen<'t> {
    t: &'t Theme,
    memo: Memo,
}

impl<'t> Gen<'t> {
    pub fn new(t: &'t Theme) -> Gen<'t> {
        Gen { t, memo: HashMap::new() }
    }

    fn name(&self, depth: usize) -> String {
        if self.t.names == 0 {
            format!("v{depth}")
        } else {
            format!("v{}", depth % self.t.names)
        }
    }
    fn visible(&self, i: usize, env: &[Ty]) -> bool {
        self.t.names == 0 || i + self.t.names >= env.len()
    }

    /// All expressions of exactly this type, size and environment.
    pub fn gen(&mut self, ty: Ty, size: usize, env: &[Ty]) -> Rc<Vec<String>> {
        let key = (ty, size, env.to_vec());
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        let mut out = Vec::new();
        self.each(ty, size, env, &mut |s| out.push(s));
        let v = Rc::new(out);
        self.memo.insert(key, v.clone());
        v
    }

    pub fn each(&mut self, ty: Ty, size: usize, env: &[Ty], k: &mut dyn FnMut(String)) {
        let t = self.t;
        if size == 0 {
            return;
        }
        if size == 1 {
            for (i, v) in env.iter().enumerate() {
                if *v == ty && self.visible(i, env) {
                    k(self.name(i));
                }
            }
            for (c, s) in &t.consts {
                if *c == ty {
                    k((*s).to_string());
                }
            }
            if t.holes {
                k(format!("?h{}", env.len()));
            }
            return;
        }
        // constructors
        if let TyDef::Data { ctors } = &t.types[ty].1 {
            for (c, fs) in ctors {
                if fs.is_empty() || fs.len() > size - 1 {
                    continue;
                }
                let tys: Vec<Ty> = fs.iter().map(|f| f.unwrap_or(ty)).collect();
                self.seq(&tys, size - 1, env, &mut |args| {
                    let mut s = format!("({c}");
                    for a in args {
                        s.push(' ');
                        s.push_str(a);
                    }
                    s.push(')');
                    k(s);
                });
            }
        }
        for (a, op, r) in &t.ops {
            if *r == ty {
                self.seq(&[*a, *a], size - 1, env, &mut |x| k(format!("({} {op} {})", x[0], x[1])));
            }
        }
        for (a, tpl, r) in &t.calls {
            if *r == ty {
                self.seq(a, size - 1, env, &mut |x| {
                    let mut s = String::new();
                    for (i, p) in tpl.split('#').enumerate() {
                        if i > 0 {
                            s.push_str(x[i - 1]);
                        }
                        s.push_str(p);
                    }
                    k(s)
                });
            }
        }
        if t.ifs {
            self.seq(&[1, ty, ty], size - 1, env, &mut |x| k(format!("(if {} then {} else {})", x[0], x[1], x[2])));
        }
        for (f, r) in &t.apps {
            if *r != ty {
                continue;
            }
            let TyDef::Fn(a, _) = t.types[*f].1 else { continue };
            self.seq(&[*f, a], size - 1, env, &mut |x| k(format!("({} {})", x[0], x[1])));
        }
        if let TyDef::Fn(a, b) = t.types[ty].1 {
            let mut e2 = env.to_vec();
            e2.push(a);
            let n = self.name(env.len());
            for b in self.gen(b, size - 1, &e2).iter() {
                k(format!("(\\{n} -> {b})"));
            }
        }
        for u in &t.lets {
            for i in 1..size - 1 {
                let vs = self.gen(*u, i, env);
                if vs.is_empty() {
                    continue;
                }
                let mut e2 = env.to_vec();
                e2.push(*u);
                let bs = self.gen(ty, size - 1 - i, &e2);
                let n = self.name(env.len());
                for v in vs.iter() {
                    for b in bs.iter() {
                        if t.annotated_lets {
                            k(format!("(let {n} : {} = {v}; {b})", t.types[*u].0));
                        } else {
                            k(format!("(let {n} = {v}; {b})"));
                        }
                    }
                }
            }
        }
        for d in &t.matches {
            self.each_match(*d, *d, ty, size - 1, env, &mut |x, cases| k(format!("(match {x} with {cases}end)")));
        }
        for (d, r) in &t.folds {
            if let TyDef::Fn(a, b) = t.types[ty].1 {
                if a == *d && b == *r {
                    let n = self.name(env.len());
                    let mut e2 = env.to_vec();
                    // the folded parameter itself is only matched on
                    e2.push(usize::MAX);
                    self.cases(*d, *r, *r, size - 1, &e2, &mut |cases| k(format!("(\\fold {n} -> match {n} with {cases}end)")));
                }
            }
        }
    }

    fn each_match(&mut self, d: Ty, rec: Ty, out: Ty, size: usize, env: &[Ty], k: &mut dyn FnMut(&str, &str)) {
        for i in 1..size {
            let ds = self.gen(d, i, env);
            if ds.is_empty() {
                continue;
            }
            let mut cs = Vec::new();
            self.cases(d, rec, out, size - i, env, &mut |c| cs.push(c));
            for x in ds.iter() {
                for c in &cs {
                    k(x, c);
                }
            }
        }
    }

    fn cases(&mut self, d: Ty, rec: Ty, out: Ty, size: usize, env: &[Ty], k: &mut dyn FnMut(String)) {
        let TyDef::Data { ctors } = self.t.types[d].1.clone() else { return };
        let mut envs = Vec::new();
        let mut heads = Vec::new();
        for (c, fs) in &ctors {
            let mut e2 = env.to_vec();
            let mut h = format!("| {c}");
            for f in fs {
                h.push(' ');
                h.push_str(&self.name(e2.len()));
                e2.push(f.unwrap_or(rec));
            }
            h.push_str(" -> ");
            heads.push(h);
            envs.push(e2);
        }
        fn go(g: &mut Gen, heads: &[String], envs: &[Vec<Ty>], out: Ty, size: usize, acc: String, k: &mut dyn FnMut(String)) {
            if heads.is_empty() {
                if size == 0 {
                    k(acc);
                }
                return;
            }
            let rest = heads.len() - 1;
            if size < heads.len() {
                return;
            }
            let max = size - rest;
            let min = if rest == 0 { size } else { 1 };
            for i in min..=max {
                let bs = g.gen(out, i, &envs[0]);
                for b in bs.iter() {
                    go(g, &heads[1..], &envs[1..], out, size - i, format!("{acc}{}{b} ", heads[0]), k);
                }
            }
        }
        go(self, &heads, &envs, out, size, String::new(), k);
    }

    fn seq(&mut self, tys: &[Ty], size: usize, env: &[Ty], k: &mut dyn FnMut(&[&str])) {
        fn go<'t>(g: &mut Gen<'t>, tys: &[Ty], size: usize, env: &[Ty], acc: &[&str], k: &mut dyn FnMut(&[&str])) {
            if tys.is_empty() {
                if size == 0 {
                    k(acc);
                }
                return;
            }
            if size < tys.len() {
                return;
            }
            let rest = tys.len() - 1;
            let min = if rest == 0 { size } else { 1 };
            for i in min..=size - rest {
                let xs = g.gen(tys[0], i, env);
                for x in xs.iter() {
                    let mut a = acc.to_vec();
                    a.push(x);
                    go(g, &tys[1..], size - i, env, &a, k);
                }
            }
        }
        go(self, tys, size, env, &[], k);
    }
}

/// Calls `k` with every program of the theme up to the size.
pub fn programs(t: &Theme, max: usize, k: &mut dyn FnMut(&dyn Fn() -> String)) {
    let mut g = Gen::new(t);
    for size in 1..=max {
        g.each(t.result, size, &[], &mut |e| k(&|| format!("{}{}", t.prelude, t.program.replace('#', &e))));
    }
}

pub fn themes() -> Vec<Theme> {
    use TyDef::*;
    let b = Theme::base;
    let data = |c: &[(&'static str, &[Option<Ty>])]| Data { ctors: c.iter().map(|(n, f)| (*n, f.to_vec())).collect() };
    vec![
        Theme {
            consts: vec![(0, "1"), (0, "7")],
            ops: vec![(0, "-", 0), (0, "*", 0), (0, "<", 1)],
            ifs: true,
            lets: vec![0],
            sizes: (8, 9),
            ..b("arith")
        },
        Theme {
            consts: vec![(0, "2")],
            ops: vec![(0, "-", 0)],
            lets: vec![0, 2],
            types: vec![("int", Int), ("bool", Bool), ("int -> int", Fn(0, 0))],
            apps: vec![(2, 0)],
            names: 2,
            sizes: (10, 11),
            ..b("shadow")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("int -> int", Fn(0, 0)), ("int -> int -> int", Fn(0, 2)), ("(int -> int) -> int", Fn(2, 0))],
            consts: vec![(0, "3"), (2, "g1"), (3, "g2")],
            ops: vec![(0, "-", 0)],
            apps: vec![(2, 0), (3, 2), (4, 0)],
            lets: vec![2],
            prelude: "let g1 : int -> int = \\x -> x * x; let g2 : int -> int -> int = \\x -> \\y -> x - y; ",
            sizes: (10, 11),
            ..b("functions")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("int -> int", Fn(0, 0)), ("int -> int -> int", Fn(0, 2)), ("int -> int -> int -> int", Fn(0, 3))],
            consts: vec![(0, "3"), (0, "8")],
            ops: vec![(0, "-", 0)],
            apps: vec![(2, 0), (3, 2), (4, 3)],
            lets: vec![3, 2],
            program: "let f : int -> int -> int -> int = \\x -> \\y -> \\z -> x * 100 - y * 10 - z; let g = f 1; let h = g 2; export let a : int = (\\v0 -> #) 5;",
            sizes: (9, 10),
            ..b("partial")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("D", data(&[("A", &[]), ("B", &[Some(0)]), ("C", &[Some(0), None])]))],
            consts: vec![(0, "4"), (2, "A")],
            ops: vec![(0, "-", 0)],
            lets: vec![2],
            matches: vec![2],
            prelude: "type D = A | B int | C int rec; ",
            sizes: (10, 11),
            ..b("data")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("D", data(&[("A", &[]), ("B", &[Some(0)])])), ("D -> D", Fn(2, 2))],
            consts: vec![(0, "4"), (2, "A")],
            ops: vec![(0, "<", 1)],
            ifs: true,
            lets: vec![2, 3],
            matches: vec![2],
            apps: vec![(3, 2)],
            prelude: "type D = A | B int; ",
            program: "export let r : D = #;",
            result: 2,
            sizes: (9, 10),
            ..b("matchdata")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("L", data(&[("N", &[]), ("K", &[Some(0), None])])), ("L -> int", Fn(2, 0)), ("L -> L", Fn(2, 2))],
            consts: vec![(0, "4"), (2, "N"), (2, "l")],
            ops: vec![(0, "-", 0)],
            lets: vec![],
            apps: vec![(3, 0), (4, 2)],
            folds: vec![(2, 0), (2, 2)],
            prelude: "type L = N | K int rec; let l : L = K 1 (K 2 (K 3 N)); ",
            sizes: (12, 13),
            ..b("fold")
        },
        Theme {
            types: vec![("int", Int), ("bool", Bool), ("string", Str)],
            consts: vec![(0, "1"), (0, "3"), (2, "\"aBc\""), (2, "\"\"")],
            calls: vec![
                (vec![2], "(i.stringLength #)", 0),
                (vec![2, 2], "(i.stringConcat # #)", 2),
                (vec![0, 2], "(i.stringCharAt # #)", 0),
                (vec![0, 0, 2], "(i.stringSubstring # # #)", 2),
                (vec![0], "(i.stringFromChar #)", 2),
                (vec![0], "(i.intToString #)", 2),
            ],
            lets: vec![2],
            prelude: "import i from \"std/intrinsics\"; ",
            program: "export let r : string = #;",
            result: 2,
            sizes: (6, 7),
            ..b("strings")
        },
        Theme {
            consts: vec![(0, "1")],
            ops: vec![(0, "-", 0), (0, "<", 1)],
            ifs: true,
            lets: vec![0, 2],
            holes: true,
            types: vec![("int", Int), ("bool", Bool), ("int -> int", Fn(0, 0))],
            apps: vec![(2, 0)],
            sizes: (8, 9),
            ..b("holes")
        },
        Theme {
            types: vec![
                ("int", Int),
                ("bool", Bool),
                ("O int", data(&[("No", &[]), ("So", &[Some(0)])])),
                ("P int bool", data(&[("Mk", &[Some(0), Some(1)])])),
                ("int -> int", Fn(0, 0)),
                ("int -> O int", Fn(0, 2)),
                ("O int -> O int", Fn(2, 2)),
            ],
            consts: vec![(0, "5"), (1, "true"), (2, "No"), (4, "id"), (5, "So"), (6, "id"), (6, "(map id)")],
            lets: vec![2],
            apps: vec![(4, 0), (5, 2), (6, 2)],
            matches: vec![2, 3],
            prelude: "type O a = No | So a; type P a b = Mk a b; let id : a -> a = \\x -> x; let map : (a -> b) -> O a -> O b = \\f -> \\o -> match o with | No -> No | So x -> So (f x) end; ",
            sizes: (10, 11),
            ..b("poly")
        },
        Theme {
            types: vec![
                ("int", Int),
                ("bool", Bool),
                ("T", data(&[("Lf", &[]), ("Nd", &[None, Some(0), None])])),
                ("T -> int", Fn(2, 0)),
                ("T -> int -> int", Fn(2, 5)),
                ("int -> int", Fn(0, 0)),
            ],
            consts: vec![(0, "1"), (2, "t")],
            ops: vec![(0, "-", 0)],
            apps: vec![(3, 0), (4, 5), (5, 0)],
            folds: vec![(2, 0), (2, 5)],
            prelude: "type T = Lf | Nd rec int rec; let t : T = Nd (Nd Lf 1 Lf) 2 (Nd (Nd Lf 3 Lf) 4 Lf); ",
            sizes: (12, 13),
            ..b("treefold")
        },
    ]
}

// ---- contexts ------------------------------------------------------------

/// `#` is the hole, `$` the depth. Variables bound for the hole are listed.
pub struct Ctx {
    pub out: char,
    pub hole: char,
    pub tpl: &'static str,
    pub binds: &'static [(&'static str, char)],
}

macro_rules! ctxs {
    ($($o:literal $h:literal $t:literal $([$($n:literal $ty:literal),*])?;)*) => {
        vec![$(Ctx { out: $o, hole: $h, tpl: $t, binds: &[$($(($n, $ty)),*)?] }),*]
    };
}

/// Prelude items with the names that pull them in; later items may need
/// earlier ones.
const PRELUDE: &[(&[&str], &str)] = &[
    (&["n"], "import n from \"std/intrinsics\"; "),
    (&["A", "B", "C"], "type D = A | B int | C bool int; "),
    (&["N", "K", "L"], "type L = N | K int rec; "),
    (&["No", "So", "O"], "type O a = No | So a; "),
    (&["Mk"], "type P a b = Mk a b; "),
    (&["Lf", "Nd"], "type T = Lf | Nd rec int rec; "),
    (&["gid"], "let gid : a -> a = \\x -> x; "),
    (&["gk"], "let gk : a -> b -> a = \\x -> \\y -> x; "),
    (&["gc"], "let gc : (b -> c) -> (a -> b) -> a -> c = \\f -> \\g -> \\x -> f (g x); "),
    (&["gadd"], "let gadd : int -> int -> int = \\x -> \\y -> x * 10 + y; "),
    (&["gf"], "let gf : int -> int = \\x -> x * x + 1; "),
    (&["gp"], "let gp = gadd 3; "),
    (&["gv"], "let gv : int = 5; "),
    (&["gsum"], "let gsum : L -> int = \\fold l -> match l with | N -> 0 | K x s -> x + s * 2 end; "),
    (&["gapp"], "let gapp : L -> L -> L = \\fold a -> match a with | N -> \\b -> b | K x r -> \\b -> K x (r b) end; "),
    (&["gmap"], "let gmap : (a -> b) -> O a -> O b = \\f -> \\o -> match o with | No -> No | So x -> So (f x) end; "),
];

fn words(s: &str) -> impl Iterator<Item = &str> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty())
}

/// The program with the prelude items it needs.
pub fn with_prelude(program: &str) -> String {
    let mut need: std::collections::HashSet<&str> = words(program).collect();
    let mut take = vec![false; PRELUDE.len()];
    for i in (0..PRELUDE.len()).rev() {
        if PRELUDE[i].0.iter().any(|n| need.contains(n)) {
            take[i] = true;
            need.extend(words(PRELUDE[i].1));
        }
    }
    let mut s = String::new();
    for (i, p) in PRELUDE.iter().enumerate() {
        if take[i] {
            s.push_str(p.1);
        }
    }
    s.push_str(program);
    s
}

pub fn contexts() -> Vec<Ctx> {
    ctxs! {
        'i' 'i' "(# + 3)";
        'i' 'i' "(3 - #)";
        'i' 'i' "(# * (2 - #))";
        'i' 'b' "(if # then 3 else 4)";
        'i' 'i' "(if # < 5 then gv else 2)";
        'i' 'i' "(if gv < 3 then 1 else #)";
        'i' 'i' "(let x$ = #; x$ + x$)";
        'i' 'i' "(let x$ : int = 3; #)" ["x$" 'i'];
        'i' 'i' "(let x$ = gf 2; gadd x$ #)" ["x$" 'i'];
        'i' 'i' "(let x = 4; let x = x + 1; #)" ["x" 'i'];
        'i' 'i' "((\\x$ -> #) 6)" ["x$" 'i'];
        'i' 'i' "((\\x$ -> x$ + 1) #)";
        'i' 'i' "((\\x$ -> \\y$ -> #) 2 3)" ["x$" 'i', "y$" 'i'];
        'i' 'i' "((\\x$ -> \\y$ -> x$ - y$) # 2)";
        'i' 'i' "((\\x$ -> \\y$ -> x$ - y$) gv #)";
        'i' 'f' "(# 5)";
        'i' 'f' "(let f$ = #; f$ (f$ 1))";
        'i' 'f' "(let f$ = #; gadd (f$ 2) (f$ 3))";
        'i' 'i' "(let f$ = \\x$ -> #; f$ 1 + f$ 2)" ["x$" 'i'];
        'i' 'i' "(let f$ = \\x$ -> #; f$ 7)" ["x$" 'i'];
        'i' 'i' "(let f$ : int -> int -> int = \\x$ -> \\y$ -> #; let h$ = f$ 1; h$ 2 - h$ 3)" ["x$" 'i', "y$" 'i'];
        'i' 'i' "(let z$ = 9; let f$ = \\x$ -> z$ - x$; f$ #)" ["z$" 'i'];
        'i' 'd' "(match # with | A -> 1 | B b$ -> b$ | C c$ e$ -> if c$ then e$ else 0 end)";
        'i' 'i' "(match B 4 with | A -> 1 | B b$ -> # | C c$ e$ -> 2 end)" ["b$" 'i'];
        'i' 'i' "(match C true 8 with | C c$ e$ -> # | B b$ -> 0 | A -> 1 end)" ["e$" 'i'];
        'i' 'i' "(match (if gv < 9 then B 3 else A) with | A -> 1 | C c$ e$ -> 2 | B b$ -> # end)" ["b$" 'i'];
        'i' 'i' "(match (match A with | A -> B 3 | B b$ -> C true b$ | C c$ d$ -> A end) with | A -> 1 | B k$ -> # | C c$ e$ -> e$ end)" ["k$" 'i'];
        'i' 'l' "(match # with | N -> 0 | K h$ t$ -> h$ + gsum t$ end)";
        'i' 'l' "(gsum #)";
        'i' 'i' "((\\fold l$ -> match l$ with | N -> # | K h$ t$ -> h$ - t$ end) (K 1 (K 2 N)))";
        'i' 'i' "((\\fold l$ -> match l$ with | N -> 1 | K h$ t$ -> # end) (K 1 (K 2 N)))" ["h$" 'i', "t$" 'i'];
        'i' 'i' "((\\fold t$ -> match t$ with | Lf -> 1 | Nd a$ v$ b$ -> # end) (Nd (Nd Lf 2 Lf) 3 Lf))" ["a$" 'i', "v$" 'i', "b$" 'i'];
        'i' 'i' "((\\fold l$ -> match l$ with | N -> \\z$ -> # | K h$ t$ -> \\z$ -> t$ (z$ + h$) end) (K 1 (K 2 N)) 3)" ["z$" 'i'];
        'i' 'i' "((\\fold l$ -> match l$ with | N -> \\z$ -> z$ | K h$ t$ -> \\z$ -> t$ # end) (K 1 (K 2 N)) 3)" ["h$" 'i', "z$" 'i'];
        'i' 'o' "(match # with | No -> 0 | So o$ -> o$ end)";
        'i' 'i' "(match Mk # true with | Mk p$ q$ -> if q$ then p$ else 0 end)";
        'i' 'f' "(match Mk 3 # with | Mk p$ q$ -> q$ (q$ p$) end)";
        'i' 's' "(n.stringLength #)";
        'i' 's' "(n.stringCharAt 0 #)";
        'i' 'i' "(n.iterate 3 (\\x$ -> #) 1)" ["x$" 'i'];
        'i' 'i' "(n.iterate (# % 4) gf 1)";
        'i' 'f' "(n.iterate 2 # 1)";
        'i' 'i' "(# |> gadd 1)";
        'i' 'i' "(gid #)";
        'i' 'i' "(gk # 3)";
        'i' 'i' "(gk 3 #)";
        'i' 'i' "(gc gf (\\x$ -> #) 2)" ["x$" 'i'];
        'i' 'i' "(gp #)";
        'b' 'i' "(# < 4)";
        'b' 'i' "(5 == #)";
        'b' 'b' "(if # then false else gv > 2)";
        'b' 'b' "(let x$ = #; gid x$)";
        'b' 'd' "(match # with | A -> true | B _ -> false | C z$ _ -> z$ end)";
        'b' 'o' "(match # with | No -> true | So o$ -> o$ > 2 end)";
        'f' 'i' "(\\x$ -> #)" ["x$" 'i'];
        'f' 'i' "(gadd #)";
        'f' 'i' "(let y$ = #; \\x$ -> x$ + y$)";
        'f' 'i' "(let y$ = 2; \\x$ -> # - y$)" ["x$" 'i', "y$" 'i'];
        'f' 'b' "(if # then gf else gid)";
        'f' 'f' "(gc # gf)";
        'f' 'f' "(gk # 1)";
        'f' 'f' "(\\x$ -> # x$)" ["x$" 'i'];
        'f' 'd' "(match # with | A -> gf | B b$ -> gadd b$ | C _ e$ -> \\x$ -> x$ * e$ end)";
        'f' 'i' "((\\fold l$ -> match l$ with | N -> \\z$ -> # | K h$ t$ -> \\z$ -> t$ (z$ + h$) end) (K 1 (K 2 N)))" ["z$" 'i'];
        'd' 'i' "(B #)";
        'd' 'i' "(C (# < 3) 5)";
        'd' 'i' "(if # == 2 then A else B 3)";
        'd' 'd' "(match # with | A -> B 1 | B b$ -> C true b$ | C c$ e$ -> if c$ then A else B e$ end)";
        'd' 'i' "(match B 2 with | A -> A | B b$ -> (let y$ = #; C (y$ < b$) y$) | C c$ e$ -> B e$ end)" ["b$" 'i'];
        'd' 'l' "(match # with | N -> A | K h$ _ -> B h$ end)";
        'd' 'd' "(gid #)";
        'd' 'd' "(let w$ = #; w$)";
        'd' 'b' "(C # 3)";
        'l' 'i' "(K # N)";
        'l' 'i' "(K 1 (K # (K 3 N)))";
        'l' 'l' "(gapp # (K 9 N))";
        'l' 'l' "(gapp (K 1 N) #)";
        'l' 'i' "((\\fold l$ -> match l$ with | N -> N | K h$ t$ -> K # t$ end) (K 4 (K 5 N)))" ["h$" 'i'];
        'l' 'l' "(match # with | N -> K 1 N | K h$ t$ -> t$ end)";
        'o' 'i' "(So #)";
        'o' 'f' "(gmap # (So 3))";
        'o' 'i' "(gmap (\\x$ -> #) (So 3))" ["x$" 'i'];
        'o' 'b' "(if # then No else So 1)";
        'o' 'o' "(gmap gf #)";
        's' 's' "(n.stringConcat # \"x\")";
        's' 'i' "(n.stringFromChar #)";
        's' 'i' "(n.intToString #)";
        's' 'i' "(n.stringSubstring 1 # \"hello\")";
        's' 'b' "(if # then \"a\" else \"bb\")";
        's' 's' "(n.stringSubstring 0 2 #)";
    }
}

fn fillers(ty: char, vars: &[(String, char)], lean: bool) -> Vec<String> {
    let mut v: Vec<String> = match ty {
        'i' => vec!["7", "gv", "?h"],
        'b' => vec!["true", "(gv < 5)"],
        'f' => vec!["gf", "(\\q -> q + 1)", "(gk 2)"],
        'd' => vec!["A", "(B 2)", "(C true 3)"],
        'l' => vec!["N", "(K 1 (K 2 N))"],
        'o' => vec!["No", "(So 2)"],
        's' => vec!["\"\"", "\"hi\""],
        _ => vec![],
    }
    .into_iter()
    .map(|s| s.to_string())
    .collect();
    let mut seen: Vec<&str> = Vec::new();
    for (n, t) in vars.iter().rev() {
        if *t == ty && !seen.contains(&n.as_str()) {
            seen.push(n);
        }
    }
    if lean {
        // one constant will do, none where there are variables
        let keep = if seen.is_empty() { v.len().min(2) } else { 0 };
        v.drain(..v.len() - keep);
        v.truncate(1);
    }
    match seen.len() {
        0 => {}
        1 => v.push(seen[0].to_string()),
        k => {
            v.push(seen[0].to_string());
            v.push(seen[k - 1].to_string());
            if ty == 'i' {
                v.push(format!("({} - {})", seen[k - 1], seen[0]));
            }
        }
    }
    v
}

/// Every chain of `depth` contexts with every filler, or a few when `lean`.
pub fn compose(depth: usize, lean: bool, k: &mut dyn FnMut(&dyn Fn() -> String)) {
    let cs = contexts();
    fn go(cs: &[Ctx], ty: char, left: usize, d: usize, acc: &str, vars: &mut Vec<(String, char)>, lean: bool, k: &mut dyn FnMut(&dyn Fn() -> String)) {
        if left == 0 {
            for f in fillers(ty, vars, lean) {
                k(&|| with_prelude(&format!("export let r : int = {};", acc.replace('#', &f))));
            }
            return;
        }
        for c in cs {
            if c.out != ty {
                continue;
            }
            let t = c.tpl.replace('$', &d.to_string());
            let acc = acc.replace('#', &t);
            if acc.len() > 3000 {
                continue;
            }
            let n = vars.len();
            for (b, t) in c.binds {
                vars.push((b.replace('$', &d.to_string()), *t));
            }
            go(cs, c.hole, left - 1, d + 1, &acc, vars, lean, k);
            vars.truncate(n);
        }
    }
    go(&cs, 'i', depth, 0, "#", &mut Vec::new(), lean, k);
}
