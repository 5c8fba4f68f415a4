//! C29: programs in the intermediate representation, right and wrong ones,
//! against an independent type checker; the right ones are run and printed.
use crate::checks::text::sequences;
use crate::engine::{guard, Check, Cx};
use crate::irtext::{self, Stop};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write;
use ticc_core::ir;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Int,
    Bool,
    Str,
    Var(u8),
    /// A type by number, with arguments.
    Named(u8, Vec<T>),
    Fn(Vec<T>, Box<T>),
    All(u8, Box<T>),
}

#[derive(Clone, Debug)]
enum X {
    Int(u64),
    Bool(bool),
    Str,
    Name(u8),
    Call(Box<X>, Vec<X>),
    If(Box<X>, Box<X>, Box<X>),
    Op(Box<X>, usize, Box<X>),
    Intr(usize, Vec<X>),
    Lam(Vec<(u8, T)>, Box<X>),
    Match(Box<X>, Vec<(u8, Vec<u8>, X)>),
    Cons(u8, Vec<T>, Vec<X>),
    Let(u8, Box<X>, Box<X>),
    Rec(u8, T, Box<X>, Box<X>),
    Pi(u8, Box<X>),
    App(Box<X>, T),
    Trap(T),
}

struct TyDef {
    name: u8,
    vars: Vec<u8>,
    cases: Vec<(u8, Vec<T>)>,
}

struct Prog {
    types: Vec<TyDef>,
    defs: Vec<(u8, T, X)>,
}

const OPS: [(ir::Op, &str, bool); 11] = [
    (ir::Op::Add, "+", false),
    (ir::Op::Subtract, "-", false),
    (ir::Op::Multiply, "*", false),
    (ir::Op::Divide, "/", false),
    (ir::Op::Modulo, "%", false),
    (ir::Op::Less, "<", true),
    (ir::Op::LessEq, "<=", true),
    (ir::Op::Greater, ">", true),
    (ir::Op::GreaterEq, ">=", true),
    (ir::Op::Equal, "==", true),
    (ir::Op::NotEqual, "!=", true),
];

fn intrinsics() -> [(ir::Intrinsic, &'static str, Vec<T>, T); 6] {
    use T::*;
    [
        (ir::Intrinsic::StringLen, "len", vec![Str], Int),
        (ir::Intrinsic::StringConcat, "concat", vec![Str, Str], Str),
        (ir::Intrinsic::StringCharAt, "charat", vec![Int, Str], Int),
        (ir::Intrinsic::StringSubstring, "substr", vec![Int, Int, Str], Str),
        (ir::Intrinsic::StringFromChar, "fromchar", vec![Int], Str),
        (ir::Intrinsic::IntToString, "tostr", vec![Int], Str),
    ]
}

fn func(p: &[T], r: T) -> T {
    T::Fn(p.to_vec(), r.into())
}

// ---------------------------------------------------------------- text

impl T {
    fn show(&self, o: &mut String) {
        match self {
            T::Int => o.push_str("int"),
            T::Bool => o.push_str("bool"),
            T::Str => o.push_str("string"),
            T::Var(v) => write!(o, "'{v}").unwrap(),
            T::Named(n, a) => {
                write!(o, "T{n}").unwrap();
                list(o, "<", a, ">", T::show)
            }
            T::Fn(p, r) => {
                list(o, "(", p, ") -> ", T::show);
                r.show(o)
            }
            T::All(v, t) => {
                write!(o, "for '{v}. ").unwrap();
                t.show(o)
            }
        }
    }
}

fn list<A>(o: &mut String, open: &str, a: &[A], close: &str, f: impl Fn(&A, &mut String)) {
    o.push_str(open);
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        f(x, o);
    }
    o.push_str(close);
}

impl X {
    fn show(&self, o: &mut String) {
        match self {
            X::Int(i) => write!(o, "{i}").unwrap(),
            X::Bool(b) => write!(o, "{b}").unwrap(),
            X::Str => o.push_str("\"st\""),
            X::Name(n) => write!(o, "n{n}").unwrap(),
            X::Call(f, a) => {
                o.push('(');
                f.show(o);
                o.push(')');
                list(o, "(", a, ")", X::show)
            }
            X::If(a, b, c) => {
                o.push_str("(if ");
                a.show(o);
                o.push_str(" then ");
                b.show(o);
                o.push_str(" else ");
                c.show(o);
                o.push(')');
            }
            X::Op(a, i, b) => {
                o.push('(');
                a.show(o);
                write!(o, " {} ", OPS[*i].1).unwrap();
                b.show(o);
                o.push(')');
            }
            X::Intr(i, a) => {
                write!(o, "%{}", intrinsics()[*i].1).unwrap();
                list(o, "(", a, ")", X::show)
            }
            X::Lam(p, b) => {
                list(o, "(\\(", p, ") -> ", |(n, t), o| {
                    write!(o, "n{n} : ").unwrap();
                    t.show(o)
                });
                b.show(o);
                o.push(')');
            }
            X::Match(e, cs) => {
                o.push_str("(match ");
                e.show(o);
                o.push_str(" with");
                for (c, bs, e) in cs {
                    write!(o, " | n{c}").unwrap();
                    for b in bs {
                        write!(o, " n{b}").unwrap();
                    }
                    o.push_str(" -> ");
                    e.show(o);
                }
                o.push_str(" end)");
            }
            X::Cons(c, t, a) => {
                write!(o, "@n{c}").unwrap();
                if !t.is_empty() {
                    list(o, "[", t, "]", T::show);
                }
                list(o, "(", a, ")", X::show)
            }
            X::Let(n, a, b) => {
                write!(o, "(let n{n} = ").unwrap();
                a.show(o);
                o.push_str("; ");
                b.show(o);
                o.push(')');
            }
            X::Rec(n, t, a, b) => {
                write!(o, "(rec n{n} : ").unwrap();
                t.show(o);
                o.push_str(" = ");
                a.show(o);
                o.push_str("; ");
                b.show(o);
                o.push(')');
            }
            X::Pi(v, e) => {
                write!(o, "(Pi '{v} -> ").unwrap();
                e.show(o);
                o.push(')');
            }
            X::App(e, t) => {
                e.show(o);
                o.push('[');
                t.show(o);
                o.push(']');
            }
            X::Trap(t) => {
                o.push_str("#trap(");
                t.show(o);
                o.push(')');
            }
        }
    }
}

impl Prog {
    fn show(&self) -> String {
        let mut o = String::new();
        for t in &self.types {
            write!(o, "type T{}", t.name).unwrap();
            for v in &t.vars {
                write!(o, " '{v}").unwrap();
            }
            for (i, (c, f)) in t.cases.iter().enumerate() {
                write!(o, " {} n{c}", if i == 0 { "=" } else { "|" }).unwrap();
                list(&mut o, "(", f, ")", T::show);
            }
            o.push_str("; ");
        }
        for (n, t, x) in &self.defs {
            write!(o, "let n{n} : ").unwrap();
            t.show(&mut o);
            o.push_str(" = ");
            x.show(&mut o);
            o.push_str("; ");
        }
        o
    }
}

// ---------------------------------------------------------------- checker

/// Why a program is wrong, or that this checker does not decide.
enum Bad {
    Wrong(String),
    Either,
}
type R<A> = Result<A, Bad>;

fn wrong<A>(s: impl Into<String>) -> R<A> {
    Err(Bad::Wrong(s.into()))
}

fn ensure(b: bool, s: &str) -> R<()> {
    if b { Ok(()) } else { wrong(s) }
}

/// Same types up to the names of bound variables.
fn same(a: &T, b: &T) -> bool {
    fn go(a: &T, b: &T, env: &mut Vec<(u8, u8)>) -> bool {
        match (a, b) {
            (T::Var(x), T::Var(y)) => match env.iter().rev().find(|p| p.0 == *x || p.1 == *y) {
                Some(p) => *p == (*x, *y),
                None => x == y,
            },
            (T::Named(x, xs), T::Named(y, ys)) => x == y && xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| go(x, y, env)),
            (T::Fn(p, r), T::Fn(q, s)) => p.len() == q.len() && p.iter().zip(q).all(|(x, y)| go(x, y, env)) && go(r, s, env),
            (T::All(x, t), T::All(y, u)) => {
                env.push((*x, *y));
                let r = go(t, u, env);
                env.pop();
                r
            }
            (T::Int, T::Int) | (T::Bool, T::Bool) | (T::Str, T::Str) => true,
            _ => false,
        }
    }
    go(a, b, &mut Vec::new())
}

fn subst(t: &T, s: &[(u8, T)]) -> T {
    match t {
        T::Var(v) => s.iter().find(|p| p.0 == *v).map_or_else(|| t.clone(), |p| p.1.clone()),
        T::Named(n, a) => T::Named(*n, a.iter().map(|t| subst(t, s)).collect()),
        T::Fn(p, r) => T::Fn(p.iter().map(|t| subst(t, s)).collect(), subst(r, s).into()),
        T::All(v, t) => T::All(*v, subst(t, s).into()),
        _ => t.clone(),
    }
}

#[derive(Default)]
struct Checker {
    /// Names and type variables bound anywhere so far.
    bound: BTreeSet<u8>,
    vars_bound: BTreeSet<u8>,
    vars: BTreeSet<u8>,
    kinds: HashMap<u8, usize>,
    ctors: HashMap<u8, (u8, Vec<u8>, Vec<T>)>,
    /// Constructors of each type.
    cases: HashMap<u8, Vec<u8>>,
    env: Vec<(u8, T)>,
    /// What keeps a well typed program from being run here.
    not_run: bool,
}

/// Names from here on come from nowhere.
const FOREIGN: u8 = 200;

impl Checker {
    fn bind(&mut self, n: u8) -> R<()> {
        ensure(n < FOREIGN, "unknown name")?;
        ensure(self.bound.insert(n), "bound twice")
    }
    fn bind_var(&mut self, v: u8) -> R<()> {
        ensure(self.vars_bound.insert(v), "type variable bound twice")?;
        self.vars.insert(v);
        Ok(())
    }
    /// A type in an annotation.
    fn ty(&mut self, t: &T) -> R<()> {
        match t {
            T::Int | T::Bool | T::Str => Ok(()),
            T::Var(v) => ensure(self.vars.contains(v), "type variable not in scope"),
            T::Named(n, a) => {
                ensure(self.kinds.get(n) == Some(&a.len()), "wrong kind")?;
                a.iter().try_for_each(|t| self.ty(t))
            }
            T::Fn(p, r) => {
                p.iter().try_for_each(|t| self.ty(t))?;
                self.ty(r)
            }
            T::All(v, t) => {
                self.bind_var(*v)?;
                self.ty(t)?;
                self.vars.remove(v);
                Ok(())
            }
        }
    }
    /// A type argument: whether one that makes no sense is let through is
    /// not decided.
    fn arg(&mut self, t: &T) -> R<()> {
        let seen = self.vars_bound.clone();
        let r = self.ty(t);
        self.vars_bound = seen;
        r.map_err(|_| Bad::Either)
    }
    fn fits(&self, a: &T, b: &T) -> R<()> {
        ensure(same(a, b), "types differ")
    }
    /// Types of branches, which the program has to state in the same way.
    fn join(&self, a: &T, b: &T) -> R<()> {
        self.fits(a, b)?;
        if a == b { Ok(()) } else { Err(Bad::Either) }
    }
    fn all(&mut self, xs: &[X], ts: &[T]) -> R<()> {
        ensure(xs.len() == ts.len(), "wrong number of arguments")?;
        for (x, t) in xs.iter().zip(ts) {
            let a = self.expr(x)?;
            self.fits(&a, t)?;
        }
        Ok(())
    }
    fn expr(&mut self, x: &X) -> R<T> {
        let depth = self.env.len();
        let t = self.open(x);
        self.env.truncate(depth);
        t
    }
    fn open(&mut self, x: &X) -> R<T> {
        Ok(match x {
            X::Int(_) => T::Int,
            X::Bool(_) => T::Bool,
            X::Str => T::Str,
            X::Name(n) => match self.env.iter().rev().find(|p| p.0 == *n) {
                Some(p) => p.1.clone(),
                None => return wrong("name not in scope"),
            },
            X::Call(f, a) => match self.expr(f)? {
                T::Fn(p, r) => {
                    self.all(a, &p)?;
                    *r
                }
                _ => return wrong("called something else than a function"),
            },
            X::If(a, b, c) => {
                let a = self.expr(a)?;
                self.fits(&a, &T::Bool)?;
                let b = self.expr(b)?;
                let c = self.expr(c)?;
                self.join(&b, &c)?;
                b
            }
            X::Op(a, o, b) => {
                let a = self.expr(a)?;
                self.fits(&a, &T::Int)?;
                let b = self.expr(b)?;
                self.fits(&b, &T::Int)?;
                if OPS[*o].2 { T::Bool } else { T::Int }
            }
            X::Intr(i, a) => {
                let (_, _, p, r) = intrinsics()[*i].clone();
                self.all(a, &p)?;
                r
            }
            X::Lam(p, b) => {
                for (n, t) in p {
                    self.bind(*n)?;
                    self.ty(t)?;
                    self.env.push((*n, t.clone()));
                }
                let b = self.expr(b)?;
                T::Fn(p.iter().map(|p| p.1.clone()).collect(), b.into())
            }
            X::Match(e, cs) => {
                let T::Named(n, args) = self.expr(e)? else { return wrong("matched something else than data") };
                let mut ty: Option<T> = None;
                let mut seen = Vec::new();
                for (c, bs, e) in cs {
                    let Some((of, vars, fields)) = self.ctors.get(c).cloned() else { return wrong("no such constructor") };
                    ensure(of == n, "constructor of another type")?;
                    ensure(fields.len() == bs.len(), "wrong number of fields")?;
                    seen.push(*c);
                    let s: Vec<(u8, T)> = vars.iter().copied().zip(args.iter().cloned()).collect();
                    let depth = self.env.len();
                    for (b, f) in bs.iter().zip(&fields) {
                        self.bind(*b)?;
                        self.env.push((*b, subst(f, &s)));
                    }
                    let t = self.expr(e)?;
                    self.env.truncate(depth);
                    if let Some(u) = &ty {
                        self.join(u, &t)?;
                    }
                    ty = Some(t);
                }
                let mut all = self.cases[&n].clone();
                all.sort();
                seen.sort();
                if all != seen {
                    self.not_run = true;
                }
                match ty {
                    Some(t) => t,
                    None => return wrong("no branches"),
                }
            }
            X::Cons(c, ts, xs) => {
                let Some((of, vars, fields)) = self.ctors.get(c).cloned() else { return wrong("no such constructor") };
                ensure(vars.len() == ts.len(), "wrong number of type arguments")?;
                let mut bad = false;
                for t in ts {
                    bad |= self.arg(t).is_err();
                }
                let s: Vec<(u8, T)> = vars.iter().copied().zip(ts.iter().cloned()).collect();
                let fields: Vec<T> = fields.iter().map(|f| subst(f, &s)).collect();
                self.all(xs, &fields)?;
                if bad {
                    return Err(Bad::Either);
                }
                T::Named(of, ts.clone())
            }
            X::Let(n, a, b) => {
                let a = self.expr(a)?;
                self.bind(*n)?;
                self.env.push((*n, a));
                self.expr(b)?
            }
            X::Rec(n, t, a, b) => {
                self.ty(t)?;
                self.bind(*n)?;
                self.env.push((*n, t.clone()));
                let at = self.expr(a)?;
                self.fits(&at, t)?;
                let mut v: &X = a;
                while let X::Pi(_, e) = v {
                    v = e;
                }
                if !matches!(v, X::Lam(..)) {
                    self.not_run = true;
                }
                self.expr(b)?
            }
            X::Pi(v, e) => {
                self.bind_var(*v)?;
                let t = self.expr(e)?;
                self.vars.remove(v);
                T::All(*v, t.into())
            }
            X::App(e, t) => match self.expr(e)? {
                T::All(v, b) => {
                    self.arg(t)?;
                    subst(&b, &[(v, t.clone())])
                }
                _ => return wrong("type argument for something else than a type function"),
            },
            X::Trap(t) => {
                self.ty(t)?;
                t.clone()
            }
        })
    }
    fn program(&mut self, p: &Prog) -> R<()> {
        for t in &p.types {
            self.bind(t.name)?;
            self.kinds.insert(t.name, t.vars.len());
            self.cases.insert(t.name, t.cases.iter().map(|c| c.0).collect());
            for v in &t.vars {
                self.bind_var(*v)?;
            }
            for (c, fs) in &t.cases {
                self.bind(*c)?;
                fs.iter().try_for_each(|t| self.ty(t))?;
                self.ctors.insert(*c, (t.name, t.vars.clone(), fs.clone()));
            }
            for v in &t.vars {
                self.vars.remove(v);
            }
        }
        for (n, t, x) in &p.defs {
            self.ty(t)?;
            let a = self.expr(x)?;
            self.fits(&a, t)?;
            self.bind(*n)?;
            self.env.push((*n, a));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- the real one

struct Build<'a> {
    names: Vec<ir::Name>,
    vars: Vec<ir::TyVar>,
    prog: ir::Program<'a>,
}

impl Build<'_> {
    fn new() -> Build<'static> {
        let mut prog = ir::Program::new();
        let mut names: Vec<ir::Name> = (0..FOREIGN).map(|i| prog.names.new_fresh(["A", "b", "cc", "x1"][i as usize % 4])).collect();
        let mut more = prog.names.clone();
        names.extend((FOREIGN..=255).map(|_| more.new_fresh("q")));
        let vars = (0..=255).map(|_| prog.ty.next()).collect();
        Build { names, vars, prog }
    }
    fn n(&self, n: u8) -> ir::Name {
        self.names[n as usize]
    }
    fn ty(&self, t: &T) -> ir::Ty {
        match t {
            T::Int => ir::Ty::Int,
            T::Bool => ir::Ty::Bool,
            T::Str => ir::Ty::String,
            T::Var(v) => ir::Ty::Var(self.vars[*v as usize]),
            T::Named(n, a) => ir::Ty::Named(self.n(*n), a.iter().map(|t| self.ty(t)).collect()),
            T::Fn(p, r) => ir::Ty::Fn(p.iter().map(|t| self.ty(t)).collect(), self.ty(r).into()),
            T::All(v, t) => ir::Ty::Abs(self.vars[*v as usize], self.ty(t).into()),
        }
    }
    fn xs(&self, xs: &[X]) -> Vec<ir::Expr> {
        xs.iter().map(|x| self.x(x)).collect()
    }
    fn x(&self, x: &X) -> ir::Expr {
        match x {
            X::Int(i) => ir::Expr::Int(*i),
            X::Bool(b) => ir::Expr::Bool(*b),
            X::Str => ir::Expr::String(ir::ByteString::from(&b"st"[..])),
            X::Name(n) => ir::Expr::Name(self.n(*n)),
            X::Call(f, a) => ir::Expr::Call(self.x(f).into(), self.xs(a)),
            X::If(a, b, c) => ir::Expr::If(self.x(a).into(), self.x(b).into(), self.x(c).into()),
            X::Op(a, o, b) => ir::Expr::Op(self.x(a).into(), OPS[*o].0, self.x(b).into()),
            X::Intr(i, a) => ir::Expr::Intrinsic(intrinsics()[*i].0, self.xs(a)),
            X::Lam(p, b) => ir::Expr::Lambda(p.iter().map(|(n, t)| ir::LambdaParam { name: self.n(*n), ty: self.ty(t) }).collect(), self.x(b).into()),
            X::Match(e, cs) => ir::Expr::Match(
                self.x(e).into(),
                cs.iter().map(|(c, bs, e)| ir::Branch { ctor: self.n(*c), bindings: bs.iter().map(|b| self.n(*b)).collect(), value: self.x(e) }).collect(),
            ),
            X::Cons(c, t, a) => ir::Expr::Construct(self.n(*c), t.iter().map(|t| self.ty(t)).collect(), self.xs(a)),
            X::Let(n, a, b) => ir::Expr::Let(self.n(*n), self.x(a).into(), self.x(b).into()),
            X::Rec(n, t, a, b) => ir::Expr::LetRec(self.n(*n), self.ty(t), self.x(a).into(), self.x(b).into()),
            X::Pi(v, e) => ir::Expr::Pi(self.vars[*v as usize], self.x(e).into()),
            X::App(e, t) => ir::Expr::PiApply(self.x(e).into(), self.ty(t)),
            X::Trap(t) => ir::Expr::Trap("hole".into(), self.ty(t)),
        }
    }
    fn set(&mut self, p: &Prog) {
        self.prog.types = p
            .types
            .iter()
            .map(|t| ir::TyDef {
                name: self.n(t.name),
                vars: t.vars.iter().map(|v| self.vars[*v as usize]).collect(),
                cases: t.cases.iter().map(|(c, f)| ir::TyCase { name: self.n(*c), fields: f.iter().map(|t| self.ty(t)).collect() }).collect(),
            })
            .collect();
        self.prog.defs = p.defs.iter().enumerate().map(|(i, (n, t, x))| ir::ValueDef { name: self.n(*n), export_name: (i + 1 == p.defs.len()).then(|| "r".into()), ty: self.ty(t), value: self.x(x) }).collect();
    }
}

fn show_value<F: Clone>(b: &Build, v: &ticc_eval::Value<F>, atom: bool, o: &mut String)
where
    ticc_eval::Value<F>: std::fmt::Debug,
{
    match v {
        ticc_eval::Value::Int(i) => write!(o, "{i}").unwrap(),
        ticc_eval::Value::Bool(x) => write!(o, "{x}").unwrap(),
        ticc_eval::Value::String(s) => write!(o, "{s:?}").unwrap(),
        ticc_eval::Value::Fn(_) => o.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
        ticc_eval::Value::Composite(t) => {
            let paren = atom && t.fields().len() > 0;
            if paren {
                o.push('(');
            }
            o.push_str(b.prog.names.original_name(t.tag()));
            for f in t.fields().iter() {
                o.push(' ');
                show_value(b, f, true, o);
            }
            if paren {
                o.push(')');
            }
        }
    }
}

struct Env {
    b: Build<'static>,
}

impl Env {
    fn case(&mut self, cx: &mut Cx, p: &Prog) -> Result<(), String> {
        let mut ch = Checker::default();
        let want = ch.program(p);
        self.b.set(p);
        let got = guard(|| ticc_core::assert_valid(&self.b.prog));
        cx.ops(1);
        match (&want, &got) {
            (Err(Bad::Either), _) => {
                cx.count("undecided", 1);
                return Ok(());
            }
            (Err(Bad::Wrong(w)), Ok(())) => return Err(format!("verification accepts the program: {w}")),
            (Err(Bad::Wrong(_)), Err(_)) => {
                cx.validated(1);
                cx.count("rejected", 1);
                return Ok(());
            }
            (Ok(()), Err(e)) => return Err(format!("verification rejects the program: {e}")),
            (Ok(()), Ok(())) => cx.count("accepted", 1),
        }
        cx.validated(1);
        if ch.not_run {
            cx.count("not_run", 1);
            return Ok(());
        }
        let text = guard(|| ticc_core::pretty_print(&self.b.prog)).map_err(|e| format!("printing fails: {e}"))?;
        cx.ops(1);
        let ir = irtext::read(&text).map_err(|e| format!("the printed code cannot be read back: {e}\n{text}"))?;
        let want = match irtext::run(&ir, 20_000) {
            Ok(s) => s.strip_prefix("r = ").unwrap_or(&s).trim_end().to_owned(),
            Err(Stop::Trap(m)) => format!("trap {m}"),
            Err(Stop::Fuel) => {
                cx.count("out_of_fuel", 1);
                return Ok(());
            }
            Err(Stop::Wrong(e)) => return Err(format!("the printed code does not work: {e}\n{text}")),
        };
        let root = [ir::Expr::Name(self.b.n(p.defs.last().unwrap().0))];
        for k in 0..3 {
            let got = guard(|| {
                let mut o = String::new();
                let r = match k {
                    0 => ticc_eval::bytecode::eval(&self.b.prog, &root).map(|v| show_value(&self.b, &v[0], false, &mut o)),
                    1 => ticc_eval::lambda::eval(&self.b.prog, &root).map(|v| show_value(&self.b, &v[0], false, &mut o)),
                    _ => ticc_eval::treewalk::eval(&self.b.prog, &root).map(|v| show_value(&self.b, &v[0], false, &mut o)),
                };
                match r {
                    Ok(()) => o,
                    Err(t) => format!("trap {}", t.message),
                }
            });
            let name = ["bytecode", "lambda", "treewalk"][k];
            cx.ops(1);
            match got {
                Err(e) => return Err(format!("{name} fails on a verified program: {e}\n{text}")),
                Ok(g) if g != want => return Err(format!("{name} gives {g}, the printed code {want}\n{text}")),
                Ok(_) => cx.validated(1),
            }
        }
        cx.count("run", 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- generation

const D: u8 = 0;
const A: u8 = 1;
const B: u8 = 2;
const L: u8 = 3;
const NIL: u8 = 4;
const CONS: u8 = 5;
const F: u8 = 6;
const ID: u8 = 7;
const R: u8 = 8;
/// Local names start here.
const LOCAL: u8 = 20;

fn d() -> T {
    T::Named(D, vec![])
}

fn types() -> Vec<TyDef> {
    vec![
        TyDef { name: D, vars: vec![], cases: vec![(A, vec![]), (B, vec![T::Int])] },
        TyDef { name: L, vars: vec![0], cases: vec![(NIL, vec![]), (CONS, vec![T::Var(0), T::Named(L, vec![T::Var(0)])])] },
    ]
}

fn prog(t: T, x: X) -> Prog {
    let f = X::Lam(vec![(10, T::Int)], X::Op(X::Name(10).into(), 0, X::Int(1).into()).into());
    let id = X::Pi(2, X::Lam(vec![(11, T::Var(2))], X::Name(11).into()).into());
    Prog {
        types: types(),
        defs: vec![(F, func(&[T::Int], T::Int), f), (ID, T::All(1, func(&[T::Var(1)], T::Var(1)).into()), id), (R, t, x)],
    }
}

/// The type the reference gives an expression, to declare it with.
fn infer(x: &X) -> Option<T> {
    let mut p = prog(T::Int, X::Int(0));
    p.defs.pop();
    let mut c = Checker::default();
    c.program(&p).ok()?;
    c.expr(x).ok()
}

/// Gives the type variables bound in `t` new names from `from` on.
fn freshen(t: &T, from: &mut u8, env: &mut Vec<(u8, u8)>) -> T {
    match t {
        T::Var(v) => T::Var(env.iter().rev().find(|p| p.0 == *v).map_or(*v, |p| p.1)),
        T::Named(n, a) => T::Named(*n, a.iter().map(|t| freshen(t, from, env)).collect()),
        T::Fn(p, r) => T::Fn(p.iter().map(|t| freshen(t, from, env)).collect(), freshen(r, from, env).into()),
        T::All(v, t) => {
            *from += 1;
            env.push((*v, *from));
            let t = T::All(env.last().unwrap().1, freshen(t, from, env).into());
            env.pop();
            t
        }
        _ => t.clone(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Leaf,
    Lam,
    Pi,
    App,
    B,
    Call,
    Let,
    Rec,
    Add,
    If,
    MatchD,
    Lam2,
    Call2,
    Cons,
    MatchL,
    Less,
}
use Shape as S;

const SHAPES: [(Shape, usize); 15] = [
    (S::Lam, 1),
    (S::Pi, 1),
    (S::App, 1),
    (S::B, 1),
    (S::Lam2, 1),
    (S::Call, 2),
    (S::Let, 2),
    (S::Rec, 2),
    (S::Add, 2),
    (S::Less, 2),
    (S::Cons, 2),
    (S::If, 3),
    (S::MatchD, 3),
    (S::Call2, 3),
    (S::MatchL, 3),
];

struct Tree(Shape, Vec<Tree>);

/// All trees of `n` nodes.
fn trees(n: usize) -> Vec<std::rc::Rc<Tree>> {
    fn split(n: usize, k: usize, out: &mut Vec<Vec<usize>>, cur: &mut Vec<usize>) {
        if k == 1 {
            cur.push(n);
            out.push(cur.clone());
            cur.pop();
            return;
        }
        for a in 1..=n + 1 - k {
            cur.push(a);
            split(n - a, k - 1, out, cur);
            cur.pop();
        }
    }
    fn clone(t: &Tree) -> Tree {
        Tree(t.0, t.1.iter().map(clone).collect())
    }
    if n == 1 {
        return vec![Tree(S::Leaf, vec![]).into()];
    }
    let mut out = Vec::new();
    for (s, k) in SHAPES {
        if n < k + 1 {
            continue;
        }
        let mut parts = Vec::new();
        split(n - 1, k, &mut parts, &mut Vec::new());
        for p in parts {
            let kids: Vec<Vec<std::rc::Rc<Tree>>> = p.iter().map(|n| trees(*n)).collect();
            let mut ix = vec![0; k];
            'next: loop {
                out.push(Tree(s, ix.iter().zip(&kids).map(|(i, k)| clone(&k[*i])).collect()).into());
                for j in 0..k {
                    ix[j] += 1;
                    if ix[j] < kids[j].len() {
                        continue 'next;
                    }
                    ix[j] = 0;
                }
                break;
            }
        }
    }
    out
}

/// Choices made while a tree is turned into an expression, as an odometer.
struct Choice {
    digits: Vec<(usize, usize)>,
    at: usize,
}

impl Choice {
    fn pick(&mut self, n: usize) -> usize {
        if self.at == self.digits.len() {
            self.digits.push((0, n));
        }
        let d = self.digits[self.at];
        debug_assert_eq!(d.1, n);
        self.at += 1;
        d.0
    }
    fn next(&mut self) -> bool {
        self.at = 0;
        while let Some(d) = self.digits.last_mut() {
            d.0 += 1;
            if d.0 < d.1 {
                return true;
            }
            self.digits.pop();
        }
        false
    }
}

struct Fill<'a> {
    ch: &'a mut Choice,
    names: u8,
    vars: u8,
    /// More types to choose from in annotations.
    rich: bool,
}

impl Fill<'_> {
    fn name(&mut self) -> u8 {
        self.names += 1;
        self.names - 1
    }
    fn ty(&mut self) -> T {
        let pis = (self.vars - 10) as usize;
        let n = if self.rich { 4 } else { 3 };
        match self.ch.pick(n + pis) {
            0 => T::Int,
            1 => d(),
            2 => func(&[T::Int], T::Int),
            3 if self.rich => T::Named(L, vec![T::Int]),
            i => T::Var(10 + (i - n) as u8),
        }
    }
    fn x(&mut self, t: &Tree) -> X {
        let go = |s: &mut Self, i: usize| -> Box<X> { s.x(&t.1[i]).into() };
        match t.0 {
            S::Leaf => {
                let fixed = if self.rich { 8 } else { 6 };
                let i = self.ch.pick(fixed + (self.names - LOCAL) as usize);
                match i {
                    0 => X::Int(3),
                    1 => X::Bool(true),
                    2 => X::Name(F),
                    3 => X::Name(ID),
                    4 => X::Cons(A, vec![], vec![]),
                    5 => X::Cons(NIL, vec![T::Int], vec![]),
                    6 if self.rich => X::Str,
                    7 if self.rich => X::Trap(T::Int),
                    i => X::Name(LOCAL + (i - fixed) as u8),
                }
            }
            S::Lam => {
                let n = self.name();
                let t = self.ty();
                X::Lam(vec![(n, t)], go(self, 0))
            }
            S::Lam2 => {
                let (n, m) = (self.name(), self.name());
                let t = self.ty();
                X::Lam(vec![(n, t.clone()), (m, T::Int)], go(self, 0))
            }
            S::Pi => {
                self.vars += 1;
                let v = self.vars - 1;
                X::Pi(v, go(self, 0))
            }
            S::App => {
                let x = go(self, 0);
                let t = self.ty();
                X::App(x, t)
            }
            S::B => X::Cons(B, vec![], vec![*go(self, 0)]),
            S::Call => X::Call(go(self, 0), vec![*go(self, 1)]),
            S::Call2 => X::Call(go(self, 0), vec![*go(self, 1), *go(self, 2)]),
            S::Let => {
                let n = self.name();
                X::Let(n, go(self, 0), go(self, 1))
            }
            S::Rec => {
                let n = self.name();
                let t = self.ty();
                X::Rec(n, t, go(self, 0), go(self, 1))
            }
            S::Add => X::Op(go(self, 0), 0, go(self, 1)),
            S::Less => X::Op(go(self, 0), 5, go(self, 1)),
            S::If => X::If(go(self, 0), go(self, 1), go(self, 2)),
            S::Cons => X::Cons(CONS, vec![T::Int], vec![*go(self, 0), *go(self, 1)]),
            S::MatchD => {
                let e = go(self, 0);
                let a = *go(self, 1);
                let n = self.name();
                X::Match(e, vec![(A, vec![], a), (B, vec![n], *go(self, 2))])
            }
            S::MatchL => {
                let e = go(self, 0);
                let (n, m) = (self.name(), self.name());
                let c = *go(self, 1);
                X::Match(e, vec![(CONS, vec![n, m], c), (NIL, vec![], *go(self, 2))])
            }
        }
    }
}

/// Every way to fill a tree.
fn fillings(t: &Tree, rich: bool, f: &mut dyn FnMut(X)) {
    let mut ch = Choice { digits: vec![], at: 0 };
    loop {
        let x = Fill { ch: &mut ch, names: LOCAL, vars: 10, rich }.x(t);
        f(x);
        if !ch.next() {
            return;
        }
    }
}

/// Declared types to try with an expression.
fn declared(x: &X) -> Vec<T> {
    let mut out = Vec::new();
    match infer(x) {
        None => out.push(T::Int),
        Some(t) => {
            out.push(freshen(&t, &mut 100, &mut Vec::new()));
            for u in [T::Int, T::Bool, T::Str, d(), T::Named(L, vec![T::Int]), T::Named(L, vec![T::Bool]), func(&[T::Int], T::Int), func(&[T::Int, T::Int], T::Int), func(&[T::Int], T::Bool), T::All(120, func(&[T::Var(120)], T::Int).into()), T::All(120, T::All(121, func(&[T::Var(121)], T::Var(120)).into()).into()), T::All(120, func(&[T::Int], T::Int).into())] {
                if !same(&u, &t) {
                    out.push(u);
                }
            }
        }
    }
    out
}

/// The places in an expression that bind names, and type variables.
fn binders(x: &mut X, f: &mut dyn FnMut(&mut u8)) {
    match x {
        X::Lam(p, b) => {
            p.iter_mut().for_each(|p| f(&mut p.0));
            binders(b, f)
        }
        X::Match(e, cs) => {
            binders(e, f);
            for (_, bs, e) in cs {
                bs.iter_mut().for_each(&mut *f);
                binders(e, f);
            }
        }
        X::Let(n, a, b) | X::Rec(n, _, a, b) => {
            f(n);
            binders(a, f);
            binders(b, f)
        }
        X::Call(e, a) => {
            binders(e, f);
            a.iter_mut().for_each(|x| binders(x, f))
        }
        X::Intr(_, a) | X::Cons(_, _, a) => a.iter_mut().for_each(|x| binders(x, f)),
        X::If(a, b, c) => [a, b, c].into_iter().for_each(|x| binders(x, f)),
        X::Op(a, _, b) => [a, b].into_iter().for_each(|x| binders(x, f)),
        X::Pi(_, e) | X::App(e, _) => binders(e, f),
        _ => {}
    }
}

fn bx(x: X) -> Box<X> {
    x.into()
}

/// Expressions of every type there is, with no binders of their own.
fn atoms() -> Vec<X> {
    vec![
        X::Int(7),
        X::Bool(false),
        X::Str,
        X::Cons(A, vec![], vec![]),
        X::Cons(NIL, vec![T::Int], vec![]),
        X::Cons(NIL, vec![d()], vec![]),
        X::Name(F),
        X::Name(ID),
        X::App(bx(X::Name(ID)), T::Int),
        X::App(bx(X::Name(ID)), d()),
        X::Trap(T::Bool),
    ]
}

/// One expression with all the programs made from it.
fn group(cx: &mut Cx, env: &mut Env, x: &X, all: impl Fn(&X, &mut dyn FnMut(&Prog) -> Result<(), String>) -> Result<(), String>) {
    if !cx.mine() {
        cx.skip();
        return;
    }
    let mut s = String::new();
    x.show(&mut s);
    cx.case(&s, |cx| all(x, &mut |p| env.case(cx, p).map_err(|e| format!("{e}\n{}", p.show()))));
}

fn c29(cx: &mut Cx) {
    let mut env = Env { b: Build::new() };
    let most = cx.pick(5, 6);
    cx.bound("nodes", most);
    for n in 1..=most {
        cx.family(&format!("terms_{n}"));
        for t in trees(n) {
            fillings(&t, n <= most - 1, &mut |x| {
                group(cx, &mut env, &x, |x, f| declared(x).into_iter().try_for_each(|t| f(&prog(t, x.clone()))));
            });
        }
    }

    // every binder given the name of every other, of something global, and
    // a name that comes from elsewhere
    cx.family("bound_once");
    for n in 2..=most {
        for t in trees(n) {
            fillings(&t, false, &mut |x| {
                group(cx, &mut env, &x, |x, f| {
                    let Some(t) = infer(x) else { return Ok(()) };
                    let t = freshen(&t, &mut 100, &mut Vec::new());
                    let mut names = Vec::new();
                    binders(&mut x.clone(), &mut |n| names.push(*n));
                    for i in 0..names.len() {
                        let others = names.iter().copied().filter(|n| *n != names[i]);
                        for to in others.chain([D, A, CONS, F, R, 10, FOREIGN + i as u8]) {
                            let mut y = x.clone();
                            let mut at = 0;
                            binders(&mut y, &mut |n| {
                                if at == i {
                                    *n = to;
                                }
                                at += 1;
                            });
                            f(&prog(t.clone(), y))?;
                        }
                    }
                    Ok(())
                });
            });
        }
    }

    let mut one = |cx: &mut Cx, p: &dyn Fn() -> Prog| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let p = p();
        cx.case(&p.show(), |cx| env.case(cx, &p));
    };
    cx.family("operators");
    let at = atoms();
    for o in 0..OPS.len() {
        for a in &at {
            for b in &at {
                for t in [T::Int, T::Bool, T::Str] {
                    one(cx, &|| prog(t.clone(), X::Op(bx(a.clone()), o, bx(b.clone()))));
                }
            }
        }
    }
    cx.family("intrinsics");
    let few: Vec<X> = [0, 1, 2, 6].iter().map(|i| at[*i].clone()).collect();
    for i in 0..6 {
        for n in 0..=4 {
            sequences(few.len(), n, &mut |v| {
                for t in [T::Int, T::Bool, T::Str] {
                    one(cx, &|| prog(t.clone(), X::Intr(i, v.iter().map(|j| few[*j].clone()).collect())));
                }
            });
        }
    }
    cx.family("conditions");
    for a in &at {
        for b in &at {
            for c in &at {
                let x = X::If(bx(a.clone()), bx(b.clone()), bx(c.clone()));
                for t in declared(&x).into_iter().take(3) {
                    one(cx, &|| prog(t.clone(), x.clone()));
                }
            }
        }
    }
    cx.family("calls");
    let params = [T::Int, T::Bool, d(), func(&[T::Int], T::Int), T::Named(L, vec![T::Int])];
    for n in 0..=3 {
        sequences(params.len(), n, &mut |ps| {
            for m in 0..=if n == 3 { 3 } else { n + 1 } {
                sequences(if n == 3 { 4 } else { 9 }, m, &mut |xs| {
                    let args: Vec<usize> = xs.iter().map(|i| if n == 3 { [0, 1, 3, 6][*i] } else { *i }).collect();
                    one(cx, &|| {
                        let lam = X::Lam(ps.iter().enumerate().map(|(i, p)| (LOCAL + i as u8, params[*p].clone())).collect(), bx(if n == 0 { X::Int(4) } else { X::Name(LOCAL) }));
                        let r = if n == 0 { T::Int } else { params[ps[0]].clone() };
                        prog(r, X::Call(bx(lam), args.iter().map(|i| at[*i].clone()).collect()))
                    });
                });
            }
        });
    }
    cx.family("constructors");
    let tys = [T::Int, d(), T::Named(L, vec![T::Int]), T::Named(L, vec![]), T::Var(0)];
    for c in [A, B, NIL, CONS, F, LOCAL] {
        for k in 0..=2 {
            sequences(tys.len(), k, &mut |ts| {
                for n in 0..=3 {
                    sequences(6, n, &mut |xs| {
                        let x = X::Cons(c, ts.iter().map(|i| tys[*i].clone()).collect(), xs.iter().map(|i| at[*i].clone()).collect());
                        let t = declared(&x).swap_remove(0);
                        one(cx, &|| prog(t.clone(), x.clone()));
                    });
                }
            });
        }
    }
    cx.family("matches");
    // branches: constructor, number of bindings, result
    let mut branches = Vec::new();
    for (c, most) in [(A, 1), (B, 2), (NIL, 1), (CONS, 3), (F, 0)] {
        for k in 0..=most {
            for r in 0..3 + k.min(1) {
                branches.push((c, k, r));
            }
        }
    }
    let scrutinees = [X::Cons(A, vec![], vec![]), X::Cons(B, vec![], vec![X::Int(2)]), X::Cons(NIL, vec![d()], vec![]), X::Cons(CONS, vec![T::Int], vec![X::Int(1), X::Cons(NIL, vec![T::Int], vec![])]), X::Int(1), X::Name(F)];
    for s in &scrutinees {
        for n in 0..=cx.pick(2, 3) {
            sequences(branches.len(), n, &mut |bs| {
                let mut next = LOCAL;
                let cs = bs
                    .iter()
                    .map(|i| {
                        let (c, k, r) = branches[*i];
                        let names: Vec<u8> = (0..k).map(|i| next + i as u8).collect();
                        next += k as u8;
                        let e = match r {
                            0 => X::Int(5),
                            1 => X::Bool(true),
                            2 => X::Name(LOCAL),
                            _ => X::Name(next - 1),
                        };
                        (c, names, e)
                    })
                    .collect();
                let x = X::Match(bx(s.clone()), cs);
                for t in declared(&x).into_iter().take(2) {
                    one(cx, &|| prog(t.clone(), x.clone()));
                }
            });
        }
    }

    cx.family("polymorphism");
    // two type parameters, two parameters, applied in every way
    let inner = [T::Var(10), T::Var(11), T::Int, T::Named(L, vec![T::Var(10)]), func(&[T::Var(11)], T::Var(10)), T::Var(12)];
    for a in &inner {
        for b in &inner {
            for body in [0, 1] {
                for uses in 0..4 {
                    sequences(4, uses, &mut |ts| {
                        for by in 0..3 {
                            let f = X::Pi(10, bx(X::Pi(11, bx(X::Lam(vec![(LOCAL, a.clone()), (LOCAL + 1, b.clone())], bx(X::Name(LOCAL + body)))))));
                            let args = [T::Int, d(), func(&[T::Int], T::Int), T::Named(L, vec![T::Int])];
                            let apply = |mut x: X| {
                                for t in ts {
                                    x = X::App(bx(x), args[*t].clone());
                                }
                                x
                            };
                            let x = match by {
                                0 => apply(f),
                                1 => X::Let(LOCAL + 5, bx(f), bx(apply(X::Name(LOCAL + 5)))),
                                _ => {
                                    let fr = |t: &T| subst(t, &[(10, T::Var(30)), (11, T::Var(31))]);
                                    let t = T::All(30, T::All(31, func(&[fr(a), fr(b)], fr([a, b][body as usize])).into()).into());
                                    X::Rec(LOCAL + 5, t, bx(f), bx(apply(X::Name(LOCAL + 5))))
                                }
                            };
                            for t in declared(&x).into_iter().take(3) {
                                one(cx, &|| prog(t.clone(), x.clone()));
                            }
                        }
                    });
                }
            }
        }
    }
    cx.family("declared_types");
    // the type of a definition with two type parameters against every
    // declaration of the same form
    let vs = [T::Var(40), T::Var(41), T::Int, T::Var(10), T::Var(0)];
    let real = [T::Var(10), T::Var(11), T::Int];
    for a in &real {
        for b in &real {
            for r in [0, 1] {
                for p in &vs {
                    for q in &vs {
                        for s in &vs {
                            for form in 0..4 {
                                one(cx, &|| {
                                    let f = X::Pi(10, bx(X::Pi(11, bx(X::Lam(vec![(LOCAL, a.clone()), (LOCAL + 1, b.clone())], bx(X::Name(LOCAL + r)))))));
                                    let t = func(&[p.clone(), q.clone()], s.clone());
                                    let t = match form {
                                        0 => T::All(40, T::All(41, t.into()).into()),
                                        1 => T::All(41, T::All(40, t.into()).into()),
                                        2 => T::All(40, t.into()),
                                        _ => T::All(40, T::All(40, t.into()).into()),
                                    };
                                    prog(t, f)
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    cx.family("several_definitions");
    // three definitions using each other, in every order of use
    let refs = [None, Some(50), Some(51), Some(52), Some(F)];
    for t in [func(&[T::Int], T::Int), T::Int] {
        for a in refs {
            for b in refs {
                for c in refs {
                    for names in [[50, 51, 52], [50, 50, 52], [50, 51, 50], [50, 51, F], [50, A, 52], [D, 51, 52], [50, 51, FOREIGN]] {
                        for poly in [false, true] {
                            one(cx, &|| {
                                let mut p = prog(T::Int, X::Int(0));
                                p.defs.pop();
                                for (i, (n, r)) in names.iter().zip([a, b, c]).enumerate() {
                                    let x = match r {
                                        Some(r) => X::Name(r),
                                        None => X::Lam(vec![(60 + i as u8, T::Int)], bx(X::Int(i as u64))),
                                    };
                                    if poly && i == 0 {
                                        p.defs.push((*n, T::All(70, t.clone().into()), X::Pi(71, bx(x))));
                                    } else {
                                        let x = if poly && r == Some(50) { X::App(bx(x), T::Int) } else { x };
                                        p.defs.push((*n, t.clone(), x));
                                    }
                                }
                                p
                            });
                        }
                    }
                }
            }
        }
    }
    cx.family("type_definitions");
    // two types with up to two variables each and every pair of fields
    let fields = [T::Int, T::Var(0), T::Var(1), T::Var(2), T::Named(D, vec![]), T::Named(D, vec![T::Int]), T::Named(L, vec![T::Var(0)]), T::Named(L, vec![T::Int, T::Var(1)]), T::Named(9, vec![]), func(&[T::Var(0)], T::Named(D, vec![])), T::All(5, T::Var(5).into()), T::Named(A, vec![])];
    let vars: [&[u8]; 6] = [&[], &[0], &[1], &[0, 1], &[0, 0], &[2]];
    for v0 in vars {
        for v1 in vars {
            for f0 in &fields {
                for f1 in &fields {
                    for names in [[A, B, NIL], [A, A, NIL], [A, B, A], [D, B, NIL], [A, L, NIL], [A, B, FOREIGN]] {
                        one(cx, &|| Prog {
                            types: vec![TyDef { name: D, vars: v0.to_vec(), cases: vec![(names[0], vec![f0.clone()]), (names[1], vec![])] }, TyDef { name: L, vars: v1.to_vec(), cases: vec![(names[2], vec![T::Int, f1.clone()])] }],
                            defs: vec![(R, T::Int, X::Int(1))],
                        });
                    }
                }
            }
        }
    }
}

pub static C29: Check = Check {
    id: "C29",
    run: c29,
    assumptions: &[
        "Type arguments that are not in scope or of the wrong kind, and branches whose types differ only in the names of bound type variables, are left undecided.",
        "Programs whose matches lack or repeat a case, or whose recursive definition is not a function, are verified but not run.",
    ],
    meaning: "a state is one intermediate program; a transition is one verification, printing or execution of it by the real code",
    hang_s: 60,
    mem_mb: 0,
};
