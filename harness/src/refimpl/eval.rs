//! Reference big-step evaluator working directly on the checked syntax tree.
use super::check::{Field, Sym, Unit, DK, T, W};
use super::parse::{Exp, Item, EK};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Data(Sym, Rc<Vec<V>>),
    Fun(Rc<F>),
}

pub enum F {
    Lam { unit: Rc<Unit>, body: *const Exp, param: Sym, fold: bool, env: Env },
    /// A constructor or intrinsic collecting its arguments.
    Prim(Prim, usize, Vec<V>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prim {
    Ctor(Sym),
    Iterate,
    Len,
    Concat,
    CharAt,
    Substring,
    FromChar,
    ToString,
}

pub struct EnvNode {
    sym: Sym,
    v: V,
    next: Env,
}
pub type Env = Option<Rc<EnvNode>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    Trap(String),
    Fuel,
}

pub struct Ev<'w> {
    w: &'w W,
    globals: HashMap<Sym, V>,
    done: HashSet<usize>,
    /// Types of expressions are per unit.
    pub fuel: u64,
    depth: u32,
    /// Number of fold applications and of iterate steps taken.
    pub folds: u64,
}

type R = Result<V, Stop>;

fn clone_unit(u: &Rc<Unit>) -> Rc<Unit> {
    u.clone()
}

pub fn display(w: &W, v: &V, atom: bool, out: &mut String) {
    match v {
        V::Int(i) => out.push_str(&i.to_string()),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Str(s) => {
            out.push('"');
            for &c in s.iter() {
                match c {
                    b'\n' => out.push_str("\\n"),
                    b'\r' => out.push_str("\\r"),
                    32..=126 => out.push(c as char),
                    _ => out.push_str(&format!("\\x{c:02x}")),
                }
            }
            out.push('"');
        }
        V::Data(c, fs) => {
            let paren = atom && !fs.is_empty();
            if paren {
                out.push('(');
            }
            out.push_str(&w.borrow().syms[*c].name);
            for f in fs.iter() {
                out.push(' ');
                display(w, f, true, out);
            }
            if paren {
                out.push(')');
            }
        }
        V::Fun(_) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
    }
}

/// The text a run of the program prints: every exported value in order.
pub fn run(w: &W, unit: &Rc<Unit>, fuel: u64) -> Result<String, Stop> {
    let mut ev = Ev::new(w, fuel);
    ev.unit(unit)?;
    let mut out = String::new();
    for d in &unit.defs {
        if d.vis == super::check::Vis::Export {
            if let DK::Value { .. } = w.borrow().syms[d.sym].kind {
            } else {
                continue;
            }
            out.push_str(&d.name);
            out.push_str(" = ");
            display(w, &ev.globals[&d.sym], false, &mut out);
            out.push('\n');
        }
    }
    Ok(out)
}

/// Applies the exported `main` to the input bytes.
pub fn run_main(w: &W, unit: &Rc<Unit>, input: &[u8], fuel: u64) -> Result<Vec<u8>, Stop> {
    let mut ev = Ev::new(w, fuel);
    ev.unit(unit)?;
    let s = unit.exports[&(super::check::NS::Value, "main".to_owned())];
    let f = ev.globals[&s].clone();
    match ev.apply(f, V::Str(input.into()))? {
        V::Str(s) => Ok(s.to_vec()),
        _ => panic!("main returned no string"),
    }
}

impl<'w> Ev<'w> {
    pub fn new(w: &'w W, fuel: u64) -> Ev<'w> {
        Ev { w, globals: HashMap::new(), done: HashSet::new(), fuel, depth: 0, folds: 0 }
    }

    pub fn unit(&mut self, u: &Rc<Unit>) -> Result<(), Stop> {
        if !self.done.insert(u.id) {
            return Ok(());
        }
        let intrinsics = self.w.borrow().std.get("std/intrinsics").map(|i| i.id) == Some(u.id);
        for (idx, item) in u.ast.items.iter().enumerate() {
            match item {
                Item::Import { name, exposed, .. } => {
                    // A module that introduces nothing is not part of the program.
                    if let (Some(i), true) = (u.imports.get(&idx), name.is_some() || !exposed.is_empty()) {
                        let i = clone_unit(i);
                        self.unit(&i)?;
                    }
                }
                Item::Type { .. } => {}
                Item::Let { name, e, .. } => {
                    let s = u.def_by_span[&name.span];
                    let v = if intrinsics {
                        let (p, n) = match name.text.as_str() {
                            "iterate" => (Prim::Iterate, 3),
                            "stringLength" => (Prim::Len, 1),
                            "stringConcat" => (Prim::Concat, 2),
                            "stringCharAt" => (Prim::CharAt, 2),
                            "stringSubstring" => (Prim::Substring, 3),
                            "stringFromChar" => (Prim::FromChar, 1),
                            "intToString" => (Prim::ToString, 1),
                            n => panic!("intrinsic {n}"),
                        };
                        V::Fun(Rc::new(F::Prim(p, n, vec![])))
                    } else {
                        self.eval(u, e, &None)?
                    };
                    self.globals.insert(s, v);
                }
            }
        }
        Ok(())
    }

    fn lookup(&self, env: &Env, s: Sym) -> V {
        let mut e = env;
        while let Some(n) = e {
            if n.sym == s {
                return n.v.clone();
            }
            e = &n.next;
        }
        if let Some(v) = self.globals.get(&s) {
            return v.clone();
        }
        match &self.w.borrow().syms[s].kind {
            DK::Ctor { fields, .. } => {
                if fields.is_empty() {
                    V::Data(s, Rc::new(vec![]))
                } else {
                    V::Fun(Rc::new(F::Prim(Prim::Ctor(s), fields.len(), vec![])))
                }
            }
            _ => panic!("unbound {}", self.w.borrow().syms[s].name),
        }
    }

    fn eval(&mut self, u: &Rc<Unit>, e: &Exp, env: &Env) -> R {
        if self.fuel == 0 || self.depth > 200_000 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.eval0(u, e, env);
        self.depth -= 1;
        r
    }

    fn eval0(&mut self, u: &Rc<Unit>, e: &Exp, env: &Env) -> R {
        Ok(match &e.k {
            EK::Var(n) | EK::NsVar(_, n) => self.lookup(env, u.ref_by_span[&n.span]),
            EK::Int(t) => V::Int(t.parse().unwrap()),
            EK::Bool(b) => V::Bool(*b),
            EK::Str(s) => V::Str(s.as_bytes().into()),
            EK::Hole(h) => return Err(Stop::Trap(h.clone())),
            EK::Paren(i) => self.eval(u, i, env)?,
            EK::App(f, a) => {
                let f = self.eval(u, f, env)?;
                let a = self.eval(u, a, env)?;
                self.apply(f, a)?
            }
            EK::Bin("|>", a, f) => {
                let a = self.eval(u, a, env)?;
                let f = self.eval(u, f, env)?;
                self.apply(f, a)?
            }
            EK::Bin(op, a, b) => {
                let (V::Int(a), V::Int(b)) = (self.eval(u, a, env)?, self.eval(u, b, env)?) else { panic!("operands") };
                match *op {
                    "+" => V::Int(a.wrapping_add(b)),
                    "-" => V::Int(a.wrapping_sub(b)),
                    "*" => V::Int(a.wrapping_mul(b)),
                    "/" => V::Int(if b == 0 { 0 } else { a / b }),
                    "%" => V::Int(if b == 0 { a } else { a % b }),
                    "<" => V::Bool(a < b),
                    "<=" => V::Bool(a <= b),
                    ">" => V::Bool(a > b),
                    ">=" => V::Bool(a >= b),
                    "==" => V::Bool(a == b),
                    "!=" => V::Bool(a != b),
                    _ => unreachable!(),
                }
            }
            EK::If(c, a, b) => {
                let V::Bool(c) = self.eval(u, c, env)? else { panic!("condition") };
                self.eval(u, if c { a } else { b }, env)?
            }
            EK::Let(n, _, v, b) => {
                let v = self.eval(u, v, env)?;
                let env = Some(Rc::new(EnvNode { sym: u.def_by_span[&n.span], v, next: env.clone() }));
                self.eval(u, b, &env)?
            }
            EK::Lam(fold, n, b) => {
                let mut rec = *fold;
                if rec {
                    // Only data of a known type is folded; anything else is passed through.
                    rec = match &u.types[e.id] {
                        Some(T::Fn(a, _)) => match &**a {
                            T::Named(s, _) => matches!(self.w.borrow().syms[*s].kind, DK::Type { is_var: false, .. }),
                            _ => false,
                        },
                        _ => false,
                    };
                }
                V::Fun(Rc::new(F::Lam { unit: u.clone(), body: &**b as *const Exp, param: u.def_by_span[&n.span], fold: rec, env: env.clone() }))
            }
            EK::Match(d, cases) => {
                let V::Data(c, fs) = self.eval(u, d, env)? else { panic!("match on non-data") };
                for case in cases {
                    if u.ref_by_span[&case.ctor.span] == c {
                        let mut env = env.clone();
                        for (n, v) in case.vars.iter().zip(fs.iter()) {
                            env = Some(Rc::new(EnvNode { sym: u.def_by_span[&n.span], v: v.clone(), next: env }));
                        }
                        return self.eval(u, &case.body, &env);
                    }
                }
                panic!("no case matched")
            }
        })
    }

    pub fn apply(&mut self, f: V, a: V) -> R {
        let V::Fun(f) = f else { panic!("applying a non-function") };
        match &*f {
            F::Lam { unit, body, param, fold, env } => {
                let a = if *fold {
                    self.folds += 1;
                    let V::Data(c, fs) = a else { panic!("folding non-data") };
                    let fields = match &self.w.borrow().syms[c].kind {
                        DK::Ctor { fields, .. } => fields.iter().map(|f| matches!(f, Field::Rec)).collect::<Vec<_>>(),
                        _ => unreachable!(),
                    };
                    let mut out = Vec::new();
                    for (x, rec) in fs.iter().zip(fields) {
                        out.push(if rec {
                            if self.depth > 200_000 {
                                return Err(Stop::Fuel);
                            }
                            self.depth += 1;
                            let r = self.apply(V::Fun(f.clone()), x.clone());
                            self.depth -= 1;
                            r?
                        } else {
                            x.clone()
                        });
                    }
                    V::Data(c, Rc::new(out))
                } else {
                    a
                };
                let env = Some(Rc::new(EnvNode { sym: *param, v: a, next: env.clone() }));
                // The body lives in the unit the closure keeps alive.
                self.eval(unit, unsafe { &**body }, &env)
            }
            F::Prim(p, n, got) => {
                let mut got = got.clone();
                got.push(a);
                if got.len() < *n {
                    return Ok(V::Fun(Rc::new(F::Prim(*p, *n, got))));
                }
                self.prim(*p, got)
            }
        }
    }

    fn prim(&mut self, p: Prim, a: Vec<V>) -> R {
        fn int(v: &V) -> u64 {
            match v {
                V::Int(i) => *i,
                _ => panic!("int expected"),
            }
        }
        fn string(v: &V) -> Rc<[u8]> {
            match v {
                V::Str(s) => s.clone(),
                _ => panic!("string expected"),
            }
        }
        Ok(match p {
            Prim::Ctor(c) => V::Data(c, Rc::new(a)),
            Prim::Iterate => {
                let mut v = a[2].clone();
                for _ in 0..int(&a[0]) {
                    if self.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    self.fuel -= 1;
                    v = self.apply(a[1].clone(), v)?;
                }
                v
            }
            Prim::Len => V::Int(string(&a[0]).len() as u64),
            Prim::Concat => {
                let mut s = string(&a[0]).to_vec();
                s.extend_from_slice(&string(&a[1]));
                V::Str(s.into())
            }
            Prim::CharAt => {
                let (i, s) = (int(&a[0]), string(&a[1]));
                V::Int(if i < s.len() as u64 { s[i as usize] as u64 } else { 0 })
            }
            Prim::Substring => {
                let (st, len, s) = (int(&a[0]), int(&a[1]), string(&a[2]));
                let n = s.len() as u64;
                let st = st.min(n);
                let end = st + len.min(n - st);
                V::Str(s[st as usize..end as usize].into())
            }
            Prim::FromChar => V::Str(vec![(int(&a[0]) & 255) as u8].into()),
            Prim::ToString => V::Str(int(&a[0]).to_string().into_bytes().into()),
        })
    }
}

/// Keeps a shared reference to the current world alive for tests.
pub type Shared<X> = Rc<RefCell<X>>;
