//! Reader and evaluator for the printed intermediate code, written from the
//! shape of the text alone.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Num(u64),
    Str(Vec<u8>),
    Intr(String),
    Sym(&'static str),
}

const SYMS: [&str; 27] = ["\\(", "->", "<=", ">=", "==", "!=", "#trap", "(", ")", "[", "]", ",", ":", ";", "=", "+", "-", "*", "/", "%", "<", ">", "|", "@", ".", "\\", "#"];

/// A quoted string; `rust` reads the quoting of names and messages.
fn quoted(b: &[u8], mut i: usize, rust: bool) -> Result<(Vec<u8>, usize), String> {
    let mut out = Vec::new();
    loop {
        match b.get(i) {
            None => return Err("string without end".into()),
            Some(b'"') => return Ok((out, i + 1)),
            Some(b'\\') => {
                match b.get(i + 1) {
                    Some(b'n') => out.push(b'\n'),
                    Some(b'r') => out.push(b'\r'),
                    Some(b'x') if !rust => {
                        let h = std::str::from_utf8(b.get(i + 2..i + 4).ok_or("short escape")?).map_err(|_| "bad escape")?;
                        out.push(u8::from_str_radix(h, 16).map_err(|_| "bad escape")?);
                        i += 2;
                    }
                    Some(c @ (b'"' | b'\\' | b'\'')) if rust => out.push(*c),
                    _ => return Err("unknown escape".into()),
                }
                i += 2;
            }
            Some(c @ (b'\n' | b'\r')) => return Err(format!("raw {c:?} inside a string")),
            Some(c) => {
                out.push(*c);
                i += 1;
            }
        }
    }
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out: Vec<Tok> = Vec::new();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$';
    'next: while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' {
            i += 1;
        } else if c.is_ascii_digit() {
            let s0 = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && word(b[i]) {
                return Err(format!("number runs into a name: {}", &s[s0..i + 1]));
            }
            out.push(Tok::Num(s[s0..i].parse().map_err(|_| "number too large")?));
        } else if word(c) {
            let s0 = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            out.push(Tok::Word(s[s0..i].to_owned()));
        } else if c == b'%' && b.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic()) {
            let s0 = i + 1;
            i += 1;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            out.push(Tok::Intr(s[s0..i].to_owned()));
        } else if c == b'"' {
            let rust = out.last() == Some(&Tok::Sym("("))
                && (out.get(out.len().wrapping_sub(2)) == Some(&Tok::Sym("#trap")) || out.get(out.len().wrapping_sub(2)) == Some(&Tok::Word("export".into())));
            let (v, e) = quoted(b, i + 1, rust)?;
            out.push(Tok::Str(v));
            i = e;
        } else {
            for y in SYMS {
                if s[i..].starts_with(y) {
                    out.push(Tok::Sym(y));
                    i += y.len();
                    continue 'next;
                }
            }
            return Err(format!("unexpected {:?}", s[i..].chars().next()));
        }
    }
    Ok(out)
}

type Id = usize;

pub enum E {
    Lit(V),
    Name(Id),
    Call(Box<E>, Vec<E>),
    Intr(String, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    Op(Box<E>, &'static str, Box<E>),
    Lam(Rc<(Vec<Id>, E)>),
    Match(Box<E>, Vec<(Id, Vec<Id>, E)>),
    Cons(Id, Vec<E>),
    Let(Id, Box<E>, Box<E>),
    Rec(Id, Box<E>, Box<E>),
    Trap(String),
}

#[derive(Clone)]
pub enum V {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Data(Id, Rc<Vec<V>>),
    Fun(Rc<(Vec<Id>, E)>, Env),
}

pub struct Node {
    id: Id,
    v: RefCell<Option<V>>,
    next: Env,
}
type Env = Option<Rc<Node>>;

pub struct Def {
    pub export: Option<String>,
    id: Id,
    value: E,
}

pub struct Ir {
    pub defs: Vec<Def>,
    names: Vec<String>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
    ids: HashMap<String, Id>,
    names: Vec<String>,
    /// Names in scope.
    scope: Vec<Id>,
    bound: HashSet<Id>,
    /// Numbers of the names, which have to be unique.
    numbers: HashMap<u64, Id>,
    tyvars: Vec<String>,
    /// Number of fields of a constructor, seen in a match or a use.
    arity: HashMap<Id, usize>,
}

type R<T> = Result<T, String>;

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn sym(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Sym(x)) if *x == s)
    }
    fn kw(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == s)
    }
    fn fail<T>(&self, what: &str) -> R<T> {
        Err(format!("expected {what} but the text has {:?}", self.t.get(self.i..(self.i + 6).min(self.t.len())).unwrap_or(&[])))
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.sym(s) || self.kw(s);
        if y {
            self.i += 1;
        }
        y
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { self.fail(s) }
    }
    fn word(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Word(w)) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            _ => self.fail("a name"),
        }
    }
    fn name(&mut self) -> R<Id> {
        let w = self.word()?;
        let Some((_, n)) = w.rsplit_once('_') else { return Err(format!("{w} is not a name with a number")) };
        let n: u64 = n.parse().map_err(|_| format!("{w} is not a name with a number"))?;
        let next = self.names.len();
        let id = *self.ids.entry(w.clone()).or_insert(next);
        if id == next {
            self.names.push(w.clone());
        }
        if *self.numbers.entry(n).or_insert(id) != id {
            return Err(format!("{w} and {} share a number", self.names[self.numbers[&n]]));
        }
        Ok(id)
    }
    fn bind(&mut self, id: Id) -> R<()> {
        if !self.bound.insert(id) {
            return Err(format!("{} is bound twice", self.names[id]));
        }
        self.scope.push(id);
        Ok(())
    }
    fn paren_list<T>(&mut self, close: &str, f: &mut dyn FnMut(&mut P) -> R<T>) -> R<Vec<T>> {
        let mut v = Vec::new();
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(f(self)?);
            if self.eat(close) {
                return Ok(v);
            }
            self.want(",")?;
        }
    }
    fn tyvar(&mut self) -> R<String> {
        let w = self.word()?;
        if w.len() > 1 && w.starts_with('t') && w[1..].bytes().all(|c| c.is_ascii_digit()) { Ok(w) } else { Err(format!("{w} is not a type variable")) }
    }
    fn ty_atom(&mut self) -> R<bool> {
        match self.peek() {
            Some(Tok::Word(w)) if w != "for" => {
                let w = w.clone();
                if ["bool", "int", "string"].contains(&&w[..]) {
                    self.i += 1;
                } else if w.contains('_') {
                    self.name()?;
                } else {
                    let v = self.tyvar()?;
                    if !self.tyvars.contains(&v) {
                        return Err(format!("type variable {v} is not bound"));
                    }
                }
                Ok(true)
            }
            Some(Tok::Sym("(")) => {
                self.i += 1;
                self.ty()?;
                self.want(")")?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    fn ty(&mut self) -> R<()> {
        if self.eat("for") {
            let v = self.tyvar()?;
            self.want(".")?;
            self.tyvars.push(v);
            self.ty()?;
            self.tyvars.pop();
            return Ok(());
        }
        if self.sym("(") {
            // parameters of a function, or a type in parentheses
            self.i += 1;
            let n = self.paren_list(")", &mut |p| p.ty())?.len();
            if self.eat("->") {
                return self.ty();
            }
            return if n == 1 { Ok(()) } else { self.fail("`->`") };
        }
        let named = matches!(self.peek(), Some(Tok::Word(w)) if w.contains('_'));
        if !self.ty_atom()? {
            return self.fail("a type");
        }
        if named {
            while self.ty_atom()? {}
        }
        Ok(())
    }
    fn expr(&mut self) -> R<E> {
        let depth = self.scope.len();
        let e = self.expr_in_scope()?;
        self.scope.truncate(depth);
        Ok(e)
    }
    fn expr_in_scope(&mut self) -> R<E> {
        if self.eat("if") {
            let a = self.expr()?;
            self.want("then")?;
            let b = self.expr()?;
            self.want("else")?;
            let c = self.expr()?;
            return Ok(E::If(a.into(), b.into(), c.into()));
        }
        if self.eat("let") {
            if self.eat("rec") {
                let n = self.name()?;
                self.bind(n)?;
                self.want(":")?;
                self.ty()?;
                self.want("=")?;
                let v = self.expr()?;
                self.want(";")?;
                let e = self.expr()?;
                return Ok(E::Rec(n, v.into(), e.into()));
            }
            let n = self.name()?;
            self.want("=")?;
            let v = self.expr()?;
            self.want(";")?;
            self.bind(n)?;
            let e = self.expr()?;
            return Ok(E::Let(n, v.into(), e.into()));
        }
        if self.eat("\\(") {
            let ps = self.paren_list(")", &mut |p| {
                let n = p.name()?;
                p.want(":")?;
                p.ty()?;
                Ok(n)
            })?;
            for p in &ps {
                self.bind(*p)?;
            }
            self.want("->")?;
            let e = self.expr()?;
            return Ok(E::Lam(Rc::new((ps, e))));
        }
        if self.eat("Pi") {
            let v = self.tyvar()?;
            self.want("->")?;
            self.tyvars.push(v);
            let e = self.expr();
            self.tyvars.pop();
            return e;
        }
        self.binary(0)
    }
    fn binary(&mut self, level: usize) -> R<E> {
        const LEVELS: [&[&str]; 3] = [&["<=", ">=", "==", "!=", "<", ">"], &["+", "-"], &["*", "/", "%"]];
        if level == 3 {
            return self.postfix();
        }
        let mut a = self.binary(level + 1)?;
        'more: loop {
            for o in LEVELS[level] {
                if self.eat(o) {
                    let b = self.binary(level + 1)?;
                    a = E::Op(a.into(), o, b.into());
                    continue 'more;
                }
            }
            return Ok(a);
        }
    }
    fn args(&mut self) -> R<Vec<E>> {
        self.paren_list(")", &mut |p| p.expr())
    }
    fn postfix(&mut self) -> R<E> {
        let mut e = self.atom()?;
        loop {
            if self.eat("(") {
                let a = self.args()?;
                e = E::Call(e.into(), a);
            } else if self.eat("[") {
                self.ty()?;
                self.want("]")?;
            } else {
                return Ok(e);
            }
        }
    }
    fn ctor(&mut self, fields: usize, id: Id) -> R<()> {
        let n = *self.arity.entry(id).or_insert(fields);
        if n == fields { Ok(()) } else { Err(format!("{} is used with {n} and with {fields} fields", self.names[id])) }
    }
    fn atom(&mut self) -> R<E> {
        match self.peek().cloned() {
            Some(Tok::Num(n)) => {
                self.i += 1;
                Ok(E::Lit(V::Int(n)))
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(E::Lit(V::Str(s.into())))
            }
            Some(Tok::Intr(s)) => {
                self.i += 1;
                self.want("(")?;
                Ok(E::Intr(s, self.args()?))
            }
            Some(Tok::Sym("(")) => {
                self.i += 1;
                let e = self.expr()?;
                self.want(")")?;
                Ok(e)
            }
            Some(Tok::Sym("@")) => {
                self.i += 1;
                let c = self.name()?;
                if self.eat("[") {
                    self.paren_list("]", &mut |p| p.ty())?;
                }
                self.want("(")?;
                let a = self.args()?;
                self.ctor(a.len(), c)?;
                Ok(E::Cons(c, a))
            }
            Some(Tok::Sym("#trap")) => {
                self.i += 1;
                self.want("(")?;
                let Some(Tok::Str(s)) = self.peek().cloned() else { return self.fail("a message") };
                self.i += 1;
                self.want(",")?;
                self.ty()?;
                self.want(")")?;
                Ok(E::Trap(String::from_utf8_lossy(&s).into_owned()))
            }
            Some(Tok::Word(w)) => match &w[..] {
                "true" | "false" => {
                    self.i += 1;
                    Ok(E::Lit(V::Bool(w == "true")))
                }
                "match" => {
                    self.i += 1;
                    let d = self.expr()?;
                    self.want("with")?;
                    let mut cs = Vec::new();
                    while self.eat("|") {
                        self.want("@")?;
                        let c = self.name()?;
                        let depth = self.scope.len();
                        let mut bs = Vec::new();
                        while !self.sym("->") {
                            let n = self.name()?;
                            self.bind(n)?;
                            bs.push(n);
                        }
                        self.want("->")?;
                        let e = self.expr()?;
                        self.scope.truncate(depth);
                        self.ctor(bs.len(), c)?;
                        cs.push((c, bs, e));
                    }
                    self.want("end")?;
                    Ok(E::Match(d.into(), cs))
                }
                "then" | "else" | "with" | "end" | "rec" | "let" | "if" | "for" | "Pi" | "export" => self.fail("an expression"),
                _ => {
                    let n = self.name()?;
                    if !self.scope.contains(&n) {
                        return Err(format!("{w} is not bound where it is used"));
                    }
                    Ok(E::Name(n))
                }
            },
            _ => self.fail("an expression"),
        }
    }
    fn def(&mut self) -> R<Def> {
        let mut export = None;
        if self.eat("export") {
            self.want("(")?;
            let Some(Tok::Str(s)) = self.peek().cloned() else { return self.fail("a name in quotes") };
            self.i += 1;
            self.want(")")?;
            export = Some(String::from_utf8_lossy(&s).into_owned());
        }
        self.want("let")?;
        let id = self.name()?;
        self.want(":")?;
        self.ty()?;
        self.want("=")?;
        let value = self.expr()?;
        self.want(";")?;
        self.bind(id)?;
        Ok(Def { export, id, value })
    }
}

pub fn read(text: &str) -> Result<Ir, String> {
    let t = lex(text)?;
    let mut p = P { t, i: 0, ids: HashMap::new(), names: Vec::new(), scope: Vec::new(), bound: HashSet::new(), numbers: HashMap::new(), tyvars: Vec::new(), arity: HashMap::new() };
    let mut defs = Vec::new();
    while p.i < p.t.len() {
        defs.push(p.def()?);
    }
    Ok(Ir { defs, names: p.names })
}

#[derive(Debug)]
pub enum Stop {
    Trap(String),
    Fuel,
    Wrong(String),
}

struct Ev<'a> {
    fuel: u64,
    names: &'a [String],
}

fn wrong<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Wrong(s.into()))
}

impl Ev<'_> {
    fn bind(&self, id: Id, v: V, env: &Env) -> Env {
        Some(Rc::new(Node { id, v: RefCell::new(Some(v)), next: env.clone() }))
    }
    fn all(&mut self, es: &[E], env: &Env) -> Result<Vec<V>, Stop> {
        es.iter().map(|e| self.eval(e, env.clone())).collect()
    }
    fn eval(&mut self, e: &E, env: Env) -> Result<V, Stop> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        match e {
            E::Lit(v) => Ok(v.clone()),
            E::Name(n) => {
                let mut x = &env;
                while let Some(node) = x {
                    if node.id == *n {
                        return match &*node.v.borrow() {
                            Some(v) => Ok(v.clone()),
                            None => wrong(format!("{} is used before it has a value", self.names[*n])),
                        };
                    }
                    x = &node.next;
                }
                wrong(format!("{} has no value", self.names[*n]))
            }
            E::Call(f, args) => {
                let f = self.eval(f, env.clone())?;
                let args = self.all(args, &env)?;
                let V::Fun(b, mut fenv) = f else { return wrong("called something that is not a function") };
                if b.0.len() != args.len() {
                    return wrong(format!("a function of {} parameters is called with {}", b.0.len(), args.len()));
                }
                for (p, a) in b.0.iter().zip(args) {
                    fenv = self.bind(*p, a, &fenv);
                }
                self.eval(&b.1, fenv)
            }
            E::Intr(n, args) => {
                let args = self.all(args, &env)?;
                Ok(match (&n[..], &args[..]) {
                    ("stringLen", [V::Str(s)]) => V::Int(s.len() as u64),
                    ("stringConcat", [V::Str(a), V::Str(b)]) => V::Str([&a[..], &b[..]].concat().into()),
                    ("stringCharAt", [V::Int(i), V::Str(s)]) => V::Int(if *i < s.len() as u64 { s[*i as usize] as u64 } else { 0 }),
                    ("stringSubstring", [V::Int(a), V::Int(l), V::Str(s)]) => {
                        let n = s.len() as u128;
                        let a0 = (*a as u128).min(n);
                        let e0 = (a0 + *l as u128).min(n);
                        V::Str(s[a0 as usize..e0 as usize].into())
                    }
                    ("stringFromChar", [V::Int(i)]) => V::Str([*i as u8][..].into()),
                    ("intToString", [V::Int(i)]) => V::Str(i.to_string().into_bytes().into()),
                    _ => return wrong(format!("%{n} with {} arguments of the wrong kind", args.len())),
                })
            }
            E::If(a, b, c) => match self.eval(a, env.clone())? {
                V::Bool(true) => self.eval(b, env),
                V::Bool(false) => self.eval(c, env),
                _ => wrong("condition is not true or false"),
            },
            E::Op(a, o, b) => {
                let (V::Int(a), V::Int(b)) = (self.eval(a, env.clone())?, self.eval(b, env)?) else { return wrong(format!("`{o}` on something that is not a number")) };
                Ok(match *o {
                    "+" => V::Int(a.wrapping_add(b)),
                    "-" => V::Int(a.wrapping_sub(b)),
                    "*" => V::Int(a.wrapping_mul(b)),
                    "/" => V::Int(if b == 0 { 0 } else { a / b }),
                    "%" => V::Int(if b == 0 { a } else { a % b }),
                    "<" => V::Bool(a < b),
                    "<=" => V::Bool(a <= b),
                    ">" => V::Bool(a > b),
                    ">=" => V::Bool(a >= b),
                    "==" => V::Bool(a == b),
                    _ => V::Bool(a != b),
                })
            }
            E::Lam(b) => Ok(V::Fun(b.clone(), env)),
            E::Match(d, cs) => {
                let V::Data(c, fs) = self.eval(d, env.clone())? else { return wrong("matched something that is not data") };
                let mut hit = cs.iter().filter(|x| x.0 == c);
                let (Some((_, bs, e)), None) = (hit.next(), hit.next()) else { return wrong(format!("{} does not have exactly one case", self.names[c])) };
                let mut env = env;
                for (n, v) in bs.iter().zip(fs.iter()) {
                    env = self.bind(*n, v.clone(), &env);
                }
                self.eval(e, env)
            }
            E::Cons(c, args) => Ok(V::Data(*c, Rc::new(self.all(args, &env)?))),
            E::Let(n, v, e) => {
                let v = self.eval(v, env.clone())?;
                let env = self.bind(*n, v, &env);
                self.eval(e, env)
            }
            E::Rec(n, v, e) => {
                let node = Rc::new(Node { id: *n, v: RefCell::new(None), next: env });
                let v = self.eval(v, Some(node.clone()))?;
                *node.v.borrow_mut() = Some(v);
                self.eval(e, Some(node))
            }
            E::Trap(m) => Err(Stop::Trap(m.clone())),
        }
    }
    fn show(&self, v: &V, atom: bool, out: &mut String) {
        match v {
            V::Int(i) => out.push_str(&i.to_string()),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Str(s) => {
                out.push('"');
                for &c in s.iter() {
                    match c {
                        b'\n' => out.push_str("\\n"),
                        b'\r' => out.push_str("\\r"),
                        32..=126 => out.push(c as char),
                        _ => out.push_str(&format!("\\x{c:02x}")),
                    }
                }
                out.push('"');
            }
            V::Data(c, fs) => {
                let paren = atom && !fs.is_empty();
                if paren {
                    out.push('(');
                }
                out.push_str(self.names[*c].rsplit_once('_').map_or("?", |x| x.0));
                for f in fs.iter() {
                    out.push(' ');
                    self.show(f, true, out);
                }
                if paren {
                    out.push(')');
                }
            }
            V::Fun(..) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
        }
    }
}

/// What running the code prints.
pub fn run(ir: &Ir, fuel: u64) -> Result<String, Stop> {
    let mut ev = Ev { fuel, names: &ir.names };
    let mut env: Env = None;
    let mut out = String::new();
    for d in &ir.defs {
        let v = ev.eval(&d.value, env.clone())?;
        if let Some(n) = &d.export {
            out.push_str(n);
            out.push_str(" = ");
            ev.show(&v, false, &mut out);
            out.push('\n');
        }
        env = ev.bind(d.id, v, &env);
    }
    Ok(out)
}
