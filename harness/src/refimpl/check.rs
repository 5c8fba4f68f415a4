//! Reference resolver, type checker, match checker and unused-name lint.
use super::parse::{parse, Ast, Case, Exp, FieldSyn, Item, Name, Span, Ty, EK, TK};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Sym = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Int,
    Bool,
    Str,
    Named(Sym, Vec<T>),
    Fn(Rc<T>, Rc<T>),
    Folded(Rc<T>, Rc<T>),
    Meta(usize),
    Err,
}

#[derive(Clone, Debug)]
pub enum Field {
    Rec,
    T(T),
}

#[derive(Clone)]
pub enum DK {
    Value { vars: Vec<Sym>, ty: Option<T> },
    Ctor { ty_sym: Sym, params: Vec<Sym>, fields: Vec<Field> },
    Type { params: usize, is_var: bool, ctors: Vec<Sym> },
    Module(Rc<Unit>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vis {
    Local,
    Module,
    Export,
}

/// A binding occurrence.
#[derive(Clone, Debug)]
pub struct Def {
    pub sym: Sym,
    pub span: Span,
    pub name: String,
    pub vis: Vis,
    pub item: usize,
    /// Introduced by the exposed list of an import, so owned by another module.
    pub foreign: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum NS {
    Value,
    Type,
    Pattern,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Cls {
    UndefVar,
    UndefType,
    UndefModule,
    UndefCtor,
    NoExport,
    WrongNs,
    ModMissing,
    ModCycle,
    DupCtor,
    Number,
    Kind,
    Type,
    Fields,
    Escape,
    MatchOn,
    Unreachable,
    NotCovered,
}

#[derive(Clone, Debug)]
pub struct Error {
    pub span: Span,
    pub cls: Cls,
    /// Constructors no case covers, and those some case does.
    pub missing: Vec<String>,
    pub covered: Vec<String>,
}

pub struct Unit {
    pub src: String,
    pub ast: Ast,
    pub defs: Vec<Def>,
    pub refs: Vec<(Span, Sym)>,
    pub errors: Vec<Error>,
    /// Spans of bindings the unused lint reports.
    pub unused: BTreeSet<Span>,
    pub unused_either: BTreeSet<Span>,
    /// Type of every checked expression, by expression id.
    pub types: Vec<Option<T>>,
    pub ref_by_span: HashMap<Span, Sym>,
    pub def_by_span: HashMap<Span, Sym>,
    pub exports: BTreeMap<(NS, String), Sym>,
    /// For every name use: what may be written there.
    pub offers: Vec<(Span, BTreeSet<String>)>,
    /// Imported unit of each import item.
    pub imports: HashMap<usize, Rc<Unit>>,
    pub id: usize,
}

impl Unit {
    pub fn ok(&self) -> bool {
        self.errors.is_empty()
    }
}

pub struct SymInfo {
    pub name: String,
    pub kind: DK,
}

#[derive(Default)]
pub struct World {
    pub syms: Vec<SymInfo>,
    pub std: HashMap<String, Rc<Unit>>,
    pub units: usize,
}

impl World {
    pub fn mark(&self) -> (usize, usize) {
        (self.syms.len(), self.units)
    }
    /// Forgets everything made since the mark.
    pub fn reset(&mut self, m: (usize, usize)) {
        self.syms.truncate(m.0);
        self.units = m.1;
    }
}

#[derive(Clone, Copy)]
pub enum ImportErr {
    Missing,
    Cycle,
}

pub type W = Rc<RefCell<World>>;

pub fn world() -> W {
    Rc::new(RefCell::new(World::default()))
}

/// A world whose standard library is loaded from the given directory.
pub fn world_with_std(dir: &str) -> W {
    let w = world();
    for m in ["intrinsics", "option", "result", "list", "string", "int", "array"] {
        let src = std::fs::read_to_string(format!("{dir}/{m}.tic")).expect("std source");
        let u = compile(&w, &src, &|_| Err(ImportErr::Missing)).unwrap_or_else(|| panic!("std/{m} does not parse"));
        assert!(u.ok(), "std/{m}: {:?}", u.errors);
        w.borrow_mut().std.insert(format!("std/{m}"), Rc::new(u));
    }
    w
}

struct Scope<'a> {
    values: HashMap<String, Sym>,
    types: HashMap<String, Sym>,
    ctors: HashMap<String, Sym>,
    modules: HashMap<String, Sym>,
    parent: Option<&'a Scope<'a>>,
}

impl<'a> Scope<'a> {
    fn new(parent: Option<&'a Scope<'a>>) -> Scope<'a> {
        Scope { values: HashMap::new(), types: HashMap::new(), ctors: HashMap::new(), modules: HashMap::new(), parent }
    }
    fn get(&self, f: &dyn Fn(&Scope) -> Option<Sym>) -> Option<Sym> {
        f(self).or_else(|| self.parent.and_then(|p| p.get(f)))
    }
    fn all(&self, f: &dyn Fn(&Scope) -> Vec<String>) -> BTreeSet<String> {
        let mut s: BTreeSet<String> = f(self).into_iter().collect();
        if let Some(p) = self.parent {
            s.extend(p.all(f));
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Use {
    Value,
    Type,
    Ctor,
    Module,
}

struct C<'w> {
    w: &'w W,
    defs: Vec<Def>,
    refs: Vec<(Span, Sym)>,
    errors: Vec<Error>,
    offers: Vec<(Span, BTreeSet<String>)>,
    cur_item: usize,
    ref_by_span: HashMap<Span, Sym>,
    def_by_span: HashMap<Span, Sym>,
    types: Vec<Option<T>>,
    subst: Vec<Option<T>>,
    trail: Vec<usize>,
    metas: HashMap<Sym, T>,
}

pub fn compile(w: &W, src: &str, lookup: &dyn Fn(&str) -> Result<Rc<Unit>, ImportErr>) -> Option<Unit> {
    let ast = parse(src)?;
    let mut c = C {
        w,
        defs: vec![],
        refs: vec![],
        errors: vec![],
        offers: vec![],
        cur_item: 0,
        ref_by_span: HashMap::new(),
        def_by_span: HashMap::new(),
        types: vec![None; ast.exprs],
        subst: vec![],
        trail: vec![],
        metas: HashMap::new(),
    };
    let mut top = Scope::new(None);
    let mut imports = HashMap::new();
    let mut exports = BTreeMap::new();
    for (idx, item) in ast.items.iter().enumerate() {
        c.cur_item = idx;
        let first_def = c.defs.len();
        match item {
            Item::Import { name, exposed, path, path_span, .. } => {
                let std = w.borrow().std.get(path.as_str()).cloned();
                let r = match std {
                    Some(u) => Ok(u),
                    None => lookup(path),
                };
                match r {
                    Err(e) => c.err(*path_span, if matches!(e, ImportErr::Missing) { Cls::ModMissing } else { Cls::ModCycle }),
                    Ok(u) => {
                        imports.insert(idx, u.clone());
                        if let Some(n) = name {
                            let s = c.sym(&n.text, DK::Module(u.clone()));
                            c.def(s, n, Vis::Module, false);
                        }
                        for n in exposed {
                            let mut found = false;
                            let mut seen = Vec::new();
                            for ns in [NS::Value, NS::Type, NS::Pattern] {
                                if let Some(&s) = u.exports.get(&(ns, n.text.clone())) {
                                    found = true;
                                    if !seen.contains(&s) {
                                        seen.push(s);
                                        c.def(s, n, Vis::Module, true);
                                    }
                                }
                            }
                            if !found {
                                c.err(n.span, Cls::NoExport);
                            }
                        }
                    }
                }
            }
            Item::Type { export, export_ctors, name, params, ctors, .. } => c.type_item(&top, *export, *export_ctors, name, params, ctors),
            Item::Let { export, name, ty, e, .. } => c.let_item(&top, *export, name, ty, e),
        }
        let new: Vec<Def> = c.defs[first_def..].to_vec();
        for d in new {
            if d.vis == Vis::Local {
                continue;
            }
            let kind = w.borrow().syms[d.sym].kind.clone();
            let ex = d.vis == Vis::Export;
            match kind {
                DK::Value { .. } => {
                    if ex {
                        exports.insert((NS::Value, d.name.clone()), d.sym);
                    }
                    top.values.insert(d.name, d.sym);
                }
                DK::Ctor { .. } => {
                    if ex {
                        exports.insert((NS::Value, d.name.clone()), d.sym);
                        exports.insert((NS::Pattern, d.name.clone()), d.sym);
                    }
                    top.values.insert(d.name.clone(), d.sym);
                    top.ctors.insert(d.name, d.sym);
                }
                DK::Type { .. } => {
                    if ex {
                        exports.insert((NS::Type, d.name.clone()), d.sym);
                    }
                    top.types.insert(d.name, d.sym);
                }
                DK::Module(_) => {
                    top.modules.insert(d.name, d.sym);
                }
            }
        }
    }
    let (unused, unused_either) = c.unused();
    let id = {
        let mut w = w.borrow_mut();
        w.units += 1;
        w.units
    };
    Some(Unit {
        src: src.to_owned(),
        defs: c.defs,
        refs: c.refs,
        errors: c.errors,
        unused,
        unused_either,
        types: c.types,
        ref_by_span: c.ref_by_span,
        def_by_span: c.def_by_span,
        exports,
        offers: c.offers,
        imports,
        ast,
        id,
    })
}

impl<'w> C<'w> {
    fn sym(&mut self, name: &str, kind: DK) -> Sym {
        let mut w = self.w.borrow_mut();
        w.syms.push(SymInfo { name: name.to_owned(), kind });
        w.syms.len() - 1
    }
    fn def(&mut self, sym: Sym, n: &Name, vis: Vis, foreign: bool) {
        self.defs.push(Def { sym, span: n.span, name: n.text.clone(), vis, item: self.cur_item, foreign });
        self.def_by_span.entry(n.span).or_insert(sym);
    }
    fn err(&mut self, span: Span, cls: Cls) {
        self.errors.push(Error { span, cls, missing: vec![], covered: vec![] });
    }
    fn reference(&mut self, n: &Name, s: Sym) {
        self.refs.push((n.span, s));
        self.ref_by_span.insert(n.span, s);
    }
    fn kind(&self, s: Sym) -> DK {
        self.w.borrow().syms[s].kind.clone()
    }

    // ---- names -------------------------------------------------------

    fn offer(&mut self, n: &Name, u: Use, sc: &Scope) {
        let mut set = sc.all(&|s| s.modules.keys().cloned().collect());
        set.extend(sc.all(&|s| {
            match u {
                Use::Value => &s.values,
                Use::Type => &s.types,
                Use::Ctor => &s.ctors,
                Use::Module => &s.modules,
            }
            .keys()
            .cloned()
            .collect()
        }));
        self.offers.push((n.span, set));
    }

    fn namespaced(&mut self, ns: &Name, n: &Name, space: NS, sc: &Scope) -> Option<Sym> {
        self.offer(ns, Use::Module, sc);
        match sc.get(&|s| s.modules.get(&ns.text).copied()) {
            None => {
                self.offers.push((n.span, BTreeSet::new()));
                self.err(ns.span, Cls::UndefModule);
                None
            }
            Some(m) => {
                let DK::Module(u) = self.kind(m) else { unreachable!() };
                self.offers.push((n.span, u.exports.keys().filter(|k| k.0 == space).map(|k| k.1.clone()).collect()));
                match u.exports.get(&(space, n.text.clone())) {
                    Some(&s) => {
                        self.reference(n, s);
                        Some(s)
                    }
                    None => {
                        if u.exports.keys().any(|k| k.1 == n.text) {
                            self.err(n.span, Cls::WrongNs);
                        } else {
                            self.err(ns.span, Cls::NoExport);
                        }
                        None
                    }
                }
            }
        }
    }

    /// Resolves a type; with `vars`, unknown lowercase names without arguments become type variables.
    fn ty(&mut self, t: &Ty, sc: &mut Scope, vars: &mut Option<Vec<Sym>>) -> T {
        match &t.k {
            TK::Int => T::Int,
            TK::Bool => T::Bool,
            TK::Str => T::Str,
            TK::Paren(t) => self.ty(t, sc, vars),
            TK::Fn(a, b) => {
                let a = self.ty(a, sc, vars);
                let b = self.ty(b, sc, vars);
                T::Fn(Rc::new(a), Rc::new(b))
            }
            TK::Named(ns, n, args) => {
                let s = match ns {
                    Some(ns) => self.namespaced(ns, n, NS::Type, sc),
                    None => {
                        self.offer(n, Use::Type, sc);
                        match sc.get(&|s| s.types.get(&n.text).copied()) {
                            Some(s) => {
                                self.reference(n, s);
                                Some(s)
                            }
                            None => {
                                let lower = n.text.starts_with(|c: char| c.is_ascii_lowercase());
                                match vars {
                                    Some(v) if lower && args.is_empty() => {
                                        let s = self.sym(&n.text, DK::Type { params: 0, is_var: true, ctors: vec![] });
                                        self.def(s, n, Vis::Local, false);
                                        v_push(v, s);
                                        sc.types.insert(n.text.clone(), s);
                                        Some(s)
                                    }
                                    _ => {
                                        self.err(n.span, Cls::UndefType);
                                        None
                                    }
                                }
                            }
                        }
                    }
                };
                let args: Vec<T> = args.iter().map(|a| self.ty(a, sc, vars)).collect();
                match s {
                    None => T::Err,
                    Some(s) => {
                        let DK::Type { params, .. } = self.kind(s) else { unreachable!() };
                        if params != args.len() {
                            self.err(n.span, Cls::Kind);
                            T::Err
                        } else {
                            T::Named(s, args)
                        }
                    }
                }
            }
        }
    }

    fn type_item(&mut self, top: &Scope, export: bool, export_ctors: bool, name: &Name, params: &[Name], ctors: &[(Name, Vec<FieldSyn>)]) {
        let ty_sym = self.sym(&name.text, DK::Type { params: params.len(), is_var: false, ctors: vec![] });
        let mut sc = Scope::new(Some(top));
        let mut psyms = Vec::new();
        for p in params {
            let s = self.sym(&p.text, DK::Type { params: 0, is_var: true, ctors: vec![] });
            self.def(s, p, Vis::Local, false);
            sc.types.insert(p.text.clone(), s);
            psyms.push(s);
        }
        let mut csyms = Vec::new();
        let mut names: Vec<&str> = Vec::new();
        for (c, fs) in ctors {
            let fields: Vec<Field> = fs
                .iter()
                .map(|f| match f {
                    FieldSyn::Rec => Field::Rec,
                    FieldSyn::Ty(t) => Field::T(self.ty(t, &mut sc, &mut None)),
                })
                .collect();
            if names.contains(&c.text.as_str()) {
                self.err(c.span, Cls::DupCtor);
                continue;
            }
            names.push(&c.text);
            let s = self.sym(&c.text, DK::Ctor { ty_sym, params: psyms.clone(), fields });
            self.def(s, c, if export_ctors { Vis::Export } else { Vis::Module }, false);
            csyms.push(s);
        }
        if let DK::Type { ctors, .. } = &mut self.w.borrow_mut().syms[ty_sym].kind {
            *ctors = csyms;
        }
        self.def(ty_sym, name, if export { Vis::Export } else { Vis::Module }, false);
    }

    fn let_item(&mut self, top: &Scope, export: bool, name: &Name, ty: &Option<Ty>, e: &Exp) {
        let mut sc = Scope::new(Some(top));
        let mut vars = Some(Vec::new());
        let first_error = self.errors.len();
        let t = ty.as_ref().map(|t| self.ty(t, &mut sc, &mut vars));
        let s = self.sym(&name.text, DK::Value { vars: vars.unwrap(), ty: t.clone() });
        self.def(s, name, if export { Vis::Export } else { Vis::Module }, false);
        self.resolve(e, &sc);
        // typing
        self.subst.clear();
        self.trail.clear();
        self.metas.clear();
        let expected = match &t {
            Some(t) => t.clone(),
            None => self.fresh(),
        };
        let had = self.errors.len();
        self.check(e, &expected);
        if t.is_none() {
            // Later items only see the final type.
            let d = if first_error < had || self.errors.len() > had { T::Err } else { T::Int };
            self.default_metas(&expected, &d);
        }
        self.finish_item(e);
        if t.is_none() {
            let fin = self.zonk(&expected);
            if let DK::Value { ty, .. } = &mut self.w.borrow_mut().syms[s].kind {
                *ty = Some(fin);
            }
        }
        self.matches(e);
    }

    fn bind(&mut self, n: &Name, sc: &mut Scope, vars: Vec<Sym>, ty: Option<T>) {
        let s = self.sym(&n.text, DK::Value { vars, ty });
        self.def(s, n, Vis::Local, false);
        sc.values.insert(n.text.clone(), s);
    }

    fn resolve(&mut self, e: &Exp, sc: &Scope) {
        match &e.k {
            EK::Var(n) => {
                self.offer(n, Use::Value, sc);
                match sc.get(&|s| s.values.get(&n.text).copied()) {
                    Some(s) => self.reference(n, s),
                    None => self.err(n.span, Cls::UndefVar),
                }
            }
            EK::NsVar(ns, n) => {
                self.namespaced(ns, n, NS::Value, sc);
            }
            EK::Int(t) => {
                if t.parse::<u64>().is_err() {
                    self.err(e.span, Cls::Number);
                }
            }
            EK::Bool(_) | EK::Str(_) | EK::Hole(_) => {}
            EK::App(a, b) | EK::Bin(_, a, b) => {
                self.resolve(a, sc);
                self.resolve(b, sc);
            }
            EK::Paren(a) => self.resolve(a, sc),
            EK::If(a, b, c) => {
                self.resolve(a, sc);
                self.resolve(b, sc);
                self.resolve(c, sc);
            }
            EK::Lam(_, n, b) => {
                let mut sc = Scope::new(Some(sc));
                self.bind(n, &mut sc, vec![], None);
                self.resolve(b, &sc);
            }
            EK::Let(n, t, v, b) => {
                let mut vars = Some(Vec::new());
                let mut ty = None;
                {
                    let mut inner = Scope::new(Some(sc));
                    if let Some(t) = t {
                        ty = Some(self.ty(t, &mut inner, &mut vars));
                    }
                    self.resolve(v, &inner);
                }
                let mut sc = Scope::new(Some(sc));
                self.bind(n, &mut sc, vars.unwrap(), ty);
                self.resolve(b, &sc);
            }
            EK::Match(d, cases) => {
                self.resolve(d, sc);
                for c in cases {
                    match &c.ns {
                        Some(ns) => {
                            self.namespaced(ns, &c.ctor, NS::Pattern, sc);
                        }
                        None => {
                            self.offer(&c.ctor, Use::Ctor, sc);
                            match sc.get(&|s| s.ctors.get(&c.ctor.text).copied()) {
                                Some(s) => self.reference(&c.ctor, s),
                                None => self.err(c.ctor.span, Cls::UndefCtor),
                            }
                        }
                    }
                    let mut sc = Scope::new(Some(sc));
                    for v in &c.vars {
                        self.bind(v, &mut sc, vec![], None);
                    }
                    self.resolve(&c.body, &sc);
                }
            }
        }
    }

    // ---- types -------------------------------------------------------

    fn fresh(&mut self) -> T {
        self.subst.push(None);
        T::Meta(self.subst.len() - 1)
    }
    fn shallow(&self, t: &T) -> T {
        let mut t = t.clone();
        while let T::Meta(i) = t {
            match &self.subst[i] {
                Some(u) => t = u.clone(),
                None => break,
            }
        }
        t
    }
    fn occurs(&self, m: usize, t: &T) -> bool {
        match self.shallow(t) {
            T::Meta(i) => i == m,
            T::Named(_, a) => a.iter().any(|t| self.occurs(m, t)),
            T::Fn(a, b) | T::Folded(a, b) => self.occurs(m, &a) || self.occurs(m, &b),
            _ => false,
        }
    }
    fn mentions(&self, t: &T, v: Sym) -> bool {
        match self.shallow(t) {
            T::Named(s, a) => s == v || a.iter().any(|t| self.mentions(t, v)),
            T::Fn(a, b) | T::Folded(a, b) => self.mentions(&a, v) || self.mentions(&b, v),
            _ => false,
        }
    }
    fn try_unify(&mut self, a: &T, b: &T) -> bool {
        let (a, b) = (self.shallow(a), self.shallow(b));
        match (&a, &b) {
            (T::Meta(i), T::Meta(j)) if i == j => true,
            (T::Meta(i), o) | (o, T::Meta(i)) => {
                if self.occurs(*i, o) {
                    return false;
                }
                self.subst[*i] = Some(o.clone());
                self.trail.push(*i);
                true
            }
            (T::Err, _) | (_, T::Err) => true,
            (T::Int, T::Int) | (T::Bool, T::Bool) | (T::Str, T::Str) => true,
            (T::Named(s, x), T::Named(t, y)) => s == t && x.len() == y.len() && x.iter().zip(y).all(|(x, y)| self.try_unify(x, y)),
            (T::Fn(a1, b1), T::Fn(a2, b2)) | (T::Folded(a1, b1), T::Folded(a2, b2)) => self.try_unify(a1, a2) && self.try_unify(b1, b2),
            _ => false,
        }
    }
    fn unify(&mut self, a: &T, b: &T, span: Span) {
        self.trail.clear();
        if !self.try_unify(a, b) {
            for i in std::mem::take(&mut self.trail) {
                self.subst[i] = None;
            }
            self.err(span, Cls::Type);
        }
    }
    fn inst(&self, t: &T, m: &[(Sym, T)]) -> T {
        match t {
            T::Named(s, a) => match m.iter().find(|x| x.0 == *s) {
                Some((_, t)) => t.clone(),
                None => T::Named(*s, a.iter().map(|t| self.inst(t, m)).collect()),
            },
            T::Fn(a, b) => T::Fn(Rc::new(self.inst(a, m)), Rc::new(self.inst(b, m))),
            T::Folded(a, b) => T::Folded(Rc::new(self.inst(a, m)), Rc::new(self.inst(b, m))),
            t => t.clone(),
        }
    }
    pub fn ctor_type(ty_sym: Sym, params: &[Sym], fields: &[Field]) -> T {
        ctor_type(ty_sym, params, fields)
    }
    fn name_type(&mut self, s: Sym) -> T {
        match self.kind(s) {
            DK::Value { vars, ty: Some(t) } => {
                let m: Vec<_> = vars.iter().map(|v| (*v, self.fresh())).collect();
                self.inst(&t, &m)
            }
            DK::Value { ty: None, .. } => self.mono(s),
            DK::Ctor { ty_sym, params, fields } => {
                let m: Vec<_> = params.iter().map(|v| (*v, self.fresh())).collect();
                let t = Self::ctor_type(ty_sym, &params, &fields);
                self.inst(&t, &m)
            }
            _ => unreachable!(),
        }
    }
    fn mono(&mut self, s: Sym) -> T {
        if let Some(t) = self.metas.get(&s) {
            return t.clone();
        }
        let t = self.fresh();
        self.metas.insert(s, t.clone());
        t
    }

    fn check(&mut self, e: &Exp, want: &T) {
        self.types[e.id] = Some(want.clone());
        match &e.k {
            EK::Var(n) | EK::NsVar(_, n) => {
                if let Some(&s) = self.ref_by_span.get(&n.span) {
                    let t = self.name_type(s);
                    self.unify(want, &t, n.span);
                }
            }
            EK::Int(_) => self.unify(want, &T::Int, e.span),
            EK::Bool(_) => self.unify(want, &T::Bool, e.span),
            EK::Str(_) => self.unify(want, &T::Str, e.span),
            EK::Hole(_) => {}
            EK::Paren(i) => self.check(i, want),
            EK::App(f, a) => {
                let (x, y) = (self.fresh(), self.fresh());
                self.check(f, &T::Fn(Rc::new(x.clone()), Rc::new(y.clone())));
                self.check(a, &x);
                self.unify(want, &y, e.span);
            }
            EK::Bin("|>", l, r) => {
                let x = self.fresh();
                self.check(l, &x);
                let y = self.fresh();
                self.check(r, &T::Fn(Rc::new(x), Rc::new(y.clone())));
                self.unify(want, &y, e.span);
            }
            EK::Bin(op, l, r) => {
                self.check(l, &T::Int);
                self.check(r, &T::Int);
                let res = if matches!(*op, "+" | "-" | "*" | "/" | "%") { T::Int } else { T::Bool };
                self.unify(want, &res, e.span);
            }
            EK::If(c, a, b) => {
                self.check(c, &T::Bool);
                self.check(a, want);
                self.check(b, want);
            }
            EK::Let(n, _, v, b) => {
                let s = self.def_by_span[&n.span];
                let t = match self.kind(s) {
                    DK::Value { ty: Some(t), .. } => t,
                    _ => self.mono(s),
                };
                // the variables of the annotation must not get out
                let outer: Vec<T> = self.types.iter().flatten().cloned().collect();
                self.check(v, &t);
                if let DK::Value { vars, ty: Some(_) } = self.kind(s) {
                    if vars.iter().any(|v| outer.iter().any(|t| self.mentions(t, *v))) {
                        self.err(n.span, Cls::Escape);
                    }
                }
                self.check(b, want);
            }
            EK::Lam(fold, n, b) => {
                let p = self.mono(self.def_by_span[&n.span]);
                let (x, y) = (self.fresh(), self.fresh());
                let arg = if *fold { T::Folded(Rc::new(x.clone()), Rc::new(y.clone())) } else { x.clone() };
                self.unify(&p, &arg, e.span);
                self.unify(want, &T::Fn(Rc::new(x), Rc::new(y.clone())), e.span);
                self.check(b, &y);
            }
            EK::Match(d, cases) => {
                let dt = self.fresh();
                self.check(d, &dt);
                let (primary, rec) = match self.shallow(&dt) {
                    T::Folded(a, b) => ((*a).clone(), (*b).clone()),
                    _ => (dt.clone(), dt.clone()),
                };
                for c in cases {
                    if let Some(&s) = self.ref_by_span.get(&c.ctor.span) {
                        let DK::Ctor { ty_sym, params, fields } = self.kind(s) else { unreachable!() };
                        let m: Vec<_> = params.iter().map(|v| (*v, self.fresh())).collect();
                        let t = T::Named(ty_sym, m.iter().map(|x| x.1.clone()).collect());
                        self.unify(&primary, &t, c.ctor.span);
                        if fields.len() != c.vars.len() {
                            let end = c.vars.last().map(|v| v.span.1).unwrap_or(c.ctor.span.1);
                            self.err((c.ctor.span.0, end), Cls::Fields);
                        } else {
                            for (v, f) in c.vars.iter().zip(&fields) {
                                let vt = self.mono(self.def_by_span[&v.span]);
                                let ft = match f {
                                    Field::Rec => rec.clone(),
                                    Field::T(t) => self.inst(t, &m),
                                };
                                self.unify(&ft, &vt, v.span);
                            }
                        }
                    }
                    self.check(&c.body, want);
                }
            }
        }
    }

    fn zonk(&self, t: &T) -> T {
        match self.shallow(t) {
            T::Named(s, a) => T::Named(s, a.iter().map(|t| self.zonk(t)).collect()),
            T::Fn(a, b) => T::Fn(Rc::new(self.zonk(&a)), Rc::new(self.zonk(&b))),
            T::Folded(a, b) => T::Folded(Rc::new(self.zonk(&a)), Rc::new(self.zonk(&b))),
            t => t,
        }
    }
    fn default_metas(&mut self, t: &T, d: &T) {
        match self.shallow(t) {
            T::Meta(i) => self.subst[i] = Some(d.clone()),
            T::Named(_, a) => a.iter().for_each(|t| self.default_metas(t, d)),
            T::Fn(a, b) | T::Folded(a, b) => {
                self.default_metas(&a, d);
                self.default_metas(&b, d);
            }
            _ => {}
        }
    }
    fn finish_item(&mut self, e: &Exp) {
        let mut ids = Vec::new();
        walk(e, &mut |e| ids.push(e.id));
        for i in ids {
            if let Some(t) = &self.types[i] {
                self.types[i] = Some(self.zonk(t));
            }
        }
        let metas: Vec<(Sym, T)> = self.metas.iter().map(|(k, v)| (*k, v.clone())).collect();
        for (s, t) in metas {
            let t = self.zonk(&t);
            if let DK::Value { ty, .. } = &mut self.w.borrow_mut().syms[s].kind {
                *ty = Some(t);
            }
        }
    }

    // ---- matches -----------------------------------------------------

    fn matches(&mut self, e: &Exp) {
        let mut ms: Vec<(Exp, Vec<Case>, Span)> = Vec::new();
        walk(e, &mut |e| {
            if let EK::Match(d, c) = &e.k {
                ms.push(((**d).clone(), c.clone(), e.span));
            }
        });
        for (d, cases, span) in ms {
            let Some(t) = self.types[d.id].clone() else { continue };
            let t = match t {
                T::Folded(a, _) => (*a).clone(),
                t => t,
            };
            let ctors = match t {
                T::Err => continue,
                T::Named(s, _) => match self.kind(s) {
                    DK::Type { is_var: false, ctors, .. } => ctors,
                    _ => {
                        self.err(d.span, Cls::MatchOn);
                        continue;
                    }
                },
                _ => {
                    self.err(d.span, Cls::MatchOn);
                    continue;
                }
            };
            let mut left: Vec<Sym> = ctors.clone();
            let mut bad = false;
            for c in &cases {
                let Some(&s) = self.ref_by_span.get(&c.ctor.span) else {
                    bad = true;
                    break;
                };
                if !ctors.contains(&s) {
                    continue;
                }
                if !left.contains(&s) {
                    self.err(c.span, Cls::Unreachable);
                }
                left.retain(|x| *x != s);
            }
            if !bad && !left.is_empty() {
                let name = |s: &Sym| self.w.borrow().syms[*s].name.clone();
                let missing = left.iter().map(name).collect();
                let covered = ctors.iter().filter(|c| !left.contains(c)).map(name).collect();
                self.errors.push(Error { span, cls: Cls::NotCovered, missing, covered });
            }
        }
    }

    // ---- lint --------------------------------------------------------

    /// Names reported as unused, and names for which either answer is fine
    /// (an exposed type of which only a constructor named elsewhere is used).
    fn unused(&self) -> (BTreeSet<Span>, BTreeSet<Span>) {
        let w = self.w.borrow();
        let mut used: BTreeSet<Sym> = self.refs.iter().map(|r| r.1).collect();
        for d in &self.defs {
            if d.vis == Vis::Export {
                used.insert(d.sym);
            }
        }
        // a type is used when one of its constructors is
        let declared: BTreeSet<Sym> = self.defs.iter().map(|d| d.sym).collect();
        let mut by_ctor = Vec::new();
        let mut by_foreign = Vec::new();
        for s in &used {
            if let DK::Ctor { ty_sym, .. } = &w.syms[*s].kind {
                if declared.contains(s) { by_ctor.push(*ty_sym) } else { by_foreign.push(*ty_sym) }
            }
        }
        used.extend(by_ctor);
        let mut maybe = used.clone();
        maybe.extend(by_foreign);
        let pick = |used: &BTreeSet<Sym>| -> BTreeSet<Span> {
            // an exposed name stands for all its meanings
            let spans: BTreeSet<Span> = self.defs.iter().filter(|d| used.contains(&d.sym)).map(|d| d.span).collect();
            self.defs
                .iter()
                .filter(|d| {
                    let k = &w.syms[d.sym].kind;
                    !matches!(k, DK::Module(_)) && !matches!(k, DK::Type { is_var: true, .. }) && !d.name.starts_with('_') && !spans.contains(&d.span)
                })
                .map(|d| d.span)
                .collect()
        };
        let all = pick(&used);
        let sure = pick(&maybe);
        let either = all.difference(&sure).copied().collect();
        (sure, either)
    }
}

fn v_push(v: &mut Vec<Sym>, s: Sym) {
    v.push(s)
}

pub fn walk(e: &Exp, f: &mut dyn FnMut(&Exp)) {
    f(e);
    match &e.k {
        EK::App(a, b) | EK::Bin(_, a, b) | EK::Let(_, _, a, b) => {
            walk(a, f);
            walk(b, f);
        }
        EK::Lam(_, _, a) | EK::Paren(a) => walk(a, f),
        EK::If(a, b, c) => {
            walk(a, f);
            walk(b, f);
            walk(c, f);
        }
        EK::Match(d, cs) => {
            walk(d, f);
            for c in cs {
                walk(&c.body, f);
            }
        }
        _ => {}
    }
}

/// Prints a type the way a user would write it. `None` when it mentions a
/// name that is not bound in this unit.
pub fn show_type(w: &W, u: &Unit, t: &T, prec: u8) -> Option<String> {
    Some(match t {
        T::Int => "int".into(),
        T::Bool => "bool".into(),
        T::Str => "string".into(),
        T::Err => "?".into(),
        T::Meta(_) => "_".into(),
        T::Named(s, a) => {
            if !u.defs.iter().any(|d| d.sym == *s) {
                return None;
            }
            let mut o = w.borrow().syms[*s].name.clone();
            for a in a {
                o.push(' ');
                o.push_str(&show_type(w, u, a, 2)?);
            }
            if prec >= 2 && !a.is_empty() { format!("({o})") } else { o }
        }
        T::Fn(a, b) => {
            let o = format!("{} -> {}", show_type(w, u, a, 1)?, show_type(w, u, b, 0)?);
            if prec >= 1 { format!("({o})") } else { o }
        }
        T::Folded(a, b) => format!("{{{} => {}}}", show_type(w, u, a, 0)?, show_type(w, u, b, 0)?),
    })
}

pub fn ctor_type(ty_sym: Sym, params: &[Sym], fields: &[Field]) -> T {
    let whole = T::Named(ty_sym, params.iter().map(|p| T::Named(*p, vec![])).collect());
    let mut t = whole.clone();
    for f in fields.iter().rev() {
        let ft = match f {
            Field::Rec => whole.clone(),
            Field::T(t) => t.clone(),
        };
        t = T::Fn(Rc::new(ft), Rc::new(t));
    }
    t
}
