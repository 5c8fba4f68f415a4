//! Reference parser: strict recursive descent with precedence climbing.
use super::lex::{significant, Tok, K};

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub struct Name {
    pub text: String,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub id: usize,
    pub span: Span,
    pub k: EK,
}

#[derive(Clone, Debug)]
pub enum EK {
    Var(Name),
    NsVar(Name, Name),
    Int(String),
    Bool(bool),
    Str(String),
    Hole(String),
    App(Box<Exp>, Box<Exp>),
    Bin(&'static str, Box<Exp>, Box<Exp>),
    Let(Name, Option<Ty>, Box<Exp>, Box<Exp>),
    Lam(bool, Name, Box<Exp>),
    If(Box<Exp>, Box<Exp>, Box<Exp>),
    Match(Box<Exp>, Vec<Case>),
    Paren(Box<Exp>),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub ns: Option<Name>,
    pub ctor: Name,
    pub vars: Vec<Name>,
    pub body: Exp,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Ty {
    pub span: Span,
    pub k: TK,
}

#[derive(Clone, Debug)]
pub enum TK {
    Int,
    Bool,
    Str,
    Named(Option<Name>, Name, Vec<Ty>),
    Fn(Box<Ty>, Box<Ty>),
    Paren(Box<Ty>),
}

#[derive(Clone, Debug)]
pub enum FieldSyn {
    Rec,
    Ty(Ty),
}

#[derive(Clone, Debug)]
pub enum Item {
    Import { span: Span, name: Option<Name>, exposed: Vec<Name>, path: String, path_span: Span },
    Let { span: Span, export: bool, name: Name, ty: Option<Ty>, e: Exp },
    Type { span: Span, export: bool, export_ctors: bool, name: Name, params: Vec<Name>, ctors: Vec<(Name, Vec<FieldSyn>)> },
}

pub struct Ast {
    pub items: Vec<Item>,
    pub exprs: usize,
}

struct P<'a> {
    src: &'a str,
    t: Vec<Tok>,
    i: usize,
    ids: usize,
}

type R<T> = Option<T>;

pub fn parse(src: &str) -> Option<Ast> {
    let t = significant(src)?;
    let mut p = P { src, t, i: 0, ids: 0 };
    let mut items = Vec::new();
    while p.i < p.t.len() {
        items.push(p.item()?);
    }
    Some(Ast { items, exprs: p.ids })
}

/// Where a text stops being the beginning of any program: the first token
/// that cannot stand there, or the end of the last token when the text is too
/// short. `None` for the texts of the grammar.
pub fn failure(src: &str) -> Option<Span> {
    let all: Vec<Tok> = super::lex::lex(src).into_iter().filter(|t| !matches!(t.k, K::Space | K::Newline | K::Comment)).collect();
    let bad = all.iter().position(|t| t.k == K::Error);
    let n = bad.unwrap_or(all.len());
    let mut p = P { src, t: all[..n].to_vec(), i: 0, ids: 0 };
    while p.i < n {
        if p.item().is_none() {
            return Some(match all.get(p.i) {
                Some(t) => (t.s, t.e),
                None => (p.prev_end(), p.prev_end()),
            });
        }
    }
    bad.map(|b| (all[b].s, all[b].e))
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<K> {
        self.t.get(self.i).map(|t| t.k)
    }
    fn at(&self, k: K) -> bool {
        self.peek() == Some(k)
    }
    fn p(&mut self, s: &'static str) -> bool {
        if self.at(K::Punct(s)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn kw(&mut self, s: &'static str) -> bool {
        if self.at(K::Kw(s)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn start(&self) -> usize {
        self.t.get(self.i).map(|t| t.s).unwrap_or(self.src.len())
    }
    fn prev_end(&self) -> usize {
        self.t[self.i - 1].e
    }
    fn text(&mut self) -> (String, Span) {
        let t = self.t[self.i];
        self.i += 1;
        (self.src[t.s..t.e].to_owned(), (t.s, t.e))
    }
    fn name(&mut self) -> R<Name> {
        if !self.at(K::Name) {
            return None;
        }
        let (text, span) = self.text();
        Some(Name { text, span })
    }
    fn need(b: bool) -> R<()> {
        if b { Some(()) } else { None }
    }

    fn item(&mut self) -> R<Item> {
        let s = self.start();
        if self.kw("import") {
            let name = if self.at(K::Name) { self.name() } else { None };
            let mut exposed = Vec::new();
            if self.p("(") {
                while !self.at(K::Punct(")")) {
                    exposed.push(self.name()?);
                    if !self.p(",") {
                        break;
                    }
                }
                Self::need(self.p(")"))?;
            }
            Self::need(self.kw("from"))?;
            Self::need(self.at(K::Str))?;
            let (path, path_span) = self.text();
            Self::need(self.p(";"))?;
            return Some(Item::Import { span: (s, self.prev_end()), name, exposed, path: path[1..path.len() - 1].to_owned(), path_span });
        }
        let export = self.kw("export");
        if self.kw("let") {
            let name = self.name()?;
            let ty = if self.p(":") { Some(self.ty()?) } else { None };
            Self::need(self.p("="))?;
            let e = self.expr()?;
            Self::need(self.p(";"))?;
            Some(Item::Let { span: (s, self.prev_end()), export, name, ty, e })
        } else if self.kw("type") {
            let name = self.name()?;
            let mut params = Vec::new();
            while self.at(K::Name) {
                params.push(self.name()?);
            }
            Self::need(self.p("="))?;
            let export_ctors = self.kw("export");
            self.p("|");
            let mut ctors = Vec::new();
            loop {
                let c = self.name()?;
                let mut fields = Vec::new();
                loop {
                    if self.kw("rec") {
                        fields.push(FieldSyn::Rec);
                    } else if self.at_atom_ty() {
                        fields.push(FieldSyn::Ty(self.atom_ty()?));
                    } else {
                        break;
                    }
                }
                ctors.push((c, fields));
                if !self.p("|") {
                    break;
                }
            }
            Self::need(self.p(";"))?;
            Some(Item::Type { span: (s, self.prev_end()), export, export_ctors, name, params, ctors })
        } else {
            None
        }
    }

    fn at_atom_ty(&self) -> bool {
        matches!(
            self.peek(),
            Some(K::Kw("int") | K::Kw("bool") | K::Kw("string") | K::Name | K::Punct("("))
        )
    }

    fn atom_ty(&mut self) -> R<Ty> {
        let s = self.start();
        let k = if self.kw("int") {
            TK::Int
        } else if self.kw("bool") {
            TK::Bool
        } else if self.kw("string") {
            TK::Str
        } else if self.at(K::Name) {
            let (ns, n) = self.qualified()?;
            TK::Named(ns, n, Vec::new())
        } else if self.p("(") {
            let t = self.ty()?;
            Self::need(self.p(")"))?;
            TK::Paren(Box::new(t))
        } else {
            return None;
        };
        Some(Ty { span: (s, self.prev_end()), k })
    }

    fn qualified(&mut self) -> R<(Option<Name>, Name)> {
        let n = self.name()?;
        if self.p(".") {
            let m = self.name()?;
            Some((Some(n), m))
        } else {
            Some((None, n))
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let s = self.start();
        let a = if self.at(K::Name) {
            let (ns, n) = self.qualified()?;
            let mut args = Vec::new();
            while self.at_atom_ty() {
                args.push(self.atom_ty()?);
            }
            Ty { span: (s, self.prev_end()), k: TK::Named(ns, n, args) }
        } else {
            self.atom_ty()?
        };
        if self.p("->") {
            let b = self.ty()?;
            Some(Ty { span: (s, self.prev_end()), k: TK::Fn(Box::new(a), Box::new(b)) })
        } else {
            Some(a)
        }
    }

    fn mk(&mut self, s: usize, k: EK) -> Exp {
        let id = self.ids;
        self.ids += 1;
        Exp { id, span: (s, self.prev_end()), k }
    }

    fn expr(&mut self) -> R<Exp> {
        let s = self.start();
        if self.kw("let") {
            let n = self.name()?;
            let t = if self.p(":") { Some(self.ty()?) } else { None };
            Self::need(self.p("="))?;
            let v = self.expr()?;
            Self::need(self.p(";"))?;
            let b = self.expr()?;
            Some(self.mk(s, EK::Let(n, t, Box::new(v), Box::new(b))))
        } else if self.kw("match") {
            let d = self.expr()?;
            Self::need(self.kw("with"))?;
            let mut cases = Vec::new();
            loop {
                let cs = self.start();
                if !self.p("|") {
                    break;
                }
                let (ns, ctor) = self.qualified()?;
                let mut vars = Vec::new();
                while self.at(K::Name) {
                    vars.push(self.name()?);
                }
                Self::need(self.p("->"))?;
                let body = self.expr()?;
                cases.push(Case { ns, ctor, vars, body, span: (cs, self.prev_end()) });
            }
            Self::need(self.kw("end"))?;
            Some(self.mk(s, EK::Match(Box::new(d), cases)))
        } else if self.kw("if") {
            let c = self.expr()?;
            Self::need(self.kw("then"))?;
            let t = self.expr()?;
            Self::need(self.kw("else"))?;
            let e = self.expr()?;
            Some(self.mk(s, EK::If(Box::new(c), Box::new(t), Box::new(e))))
        } else if self.p("\\") {
            let fold = self.kw("fold");
            let n = self.name()?;
            Self::need(self.p("->"))?;
            let b = self.expr()?;
            Some(self.mk(s, EK::Lam(fold, n, Box::new(b))))
        } else {
            self.ops(0)
        }
    }

    fn level(op: &str) -> u32 {
        match op {
            "|>" => 1,
            "<" | "<=" | ">" | ">=" | "==" | "!=" => 2,
            "+" | "-" => 3,
            _ => 4,
        }
    }

    /// Every operator is left associative.
    fn ops(&mut self, min: u32) -> R<Exp> {
        let s = self.start();
        let mut l = self.apply()?;
        while let Some(K::Op(op)) = self.peek() {
            let lv = Self::level(op);
            if lv < min {
                break;
            }
            self.i += 1;
            let r = self.ops(lv + 1)?;
            l = self.mk(s, EK::Bin(op, Box::new(l), Box::new(r)));
        }
        Some(l)
    }

    fn at_atom(&self) -> bool {
        matches!(
            self.peek(),
            Some(K::Name | K::Number | K::Str | K::Hole | K::Punct("(") | K::Kw("true") | K::Kw("false"))
        )
    }

    fn apply(&mut self) -> R<Exp> {
        let s = self.start();
        let mut f = self.atom()?;
        while self.at_atom() {
            let a = self.atom()?;
            f = self.mk(s, EK::App(Box::new(f), Box::new(a)));
        }
        Some(f)
    }

    fn atom(&mut self) -> R<Exp> {
        let s = self.start();
        let k = match self.peek()? {
            K::Name => {
                let (ns, n) = self.qualified()?;
                match ns {
                    Some(ns) => EK::NsVar(ns, n),
                    None => EK::Var(n),
                }
            }
            K::Number => EK::Int(self.text().0),
            K::Str => {
                let t = self.text().0;
                EK::Str(t[1..t.len() - 1].to_owned())
            }
            K::Hole => EK::Hole(self.text().0),
            K::Kw("true") => {
                self.i += 1;
                EK::Bool(true)
            }
            K::Kw("false") => {
                self.i += 1;
                EK::Bool(false)
            }
            K::Punct("(") => {
                self.i += 1;
                let e = self.expr()?;
                Self::need(self.p(")"))?;
                EK::Paren(Box::new(e))
            }
            _ => return None,
        };
        Some(self.mk(s, k))
    }
}
