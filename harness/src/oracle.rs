//! The reference implementation as an oracle for one program.
use crate::real::Out;
use crate::refimpl::check::{self, ImportErr, Unit, W};
use crate::refimpl::eval::{self, Stop};
use std::collections::HashMap;
use std::rc::Rc;

pub struct Oracle {
    pub w: W,
    base: (usize, usize),
}

pub enum Verdict {
    Syntax,
    Errors(Unit),
    Ok(Rc<Unit>),
}

pub const STD: &str = "/repo/ticc/src/std";

impl Oracle {
    pub fn new() -> Oracle {
        let w = check::world_with_std(STD);
        let base = w.borrow().mark();
        Oracle { w, base }
    }
    /// Forgets the previous case.
    pub fn reset(&self) {
        self.w.borrow_mut().reset(self.base);
    }
    pub fn compile(&self, src: &str) -> Verdict {
        self.with(src, &|_| Err(ImportErr::Missing))
    }
    pub fn with(&self, src: &str, f: &dyn Fn(&str) -> Result<Rc<Unit>, ImportErr>) -> Verdict {
        match check::compile(&self.w, src, f) {
            None => Verdict::Syntax,
            Some(u) if u.ok() => Verdict::Ok(Rc::new(u)),
            Some(u) => Verdict::Errors(u),
        }
    }
    /// Highlighting category of a declared name.
    pub fn kind_name(&self, s: usize) -> String {
        use crate::refimpl::check::DK;
        match &self.w.borrow().syms[s].kind {
            DK::Ctor { .. } => "Ctor",
            DK::Type { is_var: true, .. } => "TypeVariable",
            DK::Type { .. } | DK::Module(_) => "Type",
            _ => "Value",
        }
        .to_owned()
    }
    /// Compiles modules in order, then the program.
    pub fn compile_mods(&self, mods: &[(String, String)], src: &str) -> Verdict {
        let mut m: HashMap<String, Rc<Unit>> = HashMap::new();
        for (n, s) in mods {
            let mm = m.clone();
            match self.with(s, &|n| mm.get(n).cloned().ok_or(ImportErr::Missing)) {
                Verdict::Ok(u) => {
                    m.insert(n.clone(), u);
                }
                Verdict::Errors(u) => {
                    m.insert(n.clone(), Rc::new(u));
                }
                Verdict::Syntax => {}
            }
        }
        self.with(src, &|n| m.get(n).cloned().ok_or(ImportErr::Missing))
    }
    /// `None` when the reference runs out of fuel.
    pub fn run(&self, u: &Rc<Unit>) -> Option<Out> {
        match eval::run(&self.w, u, 5_000_000) {
            Ok(s) => Some(Out::Val(s)),
            Err(Stop::Trap(h)) => Some(Out::Trap(h)),
            Err(Stop::Fuel) => None,
        }
    }
}
