//! Driving the real implementation.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
pub use ticc::Runner;
use ticc::*;

pub const RUNNERS: [Runner; 3] = [Runner::Bytecode, Runner::Lambda, Runner::Treewalk];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Val(String),
    Trap(String),
}

impl Out {
    pub fn trap(&self) -> bool {
        matches!(self, Out::Trap(_))
    }
}

impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Out::Val(v) => write!(f, "printed {v:?}"),
            Out::Trap(t) => write!(f, "stopped at {t:?}"),
        }
    }
}

pub fn opts(optimize: bool) -> Options {
    Options { verify: true, optimize }
}

/// Modules already compiled, found by their import name.
#[derive(Default)]
pub struct Mods {
    pub units: Mutex<HashMap<String, CompleteUnit>>,
}

impl ModuleResolver for Mods {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        self.units.lock().unwrap().get(name).cloned().ok_or(ImportError::DoesNotExist)
    }
}

pub type Res = Arc<dyn ModuleResolver + Send + Sync>;

pub fn none() -> Res {
    NoopModuleResolver::new()
}

/// Compiles the modules in order; each may import the ones before it.
pub fn mods(list: &[(String, String)], o: Options) -> Arc<Mods> {
    let mut done: HashMap<String, CompleteUnit> = HashMap::new();
    for (n, s) in list {
        // a resolver of its own for each module, so that no cycle keeps all of
        // them in memory
        let m = Arc::new(Mods { units: Mutex::new(done.clone()) });
        let u = CompilationUnit::new(s, o, m).complete();
        done.insert(n.clone(), u);
    }
    Arc::new(Mods { units: Mutex::new(done) })
}

pub fn unit(src: &str, optimize: bool, r: &Res) -> CompilationUnit {
    CompilationUnit::new(src, opts(optimize), r.clone())
}

pub fn has_errors(u: &mut CompilationUnit) -> bool {
    u.diagnostics().any(|d| d.severity == Severity::Error)
}

pub fn errors(u: &mut CompilationUnit) -> Vec<(usize, usize, String)> {
    u.diagnostics().filter(|d| d.severity == Severity::Error).map(|d| (d.span.start().source_pos(), d.span.end().source_pos(), d.message)).collect()
}

pub fn run(u: &mut CompilationUnit, r: Runner) -> Out {
    match u.interpret(r) {
        Ok(s) => Out::Val(s),
        Err(t) => Out::Trap(t.message),
    }
}

pub fn pos(p: usize) -> Pos {
    Pos::new(p as u32)
}
