use std::io::Read;
use ticc::*;
fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut c = CompilationUnit::new(&s, Options::default(), NoopModuleResolver::new());
    for d in c.diagnostics() { println!("{:?} {:?}", d, &s[d.span.start().source_pos()..d.span.end().source_pos()]); }
    if c.diagnostics().any(|d| d.severity == Severity::Error) { return }
    for opt in [false, true] {
        let mut c = CompilationUnit::new(&s, Options{verify:true, optimize:opt}, NoopModuleResolver::new());
        println!("--- opt={opt}");
        if std::env::args().any(|a| a == "ir") {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.emit_ir())) { Ok(x) => println!("{x}"), Err(_) => println!("PANIC emit") } }
        for r in [Runner::Bytecode, Runner::Lambda, Runner::Treewalk] {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.interpret(r))) {
                Ok(Ok(x)) => println!("{r}: {x}"), Ok(Err(t)) => println!("{r}: TRAP {}", t.message), Err(_) => println!("{r}: PANIC") }
        }
    }
}
