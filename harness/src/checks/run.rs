//! C08, C11, C12, C13: what accepted programs do when run.
use crate::engine::{Check, Cx};
use crate::checks::front::{family, real_unit, split_mods, C09_FAMS, NAMES};
use crate::gen;
use crate::progs::PROGS;
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, Out, RUNNERS};

const ASSUMPTIONS: &[&str] = &[
    "the jit runner only exists on windows and is not part of the exploration",
    "programs outside the enumerated families are not covered; within a family the enumeration is complete up to the stated bound",
];

/// Every program of the shared corpus.
pub fn corpus(cx: &mut Cx, f: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String>) {
    for t in gen::themes() {
        let max = cx.pick(t.sizes.0, t.sizes.1);
        cx.family(&format!("typed_{}", t.name));
        cx.bound(&format!("typed_{}_size", t.name), max);
        gen::programs(&t, max, &mut |p| cx.lazy(|| p(), |cx, s| f(cx, s)));
    }
    for p in PROGS {
        let max = (p.bound)(cx.thorough);
        cx.family(p.name);
        cx.bound(&format!("{}_size", p.name), max);
        (p.each)(max, &mut |s| cx.lazy(|| s(), |cx, s| f(cx, s)));
    }
    let max = cx.pick(3, 4);
    cx.bound("contexts_depth", max);
    for d in 0..=max {
        cx.family(&format!("contexts_{d}"));
        gen::compose(d, d == max, &mut |p| cx.lazy(|| p(), |cx, s| f(cx, s)));
    }
}

fn accepted(src: &str, optimize: bool) -> Result<ticc::CompilationUnit, String> {
    let mut u = real::unit(src, optimize, &real::none());
    let e = real::errors(&mut u);
    if e.is_empty() { Ok(u) } else { Err(format!("the generated program is well typed but was rejected: {e:?}")) }
}

fn holes(src: &str) -> Vec<String> {
    crate::refimpl::lex::lex(src).iter().filter(|t| t.k == crate::refimpl::lex::K::Hole).map(|t| src[t.s..t.e].to_owned()).collect()
}

fn known_outcome(src: &str, o: &Out) -> Result<(), String> {
    match o {
        Out::Val(_) => Ok(()),
        Out::Trap(m) => {
            if holes(src).iter().any(|h| m.contains(&h[1..])) {
                Ok(())
            } else {
                Err(format!("stopped with {m:?}, which names no hole of the program"))
            }
        }
    }
}

fn c08(cx: &mut Cx) {
    corpus(cx, &mut |cx, s| {
        for o in [false, true] {
            let mut u = accepted(s, o)?;
            u.emit_ir();
            cx.ops(1);
            for r in RUNNERS {
                let out = real::run(&mut u, r);
                known_outcome(s, &out).map_err(|e| format!("{r} (optimize: {o}): {e}"))?;
                cx.ops(1);
                cx.validated(1);
            }
        }
        Ok(())
    });
    // programs that may or may not be accepted
    let less = cx.pick(2, 0);
    for f in C09_FAMS.iter().map(|f| f.by(0)).chain(NAMES.iter().map(|f| f.by(less))) {
        let f = &f;
        family(cx, f, &mut |cx, text| {
            let (mods, src) = split_mods(text);
            if real::has_errors(&mut real_unit(&mods, &src, false)) {
                cx.count("rejected", 1);
                return Ok(());
            }
            for o in [false, true] {
                let mut u = real_unit(&mods, &src, o);
                u.emit_ir();
                cx.ops(1);
                for r in RUNNERS {
                    let out = real::run(&mut u, r);
                    known_outcome(text, &out).map_err(|e| format!("{r} (optimize: {o}): {e}"))?;
                    cx.ops(1);
                    cx.validated(1);
                }
            }
            Ok(())
        });
    }
}

fn c11(cx: &mut Cx) {
    let or = Oracle::new();
    corpus(cx, &mut |cx, s| {
        or.reset();
        let Verdict::Ok(u) = or.compile(s) else { return Err("the reference rejects the generated program".into()) };
        let Some(want) = or.run(&u) else {
            cx.count("out_of_fuel", 1);
            return Ok(());
        };
        for o in [false, true] {
            let mut u = accepted(s, o)?;
            for r in RUNNERS {
                let got = real::run(&mut u, r);
                cx.ops(1);
                // an optimised program may skip a hole it does not need
                let same = got == want || (got.trap() && want.trap()) || (o && want.trap());
                if !same {
                    return Err(format!("{r} (optimize: {o}) {got}, the language definition says: {want}"));
                }
                cx.validated(1);
            }
        }
        Ok(())
    });
}

fn c12(cx: &mut Cx) {
    corpus(cx, &mut |cx, s| {
        for o in [false, true] {
            let mut u = accepted(s, o)?;
            let outs: Vec<Out> = RUNNERS.iter().map(|r| real::run(&mut u, *r)).collect();
            cx.ops(3);
            for i in 1..3 {
                if !(outs[i] == outs[0] || (outs[i].trap() && outs[0].trap())) {
                    return Err(format!("optimize: {o}: {} {}, {} {}", RUNNERS[0], outs[0], RUNNERS[i], outs[i]));
                }
                cx.validated(1);
            }
            for x in &outs {
                known_outcome(s, x)?;
            }
        }
        Ok(())
    });
}

fn c13(cx: &mut Cx) {
    corpus(cx, &mut |cx, s| {
        let mut a = accepted(s, false)?;
        let mut b = accepted(s, true)?;
        for r in RUNNERS {
            let (x, y) = (real::run(&mut a, r), real::run(&mut b, r));
            cx.ops(2);
            if !(x == y || x.trap()) {
                return Err(format!("{r}: unoptimised {x}, optimised {y}"));
            }
            cx.validated(1);
        }
        Ok(())
    });
}

const MEANING: &str = "a state is a distinct program, a transition one run or compilation of it by the real code, a validated trace one run whose outcome was compared";

pub static C08: Check = Check { id: "C08", run: c08, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C11: Check = Check { id: "C11", run: c11, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C12: Check = Check { id: "C12", run: c12, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
pub static C13: Check = Check { id: "C13", run: c13, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
