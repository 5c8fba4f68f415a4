//! C07: hover.
use crate::checks::front::{family, real_unit, split_mods, Fam, C09_FAMS, NAMES};
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real;
use crate::refimpl::check::{show_type, ctor_type, walk, Unit, DK};
use crate::refimpl::lex::{lex, K};
use crate::refimpl::parse::Item;

fn doc_of(or: &Oracle, u: &Unit, sym: usize) -> Option<String> {
    let (name, kind) = {
        let w = or.w.borrow();
        (w.syms[sym].name.clone(), w.syms[sym].kind.clone())
    };
    match kind {
        DK::Value { ty, .. } => Some(format!("{name}: {}", show_type(&or.w, u, &ty?, 0)?)),
        DK::Ctor { ty_sym, params, fields } => Some(format!("{name}: {}", show_type(&or.w, u, &ctor_type(ty_sym, &params, &fields), 0)?)),
        DK::Type { params, .. } => Some(format!("{name}: *{}", " -> *".repeat(params))),
        DK::Module(_) => None,
    }
}

fn c07_case(or: &Oracle, cx: &mut Cx, text: &str) -> Result<(), String> {
    or.reset();
    let (mods, src) = split_mods(text);
    let Verdict::Ok(u) = or.compile_mods(&mods, &src) else {
        cx.count("not_a_program", 1);
        return Ok(());
    };
    let mut r = real_unit(&mods, &src, true);
    let names: Vec<(usize, usize)> = lex(&src).into_iter().filter(|t| t.k == K::Name).map(|t| (t.s, t.e)).collect();
    // expressions with their types, innermost last
    let mut exprs: Vec<((usize, usize), usize)> = Vec::new();
    for i in &u.ast.items {
        if let Item::Let { e, .. } = i {
            walk(e, &mut |e| exprs.push((e.span, e.id)));
        }
    }
    for p in 0..=src.len() {
        if !src.is_char_boundary(p) {
            continue;
        }
        let got = r.info(real::pos(p)).map(|i| ((i.span.start().source_pos(), i.span.end().source_pos()), i.doc));
        cx.ops(1);
        let name = names.iter().find(|n| n.0 <= p && p <= n.1).copied();
        let mut syms: Vec<usize> = Vec::new();
        if let Some(n) = name {
            match u.ref_by_span.get(&n) {
                Some(s) if u.defs.iter().any(|d| d.sym == *s) => syms.push(*s),
                Some(_) => {}
                None => syms = u.defs.iter().filter(|d| d.span == n).map(|d| d.sym).collect(),
            }
        }
        if let (Some(n), false) = (name, syms.is_empty()) {
            // hovering over a name of this program
            if syms.iter().any(|s| matches!(or.w.borrow().syms[*s].kind, DK::Module(_))) {
                continue;
            }
            let want: Vec<String> = syms.iter().filter_map(|s| doc_of(or, &u, *s)).collect();
            if want.len() < syms.len() {
                // mentions a type the program has no name for
                continue;
            }
            match &got {
                Some((s, d)) if *s == n && want.contains(d) => {}
                _ => return Err(format!("hovering over {:?} at {p} shows {got:?}, should be one of {want:?} at {n:?}", &src[n.0..n.1])),
            }
            cx.validated(1);
            continue;
        }
        // innermost expressions touching the offset
        let touching: Vec<_> = exprs.iter().filter(|e| e.0 .0 <= p && p <= e.0 .1).collect();
        let inner: Vec<_> = touching.iter().filter(|e| !touching.iter().any(|x| x.1 != e.1 && e.0 .0 <= x.0 .0 && x.0 .1 <= e.0 .1 && (x.0 .1 - x.0 .0) < (e.0 .1 - e.0 .0))).collect();
        if inner.is_empty() {
            if got.is_some() {
                return Err(format!("hovering at {p}, where there is neither a name nor an expression, shows {got:?}"));
            }
            cx.validated(1);
            continue;
        }
        let mut want = Vec::new();
        for e in &inner {
            let t = u.types[e.1].clone().ok_or("the reference gives an expression no type")?;
            if let Some(t) = show_type(&or.w, &u, &t, 0) {
                want.push((e.0, t));
            }
        }
        if want.len() < inner.len() {
            continue;
        }
        match &got {
            Some(g) if want.contains(g) => {}
            _ => return Err(format!("hovering over the expression at {p} shows {got:?}, should be one of {want:?}")),
        }
        cx.validated(1);
    }
    Ok(())
}

const MORE: &[Fam] = &[
    Fam {
        name: "printed_types",
        quick: 9,
        thorough: 10,
        rules: &[
            ('P', 0, "type o a = so a | no; type p a b = mk a b; type e = ee; export let f : <T> = ?h; export let g = f;"),
            ('T', 1, "int"),
            ('T', 1, "a"),
            ('T', 1, "e"),
            ('T', 1, "o <U>"),
            ('T', 1, "p <U> <U>"),
            ('T', 1, "<U> -> <T>"),
            ('U', 0, "(<T>)"),
        ],
    },
    Fam {
        name: "printed_constructors",
        quick: 8,
        thorough: 9,
        rules: &[
            ('P', 0, "type o a = so a | no; type p a b = mk <F>; export let g = mk;"),
            ('F', 0, "<G>"),
            ('F', 1, "<G> <F>"),
            ('G', 1, "rec"),
            ('G', 1, "int"),
            ('G', 1, "b"),
            ('G', 1, "(o <U>)"),
            ('G', 1, "(p <U> <U>)"),
            ('G', 1, "(<U> -> <U>)"),
            ('U', 1, "string"),
            ('U', 1, "a"),
            ('U', 1, "(o <U>)"),
            ('U', 1, "(<U> -> <U>)"),
        ],
    },
];

fn c07(cx: &mut Cx) {
    let or = Oracle::new();
    let body: &mut dyn FnMut(&mut Cx, &str) -> Result<(), String> = &mut |cx, s| c07_case(&or, cx, s);
    for f in MORE {
        family(cx, f, body);
    }
    for f in NAMES {
        let f = Fam { name: f.name, rules: f.rules, quick: f.quick, thorough: f.thorough };
        family(cx, &f, body);
    }
    for f in C09_FAMS {
        let f = Fam { name: f.name, rules: f.rules, quick: f.quick, thorough: f.thorough };
        family(cx, &f, body);
    }
}

const MEANING: &str = "a state is a distinct program, a transition one hover query, a validated trace one answer compared with the reference type checker";
const ASSUMPTIONS: &[&str] = &["answers that mention a type the program has no name for are not compared"];

pub static C07: Check = Check { id: "C07", run: c07, assumptions: ASSUMPTIONS, meaning: MEANING, hang_s: 60, mem_mb: 3000 };
