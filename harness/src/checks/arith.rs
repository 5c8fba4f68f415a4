//! C25: literals and arithmetic at every edge.
use crate::engine::{Check, Cx};
use crate::real::{self, Out, RUNNERS};

const OPS: [&str; 11] = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="];

fn wrap(x: i128) -> u64 {
    x.rem_euclid(1i128 << 64) as u64
}

/// The value of an operation, by wide arithmetic.
fn value(o: &str, a: u64, b: u64) -> Result<u64, bool> {
    let (x, y) = (a as i128, b as i128);
    match o {
        "+" => Ok(wrap(x + y)),
        "-" => Ok(wrap(x - y)),
        // low half of the product by halves
        "*" => {
            let (ah, al, bh, bl) = (a >> 32, a & 0xffff_ffff, b >> 32, b & 0xffff_ffff);
            let low = al as u128 * bl as u128;
            let mid = (ah as u128 * bl as u128 + al as u128 * bh as u128) & 0xffff_ffff;
            Ok(((low + (mid << 32)) & 0xffff_ffff_ffff_ffff) as u64)
        }
        "/" => Ok(if b == 0 { 0 } else { wrap(x.div_euclid(y)) }),
        "%" => Ok(if b == 0 { a } else { wrap(x.rem_euclid(y)) }),
        "<" => Err(x < y),
        "<=" => Err(x <= y),
        ">" => Err(x > y),
        ">=" => Err(x >= y),
        "==" => Err(x == y),
        _ => Err(x != y),
    }
}

fn show(v: Result<u64, bool>) -> String {
    match v {
        Ok(n) => n.to_string(),
        Err(b) => b.to_string(),
    }
}

fn edges(thorough: bool) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, 100, 10_000_000_000_000_000_000, 12_345_678_901_234_567_890, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
    let ks: Vec<u32> = if thorough { (1..64).collect() } else { vec![6, 7, 8, 14, 15, 16, 30, 31, 32, 33, 47, 48, 52, 53, 61, 62, 63] };
    for k in ks {
        for d in [0, 1, u64::MAX] {
            v.push((1u64 << k).wrapping_add(d));
        }
    }
    v.extend([u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX / 3]);
    v.sort();
    v.dedup();
    v
}

fn want(cx: &mut Cx, src: &str, want: &str, modes: &[bool]) -> Result<(), String> {
    for &o in modes {
        let mut u = real::unit(src, o, &real::none());
        let e = real::errors(&mut u);
        if !e.is_empty() {
            return Err(format!("rejected: {e:?}"));
        }
        for r in RUNNERS {
            let got = real::run(&mut u, r);
            cx.ops(1);
            if got != Out::Val(want.to_owned()) {
                let Out::Val(g) = &got else { return Err(format!("{r} (optimize: {o}) {got}")) };
                let (g, w) = g.lines().zip(want.lines()).find(|(g, w)| g != w).unwrap_or((g, want));
                return Err(format!("{r} (optimize: {o}) printed {g:?} where {w:?} is right"));
            }
            cx.validated(1);
        }
    }
    Ok(())
}

const BOTH: [bool; 2] = [false, true];

/// Checks a program of exported definitions against the expected lines.
pub fn lines(cx: &mut Cx, head: &str, defs: &[(String, String)], modes: &[bool]) {
    cx.lazy(
        || {
            let mut s = head.to_owned();
            let mut w = String::new();
            for (i, (e, v)) in defs.iter().enumerate() {
                s.push_str(&format!("export let r{i} = {e};\n"));
                w.push_str(&format!("r{i} = {v}\n"));
            }
            format!("{s}\u{0}{w}")
        },
        |cx, t| {
            let (s, w) = t.split_once('\u{0}').unwrap();
            want(cx, s, w, modes)
        },
    );
}

fn literal(cx: &mut Cx, text: &str) {
    cx.case(text, |cx| {
        let src = format!("export let r = {text};");
        let mut u = real::unit(&src, true, &real::none());
        let errs = real::errors(&mut u);
        cx.ops(1);
        // exact decimal value, by carrying digits
        let mut v: Option<u128> = Some(0);
        for c in text.bytes() {
            v = v.and_then(|v| (v * 10).checked_add((c - b'0') as u128)).filter(|v| *v < 1 << 64);
        }
        match v {
            Some(v) => {
                if !errs.is_empty() {
                    return Err(format!("rejected: {errs:?}"));
                }
                want(cx, &src, &format!("r = {v}\n"), &BOTH)
            }
            None if errs.is_empty() => Err("accepted a literal that does not fit into 64 bits".into()),
            None => Ok(()),
        }
    });
}

fn c25(cx: &mut Cx) {
    let thorough = cx.pick(0, 1) == 1;
    let es = edges(thorough);
    cx.bound("edge_operands", es.len());
    cx.family("literals");
    for &e in &es {
        for zeros in ["", "0", "00", "0000000000000000000000"] {
            literal(cx, &format!("{zeros}{e}"));
        }
    }
    // every digit string around 2^64 and one digit longer or shorter
    let near = "18446744073709551616";
    for p in 0..near.len() {
        for d in 0..10 {
            let t = format!("{}{d}{}", &near[..p], &near[p + 1..]);
            literal(cx, &t);
            literal(cx, &near[..p + 1]);
            literal(cx, &format!("{t}{d}"));
            literal(cx, &format!("{d}{t}"));
        }
    }
    for n in [21, 22, 25, 38, 39, 40, 60, 100, 300] {
        for d in ["1", "2", "9", "0"] {
            literal(cx, &d.repeat(n));
            literal(cx, &format!("1{}", "0".repeat(n)));
            literal(cx, &format!("{}{d}", "0".repeat(n)));
        }
    }
    // anything glued to a number
    for t in ["1a", "0x10", "1_000", "1e5", "1.5", "1.", ".5", "-1", "+1", "0b1", "1u", "1__", "12ab34", "1 2", "1é"] {
        cx.case(t, |cx| {
            cx.ops(1);
            let mut u = real::unit(&format!("export let r : int = {t};"), true, &real::none());
            if real::errors(&mut u).is_empty() { Err("accepted".into()) } else { Ok(()) }
        });
    }
    cx.family("pairs");
    for &a in &es {
        for &b in &es {
            let mut defs = Vec::new();
            for o in OPS {
                let v = show(value(o, a, b));
                defs.push((format!("{a} {o} {b}"), v.clone()));
                defs.push((format!("(\\x -> x {o} {b}) {a}"), v.clone()));
                defs.push((format!("(\\x -> {a} {o} x) {b}"), v.clone()));
                defs.push((format!("(\\x -> \\y -> x {o} y) {a} {b}"), v.clone()));
                defs.push((format!("get (va) {o} get (vb)"), v.clone()));
                if let Err(t) = value(o, a, b) {
                    defs.push((format!("if {a} {o} {b} then 1 else 2"), (2 - t as u64).to_string()));
                    defs.push((format!("if get va {o} get vb then 1 else 2"), (2 - t as u64).to_string()));
                    defs.push((format!("(\\x -> if x {o} {b} then 1 else 2) (get va)"), (2 - t as u64).to_string()));
                }
            }
            lines(cx, &format!("type W = W int; let get : W -> int = \\fold w -> match w with | W x -> x end; let va : W = W {a}; let vb : W = W {b};\n"), &defs, &BOTH);
        }
    }
    // nested operations on a smaller set of operands
    let small: &[u64] = if thorough { &[0, 1, 2, 3, 7, 1 << 31, 1 << 32, 1 << 63, (1 << 63) - 1, u64::MAX - 1, u64::MAX] } else { &[0, 1, 2, 7, 1 << 32, 1 << 63, u64::MAX] };
    cx.family("nested");
    cx.bound("nested_operands", small.len());
    for &a in small {
        for &b in small {
            for &c in small {
                let mut defs = Vec::new();
                for p in &OPS[..5] {
                    for o in OPS {
                        let l = value(o, value(p, a, b).unwrap(), c);
                        let r = value(o, a, value(p, b, c).unwrap());
                        defs.push((format!("({a} {p} {b}) {o} {c}"), show(l)));
                        defs.push((format!("{a} {o} ({b} {p} {c})"), show(r)));
                        defs.push((format!("f (\\x -> \\y -> \\z -> if (x {p} y) {o} z {} then y {p} x else z {p} y) {a} {b} {c}", if l.is_ok() { "!= 0" } else { "" }), {
                            let t = match l {
                                Ok(n) => n != 0,
                                Err(b) => b,
                            };
                            show(if t { value(p, b, a) } else { value(p, c, b) })
                        }));
                        defs.push((format!("(\\x -> {a} {o} (x {p} {c})) {b}"), show(r)));
                        defs.push((format!("(\\x -> (x {p} {b}) {o} {c}) {a}"), show(l)));
                    }
                }
                lines(cx, "let f : (int -> int -> int -> int) -> int -> int -> int -> int = \\g -> \\x -> \\y -> \\z -> g x y z;\n", &defs, &BOTH);
            }
        }
    }
    // laws an optimiser may use, on operands it cannot see
    cx.family("laws");
    for &a in &es {
        let mut defs = Vec::new();
        let z = [0u64, 1, 2, u64::MAX, 1 << 63];
        for o in OPS {
            for k in z {
                defs.push((format!("o (\\x -> x {o} {k}) {a}"), show(value(o, a, k))));
                defs.push((format!("o (\\x -> {k} {o} x) {a}"), show(value(o, k, a))));
            }
            defs.push((format!("o (\\x -> x {o} x) {a}"), show(value(o, a, a))));
            defs.push((format!("o (\\x -> (x + 1) {o} x) {a}"), show(value(o, a.wrapping_add(1), a))));
        }
        let defs: Vec<_> = defs.into_iter().map(|(e, v)| (if v == "true" || v == "false" { e.replacen("o (", "p (", 1) } else { e }, v)).collect();
        lines(cx, "let o : (int -> int) -> int -> int = \\g -> \\x -> g x; let p : (int -> bool) -> int -> bool = \\g -> \\x -> g x;\n", &defs, &BOTH);
    }
    cx.family("text");
    for &a in &es {
        let mut defs = Vec::new();
        defs.push((format!("i.intToString {a}"), format!("\"{a}\"")));
        defs.push((format!("i.stringLength (i.intToString {a})"), a.to_string().len().to_string()));
        let c = (a & 255) as u8;
        let shown = match c {
            b'\n' => "\\n".to_owned(),
            b'\r' => "\\r".to_owned(),
            32..=126 => (c as char).to_string(),
            _ => format!("\\x{c:02x}"),
        };
        defs.push((format!("i.stringFromChar {a}"), format!("\"{shown}\"")));
        defs.push((format!("i.stringCharAt 0 (i.stringFromChar {a})"), c.to_string()));
        for &b in &es {
            let s = "abcdef";
            defs.push((format!("i.stringSubstring {a} {b} \"{s}\""), {
                let (x, y) = ((a as u128).min(6), (a as u128 + b as u128).min(6));
                format!("\"{}\"", &s[x as usize..y as usize])
            }));
        }
        defs.push((format!("i.stringCharAt {a} \"abcdef\""), if a < 6 { (b'a' + a as u8).to_string() } else { "0".into() }));
        if a <= 100 {
            defs.push((format!("i.iterate {a} (\\x -> x * 3 + 1) 1"), {
                let mut x = 1u64;
                for _ in 0..a {
                    x = x.wrapping_mul(3).wrapping_add(1);
                }
                x.to_string()
            }));
        }
        lines(cx, "import i from \"std/intrinsics\";\n", &defs, &BOTH);
    }
    cx.family("characters");
    for c in 0..=600u64 {
        let v = c % 256;
        lines(cx, "import i from \"std/intrinsics\";\n", &[(format!("i.stringCharAt 0 (i.stringFromChar {c})"), v.to_string()), (format!("i.stringLength (i.stringConcat (i.stringFromChar {c}) (i.stringFromChar 0))"), "2".into()), (format!("i.stringCharAt 0 (i.stringSubstring 1 1 (i.stringConcat \"x\" (i.stringFromChar {c})))"), v.to_string())], &BOTH);
    }
}

pub static C25: Check = Check {
    id: "C25",
    run: c25,
    assumptions: &["the jit runner only exists on windows and is not part of the exploration", "operands are the edge values listed, not all 64 bit values"],
    meaning: "a state is a distinct program (up to a few hundred operations on fixed operands) or literal, a transition one run by the real code, a validated trace one run whose whole output was compared with wide arithmetic",
    hang_s: 60,
    mem_mb: 3000,
};
