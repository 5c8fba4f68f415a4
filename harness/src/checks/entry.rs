//! C23: the program entry.
use crate::engine::{Check, Cx};
use crate::oracle::{Oracle, Verdict};
use crate::real::{self, RUNNERS};
use crate::refimpl::check::{DK, NS, T};
use crate::refimpl::eval::{self, Stop};
use std::process::{Command, Stdio};
use ticc::InterpretError;

pub const TICC: &str = "/verif/target/repo/release/ticc";

#[derive(Clone, PartialEq, Debug)]
enum Want {
    Bytes(Vec<u8>),
    Trap,
    /// No main; a constructor of that name may count as a wrong one.
    None(bool),
    Wrong,
    Any,
}

fn reference(or: &Oracle, u: &std::rc::Rc<crate::refimpl::check::Unit>, input: &[u8]) -> Result<Want, String> {
    let Some(&s) = u.exports.get(&(NS::Value, "main".to_owned())) else { return Ok(Want::None(false)) };
    let kind = or.w.borrow().syms[s].kind.clone();
    let DK::Value { vars, ty } = kind else {
        // a constructor of that name after a value of that name: whether the
        // value still is the entry is not decided here
        let earlier = u.defs.iter().any(|d| d.name == "main" && d.vis == crate::refimpl::check::Vis::Export && matches!(or.w.borrow().syms[d.sym].kind, DK::Value { .. }));
        return Ok(if earlier { Want::Any } else { Want::None(true) });
    };
    let string_fn = vars.is_empty() && matches!(&ty, Some(T::Fn(a, b)) if matches!((&**a, &**b), (T::Str, T::Str)));
    if !string_fn {
        return Ok(Want::Wrong);
    }
    match eval::run_main(&or.w, u, input, 2_000_000) {
        Ok(b) => Ok(Want::Bytes(b)),
        Err(Stop::Trap(_)) => Ok(Want::Trap),
        Err(Stop::Fuel) => Err("the reference does not finish".into()),
    }
}

fn case(or: &Oracle, cx: &mut Cx, src: &str, inputs: &[&[u8]]) -> Result<(), String> {
    or.reset();
    let u = match or.compile(src) {
        Verdict::Ok(u) => u,
        Verdict::Syntax => return Err("the generated program has a syntax error".into()),
        Verdict::Errors(_) => {
            // not accepted: nothing is promised about running it
            let mut r = real::unit(src, true, &real::none());
            cx.ops(1);
            return if real::has_errors(&mut r) { Ok(()) } else { Err("an erroneous program is accepted".into()) };
        }
    };
    for input in inputs {
        let want = reference(or, &u, input)?;
        for o in [false, true] {
            let mut r = real::unit(src, o, &real::none());
            let e = real::errors(&mut r);
            if !e.is_empty() {
                return Err(format!("rejected: {e:?}"));
            }
            for k in RUNNERS {
                let got = r.interpret_main(k, input);
                cx.ops(1);
                let same = match (&got, &want) {
                    (Ok(b), Want::Bytes(w)) => b == w,
                    (Err(InterpretError::Trap(_)), Want::Trap) => true,
                    // an unneeded hole may be dropped
                    (Ok(_), Want::Trap) => o,
                    (Err(InterpretError::NoMain), Want::None(_)) => true,
                    (Err(InterpretError::InvalidMain), Want::None(ctor)) => *ctor,
                    (Err(InterpretError::InvalidMain), Want::Wrong) | (_, Want::Any) => true,
                    _ => false,
                };
                if !same {
                    let got = got.map(|b| format!("output {:?}", String::from_utf8_lossy(&b))).unwrap_or_else(|e| format!("refused or stopped: {e}"));
                    return Err(format!("{k} (optimize: {o}) on input {:?}: {got}, should be {want:?}", String::from_utf8_lossy(input)));
                }
                cx.validated(1);
            }
        }
    }
    Ok(())
}

const DECLS: &[&str] = &[
    "export let main : string -> string = \\x -> x;",
    "export let main : string -> string = \\x -> s.concat x \"!\";",
    "let main : string -> string = \\x -> \"no\";",
    "export let main : string = \"s\";",
    "export let main : int -> string = \\x -> \"s\";",
    "export let main : string -> int = \\x -> s.length x;",
    "export let main : string -> string -> string = \\x -> \\y -> x;",
    "export let main : a -> a = \\x -> x;",
    "let main = 3;",
    "export let main = \\x -> s.concat x x;",
    "export let main : string -> string = ?hole;",
    "export let main : string -> string = \\x -> ?hole;",
    "export type main = A | B;",
    "type T = export main string | B;",
    "import main from \"std/int\";",
    "import (min, max) from \"std/int\";",
    "export let other : string -> string = \\main -> main;",
    "export let main : string -> string = let main = \\y -> s.concat y \"?\"; \\x -> main (main x);",
    "let f : string -> string = \\x -> s.concat \"f\" x; export let main : string -> string = f;",
    "export let r = ?hole2;",
];

const BODIES: &[(&str, &str)] = &[
    ("x", "x"),
    ("", "\"\""),
    ("x", "s.concat # \"ab\""),
    ("x", "s.concat # #"),
    ("x", "s.substring 1 2 #"),
    ("x", "s.substring 0 (s.length # - 1) #"),
    ("x", "s.fromChar (s.charAt 0 #)"),
    ("x", "n.toString (s.length #)"),
    ("x", "s.trim #"),
    ("x", "l.join \"-\" (l.map n.toString (s.chars #))"),
    ("x", "l.join s.newline (s.lines #)"),
    ("x", "s.foldChars \"\" (\\acc -> \\c -> s.concat (s.fromChar c) acc) #"),
    ("x", "if s.equal # \"a\" then s.newline else #"),
    ("x", "match n.parse # with | r.Ok v -> n.toString (v + 1) | r.Err e -> \"bad\" end"),
    ("x", "if s.length # < 2 then ?small else #"),
];

fn cli(cx: &mut Cx, src: &str, input: &[u8], from_stdin: bool, extra: &[&str]) -> Result<(Option<i32>, Vec<u8>, Vec<u8>, Option<Vec<u8>>), String> {
    use std::io::Write;
    let dir = cx.scratch.join("entry");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let p = |n: &str| dir.join(n);
    std::fs::write(p("p.tic"), src).unwrap();
    std::fs::write(p("in"), input).unwrap();
    let inp = p("in");
    let mut c = Command::new(TICC);
    c.arg(p("p.tic")).args(extra).arg("--run").arg(if from_stdin { std::path::Path::new("-") } else { &inp });
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = p("out");
    if from_stdin {
        c.arg("-o").arg(&out);
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot start {TICC}: {e}"))?;
    {
        let mut i = ch.stdin.take().unwrap();
        let data = if from_stdin { input.to_vec() } else { vec![] };
        std::thread::spawn(move || {
            let _ = i.write_all(&data);
        });
    }
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    cx.ops(1);
    Ok((o.status.code(), o.stdout, o.stderr, std::fs::read(out).ok()))
}

fn c23(cx: &mut Cx) {
    let or = Oracle::new();
    let all: Vec<u8> = (0..=255).collect();
    let long: Vec<u8> = (0..70_000u32).map(|i| (i % 251) as u8).collect();
    let inputs: [&[u8]; 4] = [b"", b"a", b"12\nb", &all];
    let head = "import s from \"std/string\"; ";
    let depth = cx.pick(3, 4);
    cx.family("declarations");
    cx.bound("declarations_length", depth);
    for w in super::stdlib::words(&(0..DECLS.len()).collect::<Vec<_>>(), depth) {
        let imports = w.iter().filter(|i| **i == 14 || **i == 15).count();
        if imports > 1 {
            continue;
        }
        cx.lazy(
            || {
                let mut t = String::from(head);
                for i in &w {
                    t.push_str(DECLS[*i]);
                    t.push(' ');
                }
                t
            },
            |cx, s| case(&or, cx, s, &inputs[1..2]),
        );
    }
    cx.family("bodies");
    let depth = cx.pick(2, 3);
    cx.bound("bodies_depth", depth);
    let mut exprs: Vec<String> = vec!["x".into()];
    let mut layer = exprs.clone();
    for _ in 0..depth {
        let mut next = Vec::new();
        for e in &layer {
            for (_, b) in &BODIES[1..] {
                let t = b.replace('#', &format!("({e})"));
                if t.len() < 2000 {
                    next.push(t);
                }
            }
        }
        exprs.extend(next.iter().cloned());
        layer = next;
    }
    let ins: [&[u8]; 8] = [b"", b"a", b" a ", b"41", b"x\r\ny\n", b"\x00", b"\xff\xfe", &all];
    for e in &exprs {
        cx.lazy(|| format!("import s from \"std/string\"; import n from \"std/int\"; import l from \"std/list\"; import r from \"std/result\"; export let main : string -> string = \\x -> {e};"), |cx, s| case(&or, cx, s, &ins));
    }
    cx.family("inputs");
    for (e, f) in [("x", 0), ("s.concat x x", 1), ("s.substring 1 (s.length x) x", 2)] {
        for n in 0..=256usize {
            for data in [vec![b'z'; n], long[n..n + n.min(3)].to_vec(), if n == 256 { long.clone() } else { vec![n as u8] }] {
                cx.lazy(|| format!("import s from \"std/string\"; export let main : string -> string = \\x -> {e};\u{0}{}", data.iter().map(|b| format!("{b:02x}")).collect::<String>()), |cx, t| {
                    let src = t.split_once('\u{0}').unwrap().0;
                    let want = match f {
                        0 => data.clone(),
                        1 => [&data[..], &data].concat(),
                        _ => data.get(1..).unwrap_or(b"").to_vec(),
                    };
                    for o in [false, true] {
                        let mut r = real::unit(src, o, &real::none());
                        for k in RUNNERS {
                            cx.ops(1);
                            match r.interpret_main(k, &data) {
                                Ok(b) if b == want => cx.validated(1),
                                Ok(_) => return Err(format!("{k} (optimize: {o}): wrong output bytes")),
                                Err(e) => return Err(format!("{k} (optimize: {o}): {e}")),
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    cx.family("command_line");
    let mut data: Vec<Vec<u8>> = (0..=255u8).step_by(cx.pick(5, 1)).map(|b| vec![b]).collect();
    data.extend([vec![], all.clone(), long.clone(), b"a\r\nb\n".to_vec(), "é😀".as_bytes().to_vec(), b"\xe9\xff\n".to_vec()]);
    for d in data {
        for k in ["bytecode", "lambda", "treewalk"] {
            for opt in [&[][..], &["--optimize"][..]] {
                cx.lazy(|| format!("{k} {opt:?} {}", d.iter().map(|b| format!("{b:02x}")).collect::<String>()), |cx, _| {
                    let mut args = vec!["--runner", k];
                    args.extend(opt);
                    let src = "import s from \"std/string\"; export let main : string -> string = \\x -> s.concat x \"<\";";
                    let want = [&d[..], b"<"].concat();
                    let (code, _, err, file) = cli(cx, src, &d, true, &args)?;
                    if code != Some(0) || file.as_deref() != Some(&want[..]) {
                        return Err(format!("from standard input to a file: exit {code:?}, {:?} bytes, {}", file.map(|f| f.len()), String::from_utf8_lossy(&err)));
                    }
                    let (code, out, err, _) = cli(cx, src, &d, false, &args)?;
                    if code != Some(0) || out != [&want[..], b"\n"].concat() {
                        return Err(format!("from a file to standard output: exit {code:?}, {:?}, {}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&err)));
                    }
                    cx.validated(2);
                    Ok(())
                });
            }
        }
    }
    cx.family("command_line_refusals");
    for (i, d) in DECLS.iter().enumerate() {
        cx.lazy(|| format!("import s from \"std/string\"; {d}"), |cx, s| {
            or.reset();
            let Verdict::Ok(u) = or.compile(s) else { return Ok(()) };
            let want = reference(&or, &u, b"q")?;
            let (code, out, err, _) = cli(cx, s, b"q", false, &[])?;
            let err = String::from_utf8_lossy(&err);
            let good = match &want {
                Want::Bytes(b) => code == Some(0) && out == [&b[..], b"\n"].concat(),
                Want::Trap => code == Some(1) && err.contains("hole"),
                Want::None(false) => code == Some(1) && err.contains("main function is not defined"),
                Want::Wrong => code == Some(1) && err.contains("`string -> string`"),
                Want::Any => true,
                Want::None(true) => code == Some(1) && err.contains("main function"),
            };
            cx.validated(1);
            if good { Ok(()) } else { Err(format!("declaration {i}: exit {code:?}, output {:?}, {err:?}, should be {want:?}", String::from_utf8_lossy(&out))) }
        });
    }
}

pub static C23: Check = Check {
    id: "C23",
    run: c23,
    assumptions: &["the jit runner only exists on windows and is not part of the exploration", "when the output goes to the terminal the command line tool adds a line feed"],
    meaning: "a state is a distinct program (with inputs), a transition one run by the real code or command line tool, a validated trace one run whose outcome was compared",
    hang_s: 60,
    mem_mb: 3000,
};
