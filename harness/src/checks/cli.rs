//! C28: what the command line tool does with its arguments and with files.
use super::entry::TICC;
use super::files::plain;
use crate::engine::{Check, Cx};
use crate::real;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

type Files = BTreeMap<Vec<u8>, Vec<u8>>;

/// What evaluating an accepted program gives.
#[derive(Clone)]
enum Eval {
    Text(&'static str),
    /// Stops at one of these holes.
    Stops(&'static [&'static str]),
}

#[derive(Clone)]
enum Main {
    Same,
    Stops(&'static str),
    No,
}

#[derive(Clone)]
enum Kind {
    /// There is no such file, or it is not text.
    Unreadable,
    /// Errors, in the given file.
    Bad(&'static str),
    Good(Eval, Main),
}

/// A program: files with the places where an error or a warning starts marked
/// by ⟪E⟫ and ⟪W⟫; the first file is the root.
#[derive(Clone)]
struct Prog {
    files: Vec<(&'static str, &'static str)>,
    kind: Kind,
}

type Place = (String, usize, usize);

/// The text of a file and its marked places, as line and column from one.
fn unmark(file: &str, text: &str) -> (String, BTreeSet<Place>, BTreeSet<Place>) {
    let (mut out, mut e, mut w) = (String::new(), BTreeSet::new(), BTreeSet::new());
    let mut rest = text;
    while !rest.is_empty() {
        let set = if rest.starts_with("⟪E⟫") {
            Some(&mut e)
        } else if rest.starts_with("⟪W⟫") {
            Some(&mut w)
        } else {
            None
        };
        if let Some(s) = set {
            let line = out.matches('\n').count() + 1;
            let col = out[out.rfind('\n').map_or(0, |p| p + 1)..].chars().count() + 1;
            s.insert((file.to_owned(), line, col));
            rest = &rest["⟪E⟫".len()..];
        } else {
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    (out, e, w)
}

const MAIN: &str = "export let main : string -> string = \\x -> x;\n";

fn progs() -> Vec<Prog> {
    use Eval::*;
    use Kind::*;
    let one = |t: &'static str, kind: Kind| Prog { files: vec![("p.tic", t)], kind };
    let good = |t, e, m| one(t, Good(e, m));
    let bad = |t| one(t, Bad("p.tic"));
    let with = |root: &'static str, m: &'static str, kind: Kind| Prog { files: vec![("p.tic", root), ("d/m.tic", m)], kind };
    vec![
        good("export let x = 1 + 2;\nexport let main : string -> string = \\x -> x;\n", Text("x = 3\nmain = \\_ -> _"), Main::Same),
        good("export let x = \"a b\";", Text("x = \"a b\""), Main::No),
        good("", Text(""), Main::No),
        good("-- nothing here", Text(""), Main::No),
        good("type ⟪W⟫T = ⟪W⟫A int | ⟪W⟫B; let ⟪W⟫y = 3; export let x = true; export let main : string -> string = \\⟪W⟫y -> \"out\";", Text("x = true\nmain = \\_ -> _"), Main::Stops("")),
        good("export let x = ?first; export let main : string -> string = \\x -> x;", Stops(&["first"]), Main::Stops("first")),
        good("export let main : string -> string = \\⟪W⟫x -> ?second;", Text("main = \\_ -> _"), Main::Stops("second")),
        good("export let main = 3;", Text("main = 3"), Main::No),
        with("import m from \"d/m.tic\"; export let x = m.y + 1; export let main : string -> string = m.f;", "export let y = 41; export let f : string -> string = \\x -> x;", Good(Text("x = 42\nmain = \\_ -> _"), Main::Same)),
        with("import m from \"d/m.tic\"; export let x = m.y;", "export let y : int = ?below;", Good(Stops(&["below"]), Main::Stops("below"))),
        // what an imported file only warns about does not matter
        with("import m from \"d/m.tic\"; let ⟪W⟫u = 1; export let x = m.y;", "export let y = 41; let q = 1; type T = A;", Good(Text("x = 41"), Main::No)),
        bad("export let x = ⟪E⟫;"),
        bad("export let x =⟪E⟫ "),
        bad("export let x = (1⟪E⟫"),
        bad("export let x = 1; ⟪E⟫$"),
        bad("⟪E⟫\"abc\nexport let x = 1;"),
        bad("export let x = ⟪E⟫nothing;"),
        bad("export let x = 1 + ⟪E⟫\"a\"; let ⟪W⟫y = ⟪E⟫\"b\" + 1;\nlet ⟪W⟫z = ⟪E⟫w;\n"),
        bad("type P = A string int; export let x = A \"😀é\u{301}\" ⟪E⟫\"q\"; -- é\nexport let y = A \"\t\" ⟪E⟫true;"),
        bad("-- é\r\nexport let x =\r\n\r\n  1 + ⟪E⟫true\r\n;\r\n"),
        bad("export let x = 1; import m from ⟪E⟫\"d/none.tic\";"),
        bad("import m from ⟪E⟫\"p.tic\"; export let x = 1;"),
        bad("export let main : string -> string = \\⟪W⟫x -> ⟪E⟫1;"),
        with("import m from \"d/m.tic\"; export let x = m.y;", "export let y = 41;\n-- 😀\nlet ⟪W⟫q = ⟪E⟫z;", Bad("d/m.tic")),
        with("import m from \"d/m.tic\"; export let x = ⟪E⟫m.z;", "export let y = 41;", Bad("p.tic")),
        one("export let x = 1;", Unreadable),
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    None,
    Emit,
    Eval,
    Run,
    RunStdin,
    RunMissing,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum To {
    Default,
    Stdout,
    New,
    Existing,
    NoDir,
    IsDir,
}

const INPUT: &[u8] = b"in\xff\r\nput";

struct Got {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
    before: Files,
    after: Files,
}

fn snapshot(dir: &Path, prefix: &Path, out: &mut Files) {
    for f in std::fs::read_dir(dir).unwrap() {
        let f = f.unwrap();
        let name = prefix.join(f.file_name());
        if f.file_type().unwrap().is_dir() {
            out.insert([name.as_os_str().as_bytes(), b"/"].concat(), vec![]);
            snapshot(&f.path(), &name, out);
        } else {
            out.insert(name.as_os_str().as_bytes().to_vec(), std::fs::read(f.path()).unwrap());
        }
    }
}

fn start(cx: &mut Cx, files: &[(OsString, Vec<u8>)], args: &[OsString], stdin: &[u8], full: bool) -> Result<Got, String> {
    let dir = cx.scratch.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    let top = dir.join("t");
    std::fs::create_dir_all(&top).map_err(|e| e.to_string())?;
    for (n, t) in files {
        let p = top.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
        std::fs::write(p, t).map_err(|e| e.to_string())?;
    }
    let mut before = Files::new();
    snapshot(&top, Path::new(""), &mut before);
    let (i, o, e) = (dir.join("stdin"), dir.join("stdout"), dir.join("stderr"));
    std::fs::write(&i, stdin).map_err(|e| e.to_string())?;
    let mut ch = Command::new(TICC)
        .args(args)
        .current_dir(&top)
        .stdin(std::fs::File::open(&i).unwrap())
        .stdout(if full { Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()) } else { Stdio::from(std::fs::File::create(&o).unwrap()) })
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .map_err(|e| format!("cannot start {TICC}: {e}"))?;
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(40) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the compiler does not end".into());
        }
        std::thread::sleep(Duration::from_micros(150));
    };
    cx.ops(1);
    let mut after = Files::new();
    snapshot(&top, Path::new(""), &mut after);
    let err = plain(&String::from_utf8_lossy(&std::fs::read(e).unwrap()));
    let out = if full { vec![] } else { std::fs::read(o).unwrap() };
    if st.code().is_none() || st.code() == Some(101) || err.contains("panicked") {
        return Err(format!("the compiler crashed: {}", err.lines().take(3).collect::<Vec<_>>().join(" | ")));
    }
    Ok(Got { code: st.code(), out, err, before, after })
}

/// The places of the printed diagnostics: errors and warnings.
fn printed(err: &str) -> (BTreeSet<Place>, BTreeSet<Place>) {
    let (mut e, mut w) = (BTreeSet::new(), BTreeSet::new());
    let mut kind = None;
    for l in err.lines() {
        if l.starts_with("error: ") {
            kind = Some(true);
        } else if l.starts_with("warning: ") {
            kind = Some(false);
        } else if let Some(p) = l.trim_start().strip_prefix("--> ") {
            let mut it = p.trim_end().rsplitn(3, ':');
            let (c, n, f) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            let place = (f.trim_start_matches("./").to_owned(), n.parse().unwrap_or(0), c.parse().unwrap_or(0));
            match kind.take() {
                Some(true) => e.insert(place),
                Some(false) => w.insert(place),
                None => false,
            };
        }
    }
    (e, w)
}

fn trimmed(b: &[u8]) -> &[u8] {
    let mut b = b;
    while let [h @ .., b'\n'] = b {
        b = h;
    }
    b
}

struct Setting<'a> {
    mode: Mode,
    check: bool,
    runner: Option<&'a str>,
    optimize: bool,
    no_verify: bool,
    stack: Option<&'a str>,
    time: bool,
    to: To,
}

fn arguments(s: &Setting, root: &OsStr) -> Vec<OsString> {
    let mut a: Vec<OsString> = Vec::new();
    let mut push = |t: &str| a.push(t.into());
    if s.check {
        push("--check");
    }
    match s.mode {
        Mode::None => {}
        Mode::Emit => push("--emit-ir"),
        Mode::Eval => push("--eval"),
        Mode::Run => {
            push("--run");
            push("input.txt");
        }
        Mode::RunStdin => {
            push("--run");
            push("-");
        }
        Mode::RunMissing => {
            push("--run");
            push("no-input.txt");
        }
    }
    if let Some(r) = s.runner {
        push("--runner");
        push(r);
    }
    if s.optimize {
        push("--optimize");
    }
    if s.no_verify {
        push("--no-verify");
    }
    if let Some(n) = s.stack {
        push("--stack");
        push(n);
    }
    if s.time {
        push("--time");
    }
    match s.to {
        To::Default => {}
        To::Stdout => {
            push("-o");
            push("-");
        }
        To::New => {
            push("--output");
            push("new.out");
        }
        To::Existing => {
            push("-o");
            push("old.out");
        }
        To::NoDir => {
            push("-o");
            push("none/new.out");
        }
        To::IsDir => {
            push("-o");
            push("e");
        }
    }
    a.push(root.to_owned());
    a
}

fn show(a: &[OsString]) -> String {
    a.iter().map(|x| x.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" ")
}

/// The intermediate representation of a program as the library gives it.
fn library_ir(files: &[(OsString, Vec<u8>)], optimize: bool) -> Result<String, String> {
    let src = String::from_utf8(files[0].1.clone()).unwrap();
    let mods: Vec<(String, String)> = files[1..].iter().map(|f| (f.0.to_string_lossy().into_owned(), String::from_utf8_lossy(&f.1).into_owned())).collect();
    let r: real::Res = real::mods(&mods, ticc::Options::default());
    let mut u = real::unit(&src, optimize, &r);
    Ok(u.emit_ir())
}

fn judge(g: &Got, p: &Prog, s: &Setting, files: &[(OsString, Vec<u8>)], errors: &BTreeSet<Place>, warnings: &BTreeSet<Place>, root: &OsStr, full: bool) -> Result<(), String> {
    let mut changed: Files = g.after.iter().filter(|(k, v)| g.before.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), v.clone())).collect();
    if let Some(k) = g.before.keys().find(|k| !g.after.contains_key(*k)) {
        return Err(format!("removed {}", String::from_utf8_lossy(k)));
    }
    let nothing = |why: &str| -> Result<(), String> {
        if !g.out.is_empty() {
            return Err(format!("{why}, but printed {:?}", String::from_utf8_lossy(&g.out)));
        }
        if let Some(k) = changed.keys().next() {
            return Err(format!("{why}, but wrote {}", String::from_utf8_lossy(k)));
        }
        Ok(())
    };
    let refused = |why: &str| -> Result<(), String> {
        nothing(why)?;
        if g.code == Some(0) {
            return Err(format!("{why}, but the exit code is 0"));
        }
        if g.err.is_empty() {
            return Err(format!("{why}, but nothing is reported"));
        }
        Ok(())
    };
    if s.runner.is_some_and(|r| !["bytecode", "lambda", "treewalk"].contains(&r)) {
        return refused("there is no such runner");
    }
    if s.stack.is_some_and(|n| n.parse::<usize>().is_err()) {
        return refused("the stack size is not a number");
    }
    let (eval, main) = match &p.kind {
        Kind::Unreadable => {
            refused("the source cannot be read")?;
            return if g.code == Some(1) { Ok(()) } else { Err(format!("the source cannot be read, but the exit code is {:?}", g.code)) };
        }
        Kind::Bad(_) => {
            refused("the program has errors")?;
            let (e, w) = printed(&g.err);
            if g.code != Some(1) {
                return Err(format!("the program has errors, but the exit code is {:?}", g.code));
            }
            if e != *errors || w != *warnings {
                return Err(format!("diagnostics at {e:?} and {w:?}, should be at {errors:?} and {warnings:?}"));
            }
            return Ok(());
        }
        Kind::Good(e, m) => (e, m),
    };
    let (e, w) = printed(&g.err);
    if !e.is_empty() || w != *warnings {
        return Err(format!("diagnostics at {e:?} and {w:?}, should be warnings at {warnings:?}"));
    }
    if s.check || s.mode == Mode::None {
        nothing("only a check is asked for")?;
        return if g.code == Some(0) { Ok(()) } else { Err(format!("exit code {:?}, the program is good", g.code)) };
    }
    let mut trap: Option<Vec<&str>> = None;
    // what is to be written: exact bytes, or bytes up to line ends
    let (want, exact): (Vec<u8>, bool) = match s.mode {
        Mode::Emit => (library_ir(files, s.optimize)?.into_bytes(), false),
        Mode::Eval => match eval {
            Eval::Text(t) => (t.as_bytes().to_vec(), false),
            Eval::Stops(h) => {
                trap = Some(h.to_vec());
                (vec![], false)
            }
        },
        Mode::RunMissing => {
            refused("the input cannot be read")?;
            return if g.code == Some(1) { Ok(()) } else { Err(format!("exit code {:?}", g.code)) };
        }
        _ => {
            let mut b = match main {
                Main::Same => INPUT.to_vec(),
                Main::Stops("") => b"out".to_vec(),
                Main::Stops(h) => {
                    refused("main stops")?;
                    // a program without main that stops before may say either
                    return if g.code == Some(1) && (g.err.contains(h) || g.err.contains("main")) { Ok(()) } else { Err(format!("main stops at ?{h}: exit code {:?}, {:?}", g.code, g.err)) };
                }
                Main::No => {
                    refused("there is no main function")?;
                    return if g.code == Some(1) { Ok(()) } else { Err(format!("no main: exit code {:?}", g.code)) };
                }
            };
            if matches!(s.to, To::Default | To::Stdout) {
                b.push(b'\n');
            }
            (b, true)
        }
    };
    let target: Option<Vec<u8>> = match s.to {
        To::Default if s.mode == Mode::Emit => Some(Path::new(root).with_extension("cir").as_os_str().as_bytes().to_vec()),
        To::Default | To::Stdout => None,
        To::New => Some(b"new.out".to_vec()),
        To::Existing => Some(b"old.out".to_vec()),
        To::NoDir | To::IsDir => {
            refused("the output cannot be written")?;
            let named = if s.to == To::NoDir { "none/new.out" } else { "cannot write e" };
            if !g.err.contains(named) {
                return Err(format!("the report does not name the output: {:?}", g.err));
            }
            return if g.code == Some(1) { Ok(()) } else { Err(format!("the output cannot be written, but the exit code is {:?}", g.code)) };
        }
    };
    if full && target.is_none() {
        refused("the standard output cannot be written")?;
        return Ok(());
    }
    let got = match &target {
        None => g.out.clone(),
        Some(t) => {
            let Some(b) = changed.remove(t) else { return Err(format!("{} is not written", String::from_utf8_lossy(t))) };
            if !g.out.is_empty() {
                return Err(format!("also printed {:?}", String::from_utf8_lossy(&g.out)));
            }
            b
        }
    };
    if let Some(k) = changed.keys().next() {
        return Err(format!("also wrote {}", String::from_utf8_lossy(k)));
    }
    if let Some(h) = trap {
        let t = format!("{}{}", String::from_utf8_lossy(&got), g.err);
        return if h.iter().any(|h| t.contains(h)) && !t.contains(" = ") { Ok(()) } else { Err(format!("stops at one of {h:?}, but gave {t:?}")) };
    }
    if g.code != Some(0) {
        return Err(format!("exit code {:?}: {:?}", g.code, g.err));
    }
    let same = if exact { got == want } else { trimmed(&got) == trimmed(&want) };
    if !same {
        return Err(format!("gave {:?}, should be {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want)));
    }
    let timed = g.err.lines().filter(|l| l.starts_with("time: ")).count();
    if s.mode != Mode::Emit && timed != s.time as usize || s.mode == Mode::Emit && !s.time && timed > 0 {
        return Err(format!("the time is printed {timed} times"));
    }
    Ok(())
}

fn one(cx: &mut Cx, p: &Prog, s: &Setting, root: &OsStr, full: bool) -> Result<(), String> {
    let mut files = Vec::new();
    let (mut errors, mut warnings) = (BTreeSet::new(), BTreeSet::new());
    for (i, (n, t)) in p.files.iter().enumerate() {
        let name: OsString = if i == 0 { root.to_owned() } else { n.into() };
        let shown = name.to_string_lossy().into_owned();
        let (t, e, w) = unmark(&shown, t);
        let reported = match p.kind {
            Kind::Bad(f) => f == *n,
            _ => i == 0,
        };
        if reported {
            errors = e;
            warnings = w;
        }
        files.push((name, t.into_bytes()));
    }
    let program = files.clone();
    if matches!(p.kind, Kind::Unreadable) {
        files.remove(0);
    }
    files.push(("input.txt".into(), INPUT.to_vec()));
    files.push(("old.out".into(), b"what was there before, longer than most results; ".repeat(40)));
    files.push(("e/kept.txt".into(), b"kept".to_vec()));
    let a = arguments(s, root);
    let g = start(cx, &files, &a, INPUT, full)?;
    judge(&g, p, s, &program, &errors, &warnings, root, full).map_err(|m| format!("{m} (exit {:?}, errors {:?})", g.code, g.err.chars().take(600).collect::<String>()))?;
    cx.validated(1);
    Ok(())
}

fn case(cx: &mut Cx, p: &Prog, s: &Setting, root: &OsStr, full: bool) {
    cx.lazy(|| format!("ticc {}{}\n{}", show(&arguments(s, root)), if full { " > /dev/full" } else { "" }, p.files.iter().map(|f| format!("{}: {}\n", f.0, unmark("", f.1).0)).collect::<String>()), |cx, _| one(cx, p, s, root, full));
}

const BASE: Setting = Setting { mode: Mode::Eval, check: false, runner: None, optimize: false, no_verify: false, stack: None, time: false, to: To::Default };

fn c28(cx: &mut Cx) {
    let progs = progs();
    let root = OsStr::new("p.tic");
    let runners: &[Option<&str>] = &[None, Some("bytecode"), Some("lambda"), Some("treewalk"), Some("fast"), Some("")];
    let modes = [Mode::None, Mode::Emit, Mode::Eval, Mode::Run, Mode::RunStdin, Mode::RunMissing];
    let tos = [To::Default, To::Stdout, To::New, To::Existing, To::NoDir, To::IsDir];
    // no verification, stack, time: all combinations, or each on its own
    let rest: Vec<(bool, Option<&str>, bool)> = if cx.thorough {
        let mut v = Vec::new();
        for n in [false, true] {
            for s in [None, Some("64"), Some("x")] {
                for t in [false, true] {
                    v.push((n, s, t));
                }
            }
        }
        v
    } else {
        vec![(false, None, false), (true, Some("64"), true)]
    };
    cx.family("arguments");
    cx.bound("arguments_programs", progs.len());
    for p in &progs {
        for mode in modes {
            for check in [false, true] {
                for &runner in runners {
                    for optimize in [false, true] {
                        for &(no_verify, stack, time) in &rest {
                            for to in tos {
                                let s = Setting { mode, check, runner, optimize, no_verify, stack, time, to };
                                case(cx, p, &s, root, false);
                            }
                        }
                    }
                }
            }
        }
    }
    // the standard output is full
    cx.family("full_output");
    for p in &progs {
        for mode in modes {
            for to in [To::Default, To::Stdout, To::New] {
                // nothing or a line feed: whether that is an error is not decided here
                let s = Setting { mode, to, ..BASE };
                case(cx, p, &s, root, true);
            }
        }
    }
    // how the source file is named
    cx.family("names");
    let mut names: Vec<OsString> = ["q.tic", "q", "q.b.tic", "q.cir.tic", ".q", ".q.tic", "q.", "sp ace.tic", "é😀.tic", "dir/q.tic", "dir.x/q", "dir/../q.tic", "./q.tic", "dir//q.tic", "a,b;c.tic", "q.TIC", "q.txt", "'q'.tic", "p=q.tic"].iter().map(|s| s.into()).collect();
    names.push(OsString::from_vec(b"\xff\xfe.tic".to_vec()));
    for n in &names {
        for p in progs.iter().filter(|p| p.files.len() == 1 && !p.files[0].1.contains("p.tic")) {
            for mode in [Mode::None, Mode::Emit, Mode::Eval, Mode::Run] {
                for to in [To::Default, To::Stdout, To::New] {
                    let s = Setting { mode, to, ..BASE };
                    cx.lazy(|| format!("{n:?}: ticc {}\n{}", show(&arguments(&s, n)), p.files[0].1), |cx, _| named(cx, p, &s, n));
                }
            }
        }
    }
    // sources that are not text
    cx.family("not_text");
    for bytes in [&b"export let x = 1; -- \xff"[..], b"\xff\xfe", b"\xed\xa0\x80", b"export let x = \"\xc3", b"\x80 export let x = 1;"] {
        for imported in [false, true] {
            for mode in modes {
                for check in [false, true] {
                    for to in tos {
                        let s = Setting { mode, check, to, ..BASE };
                        cx.lazy(|| format!("{bytes:?} imported {imported}: ticc {}", show(&arguments(&s, root))), |cx, _| {
                            let mut files: Vec<(OsString, Vec<u8>)> = if imported { vec![("p.tic".into(), b"import m from \"m.tic\"; export let x = 2;".to_vec()), ("m.tic".into(), bytes.to_vec())] } else { vec![("p.tic".into(), bytes.to_vec())] };
                            files.push(("input.txt".into(), INPUT.to_vec()));
                            files.push(("e/kept.txt".into(), b"kept".to_vec()));
                            files.push(("old.out".into(), b"old".to_vec()));
                            let g = start(cx, &files, &arguments(&s, root), INPUT, false)?;
                            if g.code != Some(1) || !g.out.is_empty() || g.after != g.before || g.err.is_empty() {
                                return Err(format!("the source is not text: exit {:?}, printed {:?}, {:?}", g.code, String::from_utf8_lossy(&g.out), g.err));
                            }
                            cx.validated(1);
                            Ok(())
                        });
                    }
                }
            }
        }
    }
    // the stack option gives room for deep recursion
    cx.family("stack");
    let deep: &[usize] = if cx.thorough { &[10, 100, 1000, 5000, 10_000, 20_000] } else { &[10, 5000, 10_000] };
    for n in deep {
        for k in ["bytecode", "lambda", "treewalk"] {
            for optimize in [false, true] {
                for mode in [Mode::Eval, Mode::Run] {
                    cx.lazy(|| format!("--stack 1024, {k}, {n} deep, optimize {optimize}, {mode:?}"), |cx, _| {
                        let src = format!("import l from \"std/list\"; import i from \"std/int\"; export let f : int -> int = \\n -> l.sum (l.range 0 n); export let v = f {n};\nexport let main : string -> string = \\x -> if v == f {n} then i.toString v else x;");
                        let sum = n * (n - 1) / 2;
                        let want = if mode == Mode::Eval { format!("f = \\_ -> _\nv = {sum}\nmain = \\_ -> _") } else { format!("{sum}") };
                        let s = Setting { mode, runner: Some(k), optimize, stack: Some("1024"), ..BASE };
                        let g = start(cx, &[("p.tic".into(), src.into_bytes()), ("input.txt".into(), INPUT.to_vec())], &arguments(&s, root), INPUT, false)?;
                        if g.code != Some(0) || trimmed(&g.out) != want.as_bytes() {
                            return Err(format!("exit {:?}, printed {:?}, should be {want:?}", g.code, String::from_utf8_lossy(&g.out)));
                        }
                        cx.validated(1);
                        Ok(())
                    });
                }
            }
        }
    }
    cx.family("stack_sizes");
    for p in &progs {
        for n in ["1", "2", "7", "100", "1000000000", "17592186044415", "17592186044416", "18446744073709551615"] {
            for mode in modes {
                for k in ["bytecode", "lambda", "treewalk"] {
                    let large = n.len() > 4;
                    let s = Setting { mode, runner: Some(k), stack: Some(n), ..BASE };
                    cx.lazy(|| format!("ticc {}\n{}", show(&arguments(&s, root)), p.files[0].1), |cx, _| match one(cx, p, &s, root, false) {
                        // more memory than there is: refusing is fine, crashing is not
                        Err(m) if large && !m.contains("crashed") && !m.contains("wrote") => Ok(()),
                        r => r,
                    });
                }
            }
        }
    }
    // numbers and flags that cannot be read
    cx.family("bad_arguments");
    for p in progs.iter().step_by(4) {
        for extra in [&["--stack", "x"][..], &["--stack", "-1"], &["--stack", ""], &["--stack", "18446744073709551616"], &["--stack"], &["--runner", "Bytecode"], &["--runner", "jitt"], &["--runner"], &["--nothing"], &["--run"], &["second.tic"], &["-q"], &["--eval", "--eval"], &["--output"]] {
            for mode in [Mode::None, Mode::Emit, Mode::Eval, Mode::RunStdin] {
                let s = Setting { mode, ..BASE };
                let mut a = arguments(&s, root);
                a.extend(extra.iter().map(|x| x.into()));
                cx.lazy(|| format!("ticc {}\n{}", show(&a), p.files[0].1), |cx, _| {
                    let g = start(cx, &[("p.tic".into(), unmark("", p.files[0].1).0.into_bytes())], &a, INPUT, false)?;
                    if g.code == Some(0) || !g.out.is_empty() || g.after != g.before || g.err.is_empty() {
                        return Err(format!("arguments that cannot be read: exit {:?}, printed {:?}, {:?}", g.code, String::from_utf8_lossy(&g.out), g.err));
                    }
                    cx.validated(1);
                    Ok(())
                });
            }
        }
    }
}

/// A program under another file name.
fn named(cx: &mut Cx, p: &Prog, s: &Setting, name: &OsStr) -> Result<(), String> {
    let (text, e, w) = unmark("", p.files[0].1);
    let mut files: Vec<(OsString, Vec<u8>)> = vec![(name.to_owned(), text.into_bytes()), ("dir/x".into(), vec![]), ("input.txt".into(), INPUT.to_vec())];
    // the path as the file system has it
    let tidy: OsString = match name.as_bytes() {
        b"dir/../q.tic" | b"./q.tic" => "q.tic".into(),
        b"dir//q.tic" => "dir/q.tic".into(),
        _ => name.to_owned(),
    };
    files[0].0 = tidy.clone();
    let program = vec![files[0].clone()];
    if matches!(p.kind, Kind::Unreadable) {
        files.remove(0);
    }
    let g = start(cx, &files, &arguments(s, name), INPUT, false)?;
    // the printed name: whatever precedes the position has to name the file
    let mut g = g;
    let shown = name.to_string_lossy().into_owned();
    g.err = g.err.replace(&format!("--> {shown}:"), "--> :");
    judge(&g, p, s, &program, &e, &w, &tidy, false).map_err(|m| format!("{m} (exit {:?}, errors {:?})", g.code, g.err.chars().take(600).collect::<String>()))?;
    cx.validated(1);
    Ok(())
}

pub static C28: Check = Check {
    id: "C28",
    run: c28,
    assumptions: &["what several of --emit-ir, --eval and --run together mean, and the exit code of an evaluation that stops, are not decided", "the jit runner only exists on windows"],
    meaning: "a state is a distinct command line with its files, a transition one run of the command line tool, a validated trace one run whose exit code, output, diagnostics and effect on the directory were compared with the model",
    hang_s: 90,
    mem_mb: 6000,
};
