//! C18: import graphs on disk, through the command line tool.
use super::entry::TICC;
use crate::engine::{Check, Cx};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// A set of files: path below the root and imports, as (text, target path or
/// `None` when there is no such file).
#[derive(Clone)]
struct File {
    path: String,
    imports: Vec<(String, Option<usize>)>,
    hole: bool,
}

pub struct Out {
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

fn ticc(dir: &Path, cwd: &Path, args: &[&str]) -> Result<Out, String> {
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let mut ch = Command::new(TICC)
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .map_err(|e| format!("cannot start {TICC}: {e}"))?;
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("the compiler does not end".into());
        }
        std::thread::sleep(Duration::from_micros(150));
    };
    let text = |p| String::from_utf8_lossy(&std::fs::read(p).unwrap()).into_owned();
    Ok(Out { code: st.code(), stdout: text(&o), stderr: text(&e) })
}

pub fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn name(i: usize) -> char {
    (b'p' + i as u8) as char
}

/// The text of a file: its imports and a value made of the imported ones. With
/// `uses` off the imports are not used, so that a failing import is the only
/// error.
fn text(fs: &[File], i: usize, uses: bool) -> (String, Vec<(usize, usize)>) {
    let mut s = String::new();
    let mut at = Vec::new();
    for (k, (t, _)) in fs[i].imports.iter().enumerate() {
        s.push_str(&format!("import {} from ", name(k)));
        // line and column, from 1
        at.push((k + 1, s.len() - s.rfind('\n').map_or(0, |p| p + 1) + 1));
        s.push_str(&format!("\"{t}\";\n"));
    }
    if fs[i].hole {
        s.push_str(&format!("let _h = ?hole{i};\n"));
    }
    s.push_str(&format!("export let v : int = {}", 7 * i + 1));
    if uses {
        for k in 0..fs[i].imports.len() {
            s.push_str(&format!(" + {}.v * {}", name(k), k + 2));
        }
        s.push_str(";\nexport type t = export c int");
        // types of a file imported twice are the same type
        for k in 0..fs[i].imports.len() {
            for j in 0..k {
                if fs[i].imports[k].1 == fs[i].imports[j].1 {
                    s.push_str(&format!(";\nexport let w{j}{k} : {}.t -> int = \\x -> match x with | {}.c y -> y end", name(j), name(k)));
                }
            }
        }
    }
    s.push_str(";\n");
    (s, at)
}

/// What the compiler has to do with file 0.
#[derive(Debug, PartialEq)]
enum Want {
    Errors(usize, BTreeSet<(usize, bool)>),
    Value(u64),
    Hole(usize),
}

fn model(fs: &[File]) -> Want {
    struct M<'a> {
        fs: &'a [File],
        done: BTreeMap<usize, u64>,
        first: Option<(usize, BTreeSet<(usize, bool)>)>,
        hole: Option<usize>,
    }
    fn visit(m: &mut M, i: usize, stack: &mut Vec<usize>) -> BTreeSet<(usize, bool)> {
        stack.push(i);
        let mut errs = BTreeSet::new();
        let mut v = 7 * i as u64 + 1;
        for (k, (_, t)) in m.fs[i].imports.iter().enumerate() {
            match t {
                None => {
                    errs.insert((k, false));
                }
                Some(t) if stack.contains(t) => {
                    errs.insert((k, true));
                }
                Some(t) => {
                    if !m.done.contains_key(t) {
                        let e = visit(m, *t, stack);
                        if !e.is_empty() && m.first.is_none() {
                            m.first = Some((*t, e));
                        }
                    }
                    v = v.wrapping_add(m.done[t].wrapping_mul(k as u64 + 2));
                }
            }
        }
        if m.fs[i].hole && m.hole.is_none() {
            m.hole = Some(i);
        }
        m.done.insert(i, v);
        stack.pop();
        errs
    }
    let mut m = M { fs, done: BTreeMap::new(), first: None, hole: None };
    let e = visit(&mut m, 0, &mut Vec::new());
    match m.first {
        Some((f, e)) => Want::Errors(f, e),
        None if !e.is_empty() => Want::Errors(0, e),
        None => match m.hole {
            Some(h) => Want::Hole(h),
            None => Want::Value(m.done[&0]),
        },
    }
}

fn describe(fs: &[File]) -> String {
    fs.iter().map(|f| format!("{}{}: {}\n", f.path, if f.hole { " (hole)" } else { "" }, f.imports.iter().map(|i| i.0.as_str()).collect::<Vec<_>>().join(" "))).collect()
}

fn run(cx: &mut Cx, fs: &[File], cwd: &str, root: &str, args: &[&str]) -> Result<(), String> {
    let want = model(fs);
    let uses = !matches!(want, Want::Errors(..));
    let dir = cx.scratch.join("files");
    let _ = std::fs::remove_dir_all(&dir);
    let top = dir.join("t");
    std::fs::create_dir_all(top.join("d/e")).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(top.join("f")).map_err(|e| e.to_string())?;
    let mut texts = Vec::new();
    for i in 0..fs.len() {
        let (t, at) = text(fs, i, uses);
        std::fs::write(top.join(&fs[i].path), &t).map_err(|e| e.to_string())?;
        texts.push((t, at));
    }
    let root = root.replace("$TOP", top.to_str().unwrap());
    let mut a = vec![&root[..], "--eval"];
    a.extend(args);
    let cwd = top.join(cwd);
    let o = ticc(&dir, &cwd, &a)?;
    cx.ops(1);
    let err = plain(&o.stderr);
    if o.code.is_none() || err.contains("panicked") {
        return Err(format!("the compiler crashed: {}", err.lines().take(3).collect::<Vec<_>>().join(" | ")));
    }
    let fail = |w: String| Err(format!("{w}: exit {:?}, printed {:?}, errors {:?}", o.code, o.stdout, err.chars().take(800).collect::<String>()));
    let got_errors = err.lines().filter(|l| l.starts_with("error")).count();
    match &want {
        Want::Value(v) => {
            if o.code != Some(0) || got_errors > 0 || !o.stdout.starts_with(&format!("v = {v}\n")) {
                return fail(format!("should print v = {v}"));
            }
        }
        Want::Hole(h) => {
            let hit = o.stdout.contains(&format!("hole{h}")) || err.contains(&format!("hole{h}"));
            if got_errors > 0 || !hit && !args.contains(&"--optimize") {
                return fail(format!("should stop at ?hole{h}"));
            }
        }
        Want::Errors(f, es) => {
            // every error names its file, line and column
            let mut got = BTreeSet::new();
            let mut kind = None;
            for l in err.lines() {
                if let Some(m) = l.strip_prefix("error: ") {
                    kind = Some(if m.contains("import cycle") { Some(true) } else if m.contains("cannot find module") || m.contains("failed to read module") { Some(false) } else { None });
                } else if let Some(p) = l.trim_start().strip_prefix("--> ") {
                    let Some(k) = kind.take() else { continue };
                    let mut it = p.trim().rsplitn(3, ':');
                    let (c, n, p) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    let here = std::fs::canonicalize(cwd.join(p)).ok();
                    let want_file = std::fs::canonicalize(top.join(&fs[*f].path)).ok();
                    let pos = (n.parse().unwrap_or(0usize), c.parse().unwrap_or(0usize));
                    let at = texts[*f].1.iter().position(|x| *x == pos);
                    let (Some(k), true, Some(at)) = (k, here == want_file, at) else { return fail(format!("unexpected error, there should be ones at imports {es:?} of {}", fs[*f].path)) };
                    got.insert((at, k));
                }
            }
            if o.code != Some(1) || got != *es {
                return fail(format!("should report imports {es:?} (true: cycle) of {}, reported {got:?}", fs[*f].path));
            }
        }
    }
    cx.validated(1);
    Ok(())
}

/// The relative path from one file to another.
fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let same = f[..f.len() - 1].iter().zip(&t[..t.len() - 1]).take_while(|(a, b)| a == b).count();
    let mut out: Vec<&str> = vec![".."; f.len() - 1 - same];
    out.extend(&t[same..]);
    out.join("/")
}

/// Other spellings of a relative path, for a file in the given directory.
fn spellings(from: &str, to: &str) -> Vec<String> {
    let r = relative(from, to);
    let up = match from.matches('/').count() {
        0 => "d/..",
        1 => "../f/../d",
        _ => "../../d/e",
    };
    let mut v = vec![r.clone(), format!("./{r}"), format!("././{r}"), format!("{up}/{r}"), r.replacen('/', "//", 1), r.replacen('/', "/./", 1), format!("./{up}/./{r}")];
    v.dedup();
    v
}

fn files(paths: &[&str]) -> Vec<File> {
    paths.iter().map(|p| File { path: p.to_string(), imports: vec![], hole: false }).collect()
}

fn graph(cx: &mut Cx, fs: &[File], cwd: &str, root: &str, args: &[&str]) {
    cx.lazy(|| format!("in {cwd:?}: ticc {root} --eval {}\n{}", args.join(" "), describe(fs)), |cx, _| run(cx, fs, cwd, root, args));
}

fn c18(cx: &mut Cx) {
    cx.family("graphs_of_3");
    let three = ["a.tic", "b.tic", "d/c.tic"];
    let targets = |from: &str, paths: &[&str], mask: usize| -> Vec<(String, Option<usize>)> {
        let mut v: Vec<(String, Option<usize>)> = (0..paths.len()).filter(|t| mask >> t & 1 == 1).map(|t| (relative(from, paths[t]), Some(t))).collect();
        if mask >> paths.len() & 1 == 1 {
            v.push(("no/such.tic".into(), None));
        }
        v
    };
    for m in 0..16usize.pow(3) {
        let mut fs = files(&three);
        for (i, f) in fs.iter_mut().enumerate() {
            f.imports = targets(three[i], &three, m >> (4 * i) & 15);
        }
        graph(cx, &fs, ".", "a.tic", &[]);
    }
    cx.family("graphs_of_4");
    let four = ["d/a.tic", "b.tic", "d/e/c.tic", "f/a.tic"];
    let most = cx.pick(2, 4);
    cx.bound("graphs_of_4_imports_per_file", most);
    let masks: Vec<usize> = (0..16usize).filter(|m| m.count_ones() as usize <= most).collect();
    for w in super::stdlib::words(&masks, 4).into_iter().filter(|w| w.len() == 4) {
        let mut fs = files(&four);
        for (i, f) in fs.iter_mut().enumerate() {
            f.imports = targets(four[i], &four, w[i]);
            // the other order in every second file
            if i % 2 == 1 {
                f.imports.reverse();
            }
        }
        graph(cx, &fs, ".", "d/a.tic", &[]);
    }
    // spellings of every edge in small shapes
    cx.family("spellings");
    for a in ["a.tic", "d/a.tic", "d/e/a.tic"] {
        for b in ["b.tic", "d/b.tic", "d/e/b.tic"] {
            let (ab, ba, aa, bb) = (spellings(a, b), spellings(b, a), spellings(a, a), spellings(b, b));
            let mut both = |ai: Vec<(String, Option<usize>)>, bi: Vec<(String, Option<usize>)>| {
                let mut fs = files(&[a, b]);
                fs[0].imports = ai;
                fs[1].imports = bi;
                graph(cx, &fs, ".", a, &[]);
            };
            for x in &ab {
                both(vec![(x.clone(), Some(1))], vec![]);
                for y in &ab {
                    both(vec![(x.clone(), Some(1)), (y.clone(), Some(1))], vec![]);
                }
                for y in &ba {
                    both(vec![(x.clone(), Some(1))], vec![(y.clone(), Some(0))]);
                    both(vec![(x.clone(), Some(1)), (x.clone(), Some(1))], vec![(y.clone(), Some(0)), (y.clone(), Some(0))]);
                }
                for y in &bb {
                    both(vec![(x.clone(), Some(1))], vec![(y.clone(), Some(1))]);
                }
                both(vec![(format!("{x}x"), None), (x.clone(), Some(1))], vec![]);
            }
            for x in &aa {
                both(vec![(x.clone(), Some(0))], vec![]);
            }
        }
    }
    cx.family("spellings_of_3");
    for (sa, sb, sc) in [("a.tic", "d/b.tic", "d/e/c.tic"), ("d/e/a.tic", "b.tic", "f/c.tic"), ("d/a.tic", "d/b.tic", "d/c.tic")] {
        for x in spellings(sa, sb) {
            for y in spellings(sa, sc) {
                for z in spellings(sb, sc) {
                    let mut fs = files(&[sa, sb, sc]);
                    fs[0].imports = vec![(x.clone(), Some(1)), (y.clone(), Some(2))];
                    fs[1].imports = vec![(z.clone(), Some(2))];
                    graph(cx, &fs, ".", sa, &[]);
                    for back in spellings(sc, sa).into_iter().take(4) {
                        let mut fs = fs.clone();
                        fs[2].imports = vec![(back, Some(0))];
                        graph(cx, &fs, ".", sa, &[]);
                    }
                    let mut fs = fs.clone();
                    fs[2].imports = vec![(spellings(sc, sb).pop().unwrap(), Some(1))];
                    graph(cx, &fs, ".", sa, &[]);
                }
            }
        }
    }
    // how the root is named and from where
    cx.family("root_spellings");
    for (cwd, roots) in [(".", vec!["d/a.tic", "./d/a.tic", "d/../d/a.tic", "d//a.tic", "$TOP/d/a.tic", "$TOP/f/../d/a.tic"]), ("d", vec!["a.tic", "./a.tic", "../d/a.tic", "e/../a.tic"]), ("f", vec!["../d/a.tic", "$TOP/d/e/../a.tic"])] {
        for root in roots {
            for x in spellings("d/a.tic", "b.tic") {
                for (y, t) in spellings("b.tic", "d/a.tic").into_iter().map(|s| (s, 0)).chain(spellings("b.tic", "d/e/c.tic").into_iter().map(|s| (s, 2))) {
                    let mut fs = files(&["d/a.tic", "b.tic", "d/e/c.tic"]);
                    fs[0].imports = vec![(x.clone(), Some(1))];
                    fs[1].imports = vec![(y, Some(t))];
                    graph(cx, &fs, cwd, root, &[]);
                }
            }
            let mut fs = files(&["d/a.tic"]);
            fs[0].imports = vec![("a.tic".into(), Some(0))];
            graph(cx, &fs, cwd, root, &[]);
        }
    }
    // things that are not readable source files
    cx.family("unreadable");
    for t in ["", ".", "..", "d", "d/", "no", "a", "a.tic/", "d/a.tic", "../no.tic", "a.tic.bak", "/", "std/no", "A.tic", " b.tic", "b.tic "] {
        let mut fs = files(&["a.tic", "b.tic"]);
        fs[0].imports = vec![("b.tic".into(), Some(1)), (t.into(), None)];
        if t == "a.tic/" {
            continue;
        }
        graph(cx, &fs, ".", "a.tic", &[]);
        fs.swap(0, 1);
        fs[1].imports = vec![(t.into(), None)];
        fs[0].imports = vec![("a.tic".into(), Some(1))];
        graph(cx, &fs, ".", "b.tic", &[]);
    }
    // evaluation in dependency order, seen through holes
    cx.family("holes");
    for m in 0..8usize.pow(3) {
        for h in 1..8usize {
            let mut fs = files(&three);
            for (i, f) in fs.iter_mut().enumerate() {
                f.imports = targets(three[i], &three, m >> (3 * i) & 7);
                f.hole = h >> i & 1 == 1;
            }
            if matches!(model(&fs), Want::Hole(_)) {
                graph(cx, &fs, ".", "a.tic", &[]);
                graph(cx, &fs, ".", "a.tic", &["--runner", "treewalk"]);
            }
        }
    }
    // sizes: chains, layers in which every file imports the whole next layer
    cx.family("large");
    let n = cx.pick(60, 200);
    cx.bound("chain_length", n);
    for len in [1, 2, 10, n] {
        for close in [None, Some(0), Some(len / 2), Some(len)] {
            let paths: Vec<String> = (0..=len).map(|i| format!("{}m{i}.tic", ["", "d/", "f/"][i % 3])).collect();
            let p: Vec<&str> = paths.iter().map(|s| s.as_str()).collect();
            let mut fs = files(&p);
            for i in 0..len {
                fs[i].imports = vec![(relative(p[i], p[i + 1]), Some(i + 1))];
            }
            if let Some(c) = close {
                fs[len].imports = vec![(relative(p[len], p[c]), Some(c))];
            }
            graph(cx, &fs, ".", "m0.tic", &[]);
        }
    }
    let n = cx.pick(20, 30);
    cx.bound("layers", n);
    for layers in [3, n] {
        let paths: Vec<String> = (0..=2 * layers).map(|i| format!("{}m{i}.tic", ["", "d/", "f/"][i % 3])).collect();
        let p: Vec<&str> = paths.iter().map(|s| s.as_str()).collect();
        let mut fs = files(&p);
        for i in 0..2 * layers - 1 {
            let next = (i + 1) / 2 * 2 + 1;
            for t in [next, next + 1] {
                if t < p.len() {
                    fs[i].imports.push((relative(p[i], p[t]), Some(t)));
                }
            }
        }
        graph(cx, &fs, ".", "m0.tic", &[]);
    }
}

pub static C18: Check = Check {
    id: "C18",
    run: c18,
    assumptions: &["the file system of the sandbox; symbolic links are not explored", "errors are read from the command line tool, which prints those of the first failing file"],
    meaning: "a state is a distinct set of files with a root and a working directory, a transition one run of the command line tool, a validated trace one run whose exit code, output and error positions were compared with the graph model",
    hang_s: 60,
    mem_mb: 3000,
};
