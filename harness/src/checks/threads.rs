//! C27: interleavings of concurrent compilations under a controlled scheduler.
//! Every schedule runs in a process of its own, forked before anything of the
//! compiler's process-wide state was touched.
use crate::engine::{guard, Check, Cx};
use crate::real::{self, RUNNERS};
use std::cell::Cell;
use std::collections::HashMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use ticc::sync::mc::Scheduler;
use ticc::*;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    /// Waits for something the scheduler does not know.
    Elsewhere,
    Done,
}

struct State {
    status: Vec<Status>,
    tids: Vec<i32>,
    current: usize,
    locks: HashMap<usize, usize>,
    step: u64,
    /// Steps at which another thread goes on.
    plan: Vec<(u64, usize)>,
    /// Which ready thread goes on when the current one cannot.
    last_first: bool,
    trace: Vec<(u8, u8)>,
    uncontrolled: u64,
    deadlock: bool,
}

const ACCESS: u8 = 0;
const ACQUIRE: u8 = 1;
const RELEASE: u8 = 2;

impl State {
    fn next(&mut self) {
        let mut r: Vec<usize> = (0..self.status.len()).filter(|i| self.status[*i] == Status::Ready).collect();
        if self.last_first {
            r.reverse();
        }
        match r.first() {
            Some(i) => self.current = *i,
            None => {
                self.current = usize::MAX;
                if !self.status.contains(&Status::Elsewhere) && self.status.iter().any(|s| *s != Status::Done) {
                    self.deadlock = true;
                }
            }
        }
    }
}

#[derive(Clone)]
struct Sched(Arc<(Mutex<State>, Condvar)>);

impl Sched {
    fn wait_turn(&self, me: usize) {
        let (m, cv) = &*self.0;
        let mut s = m.lock().unwrap();
        if s.status[me] == Status::Elsewhere {
            s.status[me] = Status::Ready;
            if s.current == usize::MAX {
                s.current = me;
            }
            cv.notify_all();
        }
        while s.current != me {
            s = cv.wait(s).unwrap();
        }
    }
    fn point(&self, kind: u8) {
        let me = ME.get();
        if me == usize::MAX {
            return;
        }
        self.wait_turn(me);
        let (m, cv) = &*self.0;
        let mut s = m.lock().unwrap();
        let k = s.step;
        s.step += 1;
        s.trace.push((me as u8, kind));
        if let Some(&(_, to)) = s.plan.iter().find(|p| p.0 == k) {
            if to < s.status.len() && s.status[to] == Status::Ready && to != me {
                s.current = to;
                cv.notify_all();
                drop(s);
                self.wait_turn(me);
            }
        }
    }
}

impl Scheduler for Sched {
    fn access(&self) {
        self.point(ACCESS);
    }
    fn acquire(&self, lock: usize) {
        let me = ME.get();
        if me == usize::MAX {
            return;
        }
        self.point(ACQUIRE);
        let (m, cv) = &*self.0;
        loop {
            let mut s = m.lock().unwrap();
            if !s.locks.contains_key(&lock) {
                s.locks.insert(lock, me);
                return;
            }
            s.status[me] = Status::Blocked(lock);
            s.next();
            cv.notify_all();
            drop(s);
            self.wait_turn(me);
        }
    }
    fn release(&self, lock: usize) {
        let me = ME.get();
        if me == usize::MAX {
            return;
        }
        {
            let mut s = self.0 .0.lock().unwrap();
            s.locks.remove(&lock);
            for st in &mut s.status {
                if *st == Status::Blocked(lock) {
                    *st = Status::Ready;
                }
            }
        }
        self.point(RELEASE);
    }
}

/// A lock of the explored programs themselves.
struct Shared<T> {
    sched: Option<Sched>,
    inner: Mutex<T>,
}

impl<T> Shared<T> {
    fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let a = self as *const _ as *const () as usize;
        if let Some(s) = &self.sched {
            s.acquire(a);
        }
        let r = {
            let mut g = self.inner.lock().unwrap_or_else(|e| e.into_inner());
            f(&mut g)
        };
        if let Some(s) = &self.sched {
            s.release(a);
        }
        r
    }
}

const MODULES: [(&str, &str); 3] = [
    ("m", "import opt from \"std/option\"; export let f : int -> opt.Option int = \\x -> opt.Some x; export type t = export A int | B rec; export let v = B (A 4);"),
    ("n", "import m from \"m\"; import lst from \"std/list\"; export let g : int -> m.t = \\x -> m.B (m.A x); export let h = lst.head (lst.Cons 3 lst.Nil);"),
    ("broken", "import m from \"m\"; export let x : m.t = 5; export let y : nothing = 1;"),
];

/// Compiles imported modules when they are first needed, for all threads.
struct Lib {
    units: Shared<HashMap<String, CompleteUnit>>,
    me: Mutex<std::sync::Weak<Lib>>,
}

impl ModuleResolver for Lib {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        let Some((_, src)) = MODULES.iter().find(|m| m.0 == name) else { return Err(ImportError::DoesNotExist) };
        if let Some(u) = self.units.with(|u| u.get(name).cloned()) {
            return Ok(u);
        }
        // compiled without the lock; the first one done is the module
        let r = self.me.lock().unwrap().upgrade().unwrap();
        let u = CompilationUnit::new(src, real::opts(false), r).complete();
        Ok(self.units.with(|m| m.entry(name.to_owned()).or_insert(u).clone()))
    }
}

#[derive(Clone, Copy, Debug)]
struct Job {
    name: &'static str,
    src: &'static str,
    /// Run the program, or only analyse it.
    run: bool,
}

const JOBS: [Job; 12] = [
    Job { name: "plain", src: "type t = A int | B rec; let f : a -> a = \\x -> x; export let r = f (B (A (f 1)));", run: true },
    Job { name: "wrong", src: "let x : int = true; let y : t = x; export let z = w;", run: false },
    Job { name: "option", src: "import opt from \"std/option\"; export let r = opt.map (\\x -> x + 1) (opt.Some 1);", run: true },
    Job { name: "list and option", src: "import lst from \"std/list\"; import opt from \"std/option\"; export let r : opt.Option int = opt.map (\\x -> x + 1) (lst.head (lst.Cons 1 lst.Nil));", run: true },
    Job { name: "option and list", src: "import opt from \"std/option\"; import lst from \"std/list\"; export let r : int = match lst.head (lst.Cons 1 lst.Nil) with | opt.Some x -> x | opt.None -> 0 end;", run: true },
    Job { name: "strings", src: "import str from \"std/string\"; export let r = str.concat \"a\" (str.substring 0 1 \"bc\"); export let l = str.length r;", run: true },
    Job { name: "numbers", src: "import num from \"std/int\"; import res from \"std/result\"; export let r : res.Result int num.ParseErr = num.parse \"12\"; export let s = num.toString 3;", run: true },
    Job { name: "iterate", src: "import i from \"std/intrinsics\"; export let r : int = i.iterate 3 (\\x -> x + 1) 0;", run: true },
    Job { name: "arrays", src: "import (fromList, get) from \"std/array\"; import (Cons, Nil) from \"std/list\"; export let r = get 0 (fromList (Cons 1 (Cons 2 Nil)));", run: true },
    Job { name: "shared m", src: "import m from \"m\"; import opt from \"std/option\"; export let r : int = match m.f 1 with | opt.Some x -> x | opt.None -> 0 end; export let v = m.B m.v;", run: true },
    Job { name: "shared n", src: "import n from \"n\"; import m from \"m\"; import opt from \"std/option\"; export let r : m.t = m.B (n.g 1); export let o : opt.Option int = n.h;", run: true },
    Job { name: "shared broken", src: "import b from \"broken\"; import (A) from \"m\"; export let r = b.x; let q = A b.y;", run: false },
];

fn answers(j: &Job, lib: Arc<Lib>) -> String {
    let mut o = String::new();
    for opt in if j.run { vec![false, true] } else { vec![false] } {
        let mut u = CompilationUnit::new(j.src, real::opts(opt), lib.clone());
        for d in u.diagnostics() {
            o.push_str(&format!("{}..{} {}; ", d.span.start().source_pos(), d.span.end().source_pos(), d.message));
        }
        if opt {
            u.emit_ir();
        } else {
            let ts: Vec<(Span, TokenKind)> = u.tokens().map(|t| (t.span, t.kind)).collect();
            for (s, k) in ts {
                o.push_str(&format!("{k:?}"));
                let at = s.start();
                if let Some(i) = u.info(at) {
                    o.push_str(&format!(":{}", i.doc));
                }
                if let Some(d) = u.find_definition(at) {
                    o.push_str(&format!("@{}", d.start().source_pos()));
                }
                if let Some(r) = u.find_references(at) {
                    o.push_str(&format!("#{:?}", r.iter().map(|s| s.start().source_pos()).collect::<Vec<_>>()));
                }
                o.push(' ');
            }
            o.push_str(&format!("{:?}", u.completions(Pos::new(j.src.len() as u32)).map(|c| c.into_iter().map(|c| c.name).collect::<Vec<_>>())));
        }
        if j.run {
            for r in RUNNERS {
                o.push_str(&format!("{r}: {}; ", real::run(&mut u, r)));
            }
        }
    }
    o
}

struct Outcome {
    answers: Vec<String>,
    trace: Vec<(u8, u8)>,
    deadlock: bool,
    uncontrolled: u64,
    /// What each thread waited for in the end.
    stuck: String,
}

fn tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

fn sleeping(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit_once(')').is_some_and(|(_, r)| r.trim_start().starts_with('S'))
}

/// Runs the jobs on a thread each, in the forked process.
fn child(jobs: &[usize], first: usize, last_first: bool, plan: &[(u64, usize)]) -> Vec<u8> {
    let n = jobs.len();
    let sched = Sched(Arc::new((
        Mutex::new(State {
            status: vec![Status::Ready; n],
            tids: vec![0; n],
            current: usize::MAX,
            locks: HashMap::new(),
            step: 0,
            plan: plan.to_vec(),
            last_first,
            trace: vec![],
            uncontrolled: 0,
            deadlock: false,
        }),
        Condvar::new(),
    )));
    ticc::sync::mc::set_scheduler(Box::new(sched.clone()));
    let lib = Arc::new(Lib { units: Shared { sched: Some(sched.clone()), inner: Mutex::default() }, me: Mutex::default() });
    *lib.me.lock().unwrap() = Arc::downgrade(&lib);
    let results: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    for (i, j) in jobs.iter().enumerate() {
        let (s, lib, results, j) = (sched.clone(), lib.clone(), results.clone(), JOBS[*j]);
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                ME.set(i);
                s.0 .0.lock().unwrap().tids[i] = tid();
                s.wait_turn(i);
                let r = match guard(|| answers(&j, lib)) {
                    Ok(r) => r,
                    Err(m) => format!("panic: {m}"),
                };
                results.lock().unwrap()[i] = Some(r);
                let (m, cv) = &*s.0;
                let mut st = m.lock().unwrap();
                st.status[i] = Status::Done;
                if st.current == i {
                    st.next();
                }
                cv.notify_all();
            })
            .unwrap();
    }
    let (m, cv) = &*sched.0;
    let mut s = m.lock().unwrap();
    s.current = first;
    cv.notify_all();
    let mut seen = (0, 0);
    let mut idle_since = Instant::now();
    loop {
        if s.deadlock || s.status.iter().all(|x| *x == Status::Done) {
            break;
        }
        let (g, t) = cv.wait_timeout(s, Duration::from_millis(4)).unwrap();
        s = g;
        if s.step != seen.0 {
            seen = (s.step, 0);
            idle_since = Instant::now();
            continue;
        }
        if !t.timed_out() {
            continue;
        }
        let cur = s.current;
        if cur < n && s.status[cur] == Status::Ready && s.tids[cur] != 0 {
            if sleeping(s.tids[cur]) {
                seen.1 += 1;
                if seen.1 > 5 {
                    s.status[cur] = Status::Elsewhere;
                    s.uncontrolled += 1;
                    s.next();
                    cv.notify_all();
                    seen.1 = 0;
                }
            } else {
                seen.1 = 0;
            }
        }
        if idle_since.elapsed() > Duration::from_secs(5) && s.status.iter().all(|x| *x != Status::Ready) {
            s.deadlock = true;
        }
    }
    let mut o = Vec::new();
    let mut put = |b: &[u8]| {
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(b);
    };
    let r = results.lock().unwrap();
    for x in r.iter() {
        put(x.as_deref().unwrap_or("no answer").as_bytes());
    }
    put(&s.trace.iter().flat_map(|t| [t.0, t.1]).collect::<Vec<u8>>());
    put(&[s.deadlock as u8, s.uncontrolled.min(255) as u8]);
    let names: Vec<usize> = {
        let mut v: Vec<usize> = s.locks.keys().copied().collect();
        v.sort();
        v
    };
    let show = |l: &usize| format!("lock {}", names.iter().position(|x| x == l).unwrap_or(99));
    let stuck: Vec<String> = s
        .status
        .iter()
        .enumerate()
        .map(|(i, st)| {
            let held: Vec<String> = names.iter().filter(|l| s.locks[*l] == i).map(show).collect();
            format!("thread {i} {} and holds {held:?}", match st {
                Status::Blocked(l) => format!("waits for {}", show(l)),
                Status::Elsewhere => "waits for something else".into(),
                x => format!("{x:?}"),
            })
        })
        .collect();
    put(stuck.join(", ").as_bytes());
    o
}

fn execute(jobs: &[usize], first: usize, last_first: bool, plan: &[(u64, usize)]) -> Result<Outcome, String> {
    let mut fds = [0; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
        }
        let b = child(jobs, first, last_first, plan);
        let mut k = 0;
        while k < b.len() {
            let w = unsafe { libc::write(fds[1], b[k..].as_ptr() as *const _, b.len() - k) };
            if w <= 0 {
                break;
            }
            k += w as usize;
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut b = Vec::new();
    let start = Instant::now();
    let mut timed_out = false;
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 1000) } > 0 {
            let mut buf = [0; 65536];
            match f.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => b.extend(&buf[..n]),
            }
        } else if start.elapsed() > Duration::from_secs(60) {
            timed_out = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if timed_out {
        return Err("nothing happens for a minute".into());
    }
    let mut parts = Vec::new();
    let mut i = 0;
    while i + 4 <= b.len() {
        let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        let Some(p) = b.get(i + 4..i + 4 + n) else { break };
        parts.push(p.to_vec());
        i += 4 + n;
    }
    if parts.len() != jobs.len() + 3 {
        return Err(format!("the process died (wait status {st})"));
    }
    Ok(Outcome {
        answers: parts[..jobs.len()].iter().map(|p| String::from_utf8_lossy(p).into_owned()).collect(),
        trace: parts[jobs.len()].chunks(2).map(|c| (c[0], c[1])).collect(),
        deadlock: parts[jobs.len() + 1][0] != 0,
        uncontrolled: parts[jobs.len() + 1][1] as u64,
        stuck: String::from_utf8_lossy(&parts[jobs.len() + 2]).into_owned(),
    })
}

struct Explorer {
    alone: HashMap<usize, String>,
}

impl Explorer {
    fn alone(&mut self, j: usize) -> Result<String, String> {
        if let Some(a) = self.alone.get(&j) {
            return Ok(a.clone());
        }
        let o = execute(&[j], 0, false, &[])?;
        if o.deadlock {
            return Err(format!("{:?} alone waits for ever: {}", JOBS[j].name, o.stuck));
        }
        let wrong = matches!(JOBS[j].name, "wrong" | "shared broken");
        if o.answers[0].contains("panic: ") || (!wrong && (o.answers[0].contains("undefined") || o.answers[0].contains("expected"))) {
            return Err(format!("{:?} alone: {}", JOBS[j].name, o.answers[0]));
        }
        self.alone.insert(j, o.answers[0].clone());
        Ok(o.answers[0].clone())
    }

    fn check(&mut self, cx: &mut Cx, jobs: &[usize], first: usize, last_first: bool, plan: &[(u64, usize)]) -> Result<Outcome, String> {
        cx.progress.tick();
        let what = || format!("thread {first} first, switches {plan:?} (step, thread), {} ready thread next", if last_first { "last" } else { "first" });
        let o = execute(jobs, first, last_first, plan).map_err(|e| format!("{}: {e}", what()))?;
        cx.ops(o.trace.len() as u64);
        cx.count("schedules", 1);
        cx.count("uncontrolled", o.uncontrolled);
        if o.deadlock {
            return Err(format!("{}: deadlock: {}", what(), o.stuck));
        }
        for (i, j) in jobs.iter().enumerate() {
            let want = self.alone(*j)?;
            if o.answers[i] != want {
                return Err(format!("{}: thread {i} ({}) answered {} instead of {want}", what(), JOBS[*j].name, o.answers[i]));
            }
            cx.validated(1);
        }
        cx.state(crate::engine::hash(&(jobs, &o.trace)));
        Ok(o)
    }

    /// A schedule and every way of switching at `more` further lock points;
    /// the first of them in one part of all.
    fn deeper(&mut self, cx: &mut Cx, jobs: &[usize], first: usize, lf: bool, plan: &mut Vec<(u64, usize)>, more: usize, part: (usize, usize)) -> Result<(), String> {
        let o = self.check(cx, jobs, first, lf, plan)?;
        if more == 0 || o.uncontrolled > 0 {
            return Ok(());
        }
        let from = plan.last().map(|p| p.0 + 1).unwrap_or(0);
        for (k, (t, kind)) in o.trace.iter().enumerate() {
            if (k as u64) < from || *kind == ACCESS || k % part.1 != part.0 {
                continue;
            }
            for to in 0..jobs.len() {
                if to != *t as usize {
                    plan.push((k as u64, to));
                    let r = self.deeper(cx, jobs, first, lf, plan, more - 1, (0, 1));
                    plan.pop();
                    r?;
                }
            }
        }
        Ok(())
    }
}

fn c27(cx: &mut Cx) {
    let mut e = Explorer { alone: HashMap::new() };
    let name = |js: &[usize]| js.iter().map(|j| JOBS[*j].name).collect::<Vec<_>>().join(" || ");
    cx.family("alone");
    for j in 0..JOBS.len() {
        cx.case(JOBS[j].name, |_| e.alone(j).map(|_| ()));
    }
    cx.family("two_threads");
    let d = cx.pick(1, 2);
    cx.bound("switches_at_lock_points", d);
    for a in 0..JOBS.len() {
        for b in a..JOBS.len() {
            for first in 0..2 {
                // the same with the threads swapped, or left to the thorough tier
                if a == b && first == 1 || !cx.thorough && first != (a + b) % 2 * (a != b) as usize {
                    continue;
                }
                for part in 0..4 {
                    cx.lazy(|| format!("{}, thread {first} first, part {part}", name(&[a, b])), |cx, _| e.deeper(cx, &[a, b], first, false, &mut vec![], d, (part, 4)));
                }
            }
        }
    }
    // switches at every access to a shared counter as well
    cx.family("two_threads_every_access");
    let pairs: &[(usize, usize)] = if cx.thorough { &[(0, 0), (0, 1), (1, 1), (0, 2), (2, 2), (2, 3), (3, 4), (4, 9), (5, 6), (9, 9), (9, 10), (8, 3)] } else { &[(0, 0), (0, 1), (2, 2), (4, 9)] };
    for &(a, b) in pairs {
        for first in 0..2 {
            let stretch = 40;
            for part in 0..stretch {
                cx.lazy(|| format!("{}, thread {first} first, every {stretch}th access from {part}", name(&[a, b])), |cx, _| {
                    let o = e.check(cx, &[a, b], first, false, &[])?;
                    for k in (part..o.trace.len() as u64).step_by(stretch as usize) {
                        e.check(cx, &[a, b], first, false, &[(k, 1 - o.trace[k as usize].0 as usize)])?;
                    }
                    Ok(())
                });
            }
        }
    }
    // more switches between programs that only share the counters
    cx.family("counters");
    for (a, b) in [(0, 0), (0, 1), (1, 1)] {
        for first in 0..2 {
            let n = 4;
            for part in 0..n {
                cx.lazy(|| format!("{}, thread {first} first, two switches, part {part}", name(&[a, b])), |cx, _| {
                    let o = e.check(cx, &[a, b], first, false, &[])?;
                    let l = o.trace.len().min(cx.pick(60, 200)) as u64;
                    for k in (part..l).step_by(n as usize) {
                        let to = 1 - o.trace[k as usize].0 as usize;
                        let p = e.check(cx, &[a, b], first, false, &[(k, to)])?;
                        for m in k + 1..l.min(p.trace.len() as u64) {
                            e.check(cx, &[a, b], first, false, &[(k, to), (m, 1 - p.trace[m as usize].0 as usize)])?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    cx.family("three_threads");
    let triples: Vec<[usize; 3]> = if cx.thorough {
        let mut v = Vec::new();
        for a in 2..JOBS.len() {
            for b in a..JOBS.len() {
                for c in b..JOBS.len() {
                    v.push([a, b, c]);
                }
            }
        }
        v
    } else {
        vec![[3, 4, 9], [8, 9, 10]]
    };
    for t in &triples {
        for first in 0..3 {
            for lf in [false, true] {
                if lf && !cx.thorough {
                    continue;
                }
                for part in 0..8 {
                    cx.lazy(|| format!("{}, thread {first} first, {lf}, part {part}", name(t)), |cx, _| e.deeper(cx, t, first, lf, &mut vec![], 1, (part, 8)));
                }
            }
        }
    }
}

pub static C27: Check = Check {
    id: "C27",
    run: c27,
    assumptions: &["threads only interact through the locks and atomic counters that crate::sync of the compiler wraps; a thread waiting for anything else is noticed and stepped around", "sequentially consistent memory", "interleavings are switched at lock operations and counter accesses, up to the stated numbers of preemptions"],
    meaning: "a state is a distinct interleaving, a transition one lock operation or counter access of the real compiler, a validated trace one thread whose answers were compared with those it gives alone",
    hang_s: 150,
    mem_mb: 0,
};
