//! The exploration engine: deterministic enumeration of cases, sharded over
//! worker processes, with crash, hang and panic attribution to the exact case.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::{Duration, Instant};

pub const TEXT_MAX: usize = 1 << 16;
const PAGE: usize = TEXT_MAX + 64;

/// Shared memory a worker writes its progress to and its parent reads.
pub struct Progress {
    p: *mut u8,
}
unsafe impl Send for Progress {}

impl Progress {
    pub fn open(path: &std::path::Path) -> Progress {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("progress file");
        f.set_len(PAGE as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), PAGE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Progress { p: p as *mut u8 }
    }
    fn word(&self, i: usize) -> &std::sync::atomic::AtomicU64 {
        unsafe { &*(self.p.add(i * 8) as *const std::sync::atomic::AtomicU64) }
    }
    pub fn set(&self, index: u64, text: &str) {
        use std::sync::atomic::Ordering::SeqCst;
        let n = text.len().min(TEXT_MAX);
        self.word(1).store(0, SeqCst);
        unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), self.p.add(64), n) };
        self.word(0).store(index + 1, SeqCst);
        self.word(1).store(n as u64 + 1, SeqCst);
        self.tick();
    }
    /// Marks that no case is running.
    pub fn idle(&self) {
        self.word(3).store(1, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn tick(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        self.word(3).store(0, SeqCst);
        self.word(2).fetch_add(1, SeqCst);
    }
    pub fn ticks(&self) -> u64 {
        self.word(2).load(std::sync::atomic::Ordering::SeqCst)
    }
    pub fn is_idle(&self) -> bool {
        self.word(3).load(std::sync::atomic::Ordering::SeqCst) == 1
    }
    pub fn get(&self) -> Option<(u64, String)> {
        use std::sync::atomic::Ordering::SeqCst;
        let i = self.word(0).load(SeqCst);
        if i == 0 {
            return None;
        }
        let n = self.word(1).load(SeqCst).saturating_sub(1) as usize;
        let s = unsafe { std::slice::from_raw_parts(self.p.add(64), n) };
        Some((i - 1, String::from_utf8_lossy(s).into_owned()))
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

#[derive(Default)]
pub struct Counters {
    pub n: BTreeMap<String, u64>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub index: u64,
    pub case: String,
    pub message: String,
}

pub struct Cx {
    pub id: String,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub resume: u64,
    pub only: Option<u64>,
    pub scratch: PathBuf,
    pub progress: Progress,
    pub index: u64,
    pub counters: Counters,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub errors: u64,
    pub family: String,
    pub fam_start: Instant,
    pub fam_time: BTreeMap<String, (u64, f64)>,
    pub bounds: BTreeMap<String, String>,
    pub max_violations: usize,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.n.entry(k.to_owned()).or_insert(0) += n;
    }
    /// Operations performed on the real implementation.
    pub fn ops(&mut self, n: u64) {
        self.count("transitions", n);
    }
    /// Executions of the real implementation compared with the model.
    pub fn validated(&mut self, n: u64) {
        self.count("validated", n);
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn pick(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn bound(&mut self, k: &str, v: impl std::fmt::Display) {
        self.bounds.insert(k.to_owned(), v.to_string());
    }
    /// Starts a named family of cases.
    pub fn family(&mut self, name: &str) {
        let now = Instant::now();
        let old = std::mem::replace(&mut self.family, name.to_owned());
        let d = now.duration_since(self.fam_start).as_secs_f64();
        self.fam_time.entry(old).or_insert((0, 0.0)).1 += d;
        self.fam_start = now;
    }
    pub fn done(&self) -> bool {
        self.violations.len() >= self.max_violations
    }
    /// Would the next case be ours? Lets generators skip building its text.
    pub fn mine(&self) -> bool {
        if let Some(o) = self.only {
            return self.index == o;
        }
        self.index >= self.resume && self.index % self.shards == self.shard
    }
    pub fn skip(&mut self) {
        self.index += 1;
    }
    /// Runs one case. `Err` is a violation of the property.
    pub fn case(&mut self, text: &str, f: impl FnOnce(&mut Cx) -> Result<(), String>) {
        if !self.mine() || self.done() {
            self.index += 1;
            return;
        }
        let index = self.index;
        self.index += 1;
        self.progress.set(index, text);
        self.states.insert(hash(text));
        let fam = self.family.clone();
        self.fam_time.entry(fam).or_insert((0, 0.0)).0 += 1;
        if self.samples.len() < 3 || (self.samples.len() < 12 && index % 997 < self.shards) {
            let mut t = text.to_owned();
            if t.len() > 400 {
                t.truncate((0..=400).rev().find(|i| t.is_char_boundary(*i)).unwrap());
                t.push_str("...");
            }
            self.samples.push(format!("[{}] {t}", self.family));
        }
        let r = match guard(|| f(self)) {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {m}")),
        };
        self.progress.idle();
        if let Err(message) = r {
            self.violations.push(Violation { index, case: text.to_owned(), message });
        }
    }
    /// A case whose text is only built when it is ours.
    pub fn lazy(&mut self, text: impl FnOnce() -> String, f: impl FnOnce(&mut Cx, &str) -> Result<(), String>) {
        if !self.mine() || self.done() {
            self.index += 1;
            return;
        }
        let t = text();
        self.case(&t, |cx| f(cx, &t));
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn unjson(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'u' => {
                let h: String = (0..4).filter_map(|_| it.next()).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}

/// Known findings: `finding: property=C01 case=<json string> <description>`.
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let Ok(text) = std::fs::read_to_string("/verif/known-findings.txt") else { return v };
    for l in text.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={id} case=")) else { continue };
        // the json string ends at the first unescaped quote
        let b = r.as_bytes();
        let mut i = 1;
        while i < b.len() && b[i] != b'"' {
            i += if b[i] == b'\\' { 2 } else { 1 };
        }
        if let Some(c) = r.get(..=i).and_then(unjson) {
            v.push((c, r[i + 1..].trim().to_owned()));
        }
    }
    v
}

pub type CheckFn = fn(&mut Cx);

pub struct Check {
    pub id: &'static str,
    pub run: CheckFn,
    pub assumptions: &'static [&'static str],
    /// What one state and one transition of this exploration are.
    pub meaning: &'static str,
    /// Seconds without progress inside one case after which it counts as a hang.
    pub hang_s: u64,
    /// Address space limit of a worker in MB; 0 for none.
    pub mem_mb: u64,
}

fn write_result(cx: &Cx, path: &std::path::Path, finished: bool) {
    let mut o = String::new();
    for (k, v) in &cx.counters.n {
        o.push_str(&format!("count {k} {v}\n"));
    }
    for (k, v) in &cx.bounds {
        o.push_str(&format!("bound {k} {}\n", json_str(v)));
    }
    for (k, v) in &cx.fam_time {
        o.push_str(&format!("family {} {} {}\n", k.replace(' ', "_"), v.0, v.1));
    }
    for s in &cx.samples {
        o.push_str(&format!("sample {}\n", json_str(s)));
    }
    for v in &cx.violations {
        o.push_str(&format!("violation {} {} {}\n", v.index, json_str(&v.case), json_str(&v.message)));
    }
    o.push_str(&format!("cases {}\n", cx.index));
    if finished {
        o.push_str("finished\n");
    }
    std::fs::write(path, o).unwrap();
    let mut h: Vec<u8> = Vec::with_capacity(cx.states.len() * 8);
    for s in &cx.states {
        h.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(path.with_extension("states"), h).unwrap();
}

pub struct WorkerArgs {
    pub shard: u64,
    pub shards: u64,
    pub resume: u64,
    pub only: Option<u64>,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub tag: String,
}

pub fn worker(check: &'static Check, a: WorkerArgs) {
    install_panic_hook();
    let run = move || {
        let progress = Progress::open(&a.scratch.join(format!("{}.progress", a.tag)));
        progress.idle();
        let mut cx = Cx {
            id: check.id.to_owned(),
            thorough: a.thorough,
            shard: a.shard,
            shards: a.shards,
            resume: a.resume,
            only: a.only,
            scratch: a.scratch.join(format!("{}.d", a.tag)),
            progress,
            index: 0,
            counters: Counters::default(),
            states: HashSet::new(),
            samples: vec![],
            violations: vec![],
            errors: 0,
            family: "setup".into(),
            fam_start: Instant::now(),
            fam_time: BTreeMap::new(),
            bounds: BTreeMap::new(),
            max_violations: 4,
        };
        std::fs::create_dir_all(&cx.scratch).unwrap();
        (check.run)(&mut cx);
        cx.family("end");
        write_result(&cx, &a.scratch.join(format!("{}.out", a.tag)), true);
    };
    if check.mem_mb > 0 {
        let l = libc::rlimit { rlim_cur: check.mem_mb << 20, rlim_max: check.mem_mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
    let run = move || {
        if let Err(m) = guard(run) {
            eprintln!("{m}");
            std::process::exit(101);
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().unwrap();
}

struct Running {
    child: std::process::Child,
    progress: Progress,
    tag: String,
    shard: u64,
    last: (u64, Instant),
    restarts: u32,
}

fn spawn(id: &str, shard: u64, shards: u64, resume: u64, thorough: bool, scratch: &std::path::Path, tag: &str, only: Option<u64>) -> std::process::Child {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(id).arg(shard.to_string()).arg(shards.to_string()).arg(resume.to_string());
    c.arg(if thorough { "thorough" } else { "quick" }).arg(scratch).arg(tag);
    c.arg(only.map(|o| o.to_string()).unwrap_or_else(|| "-".into()));
    c.stdin(std::process::Stdio::null());
    let log = std::fs::File::create(scratch.join(format!("{tag}.log"))).unwrap();
    c.stdout(log.try_clone().unwrap()).stderr(log);
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().expect("worker")
}

/// Runs a whole check. Returns the process exit code.
pub fn parent(check: &'static Check, thorough: bool, seed: u64, only: Option<u64>) -> i32 {
    let start = Instant::now();
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8) as u64;
    let shards = if only.is_some() { 1 } else { cpus.clamp(2, 16) };
    let scratch = PathBuf::from(format!("/verif/target/scratch/{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut run: Vec<Running> = Vec::new();
    for shard in 0..shards {
        let tag = format!("w{shard}_0");
        let progress = Progress::open(&scratch.join(format!("{tag}.progress")));
        let child = spawn(check.id, shard, shards, 0, thorough, &scratch, &tag, only);
        run.push(Running { child, progress, tag, shard, last: (0, Instant::now()), restarts: 0 });
    }
    let mut tags: Vec<String> = Vec::new();
    let mut viol: Vec<Violation> = Vec::new();
    let mut broken: Vec<String> = Vec::new();
    let known = known_findings(check.id);
    // with a crash or hang to report, the rest is not waited for
    let mut stop_at: Option<Instant> = None;
    while !run.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        if stop_at.is_some_and(|t| Instant::now() > t) {
            for r in &mut run {
                unsafe { libc::kill(-(r.child.id() as i32), libc::SIGKILL) };
                let _ = r.child.wait();
            }
            break;
        }
        let mut i = 0;
        while i < run.len() {
            let r = &mut run[i];
            let t = r.progress.ticks();
            if t != r.last.0 || r.progress.is_idle() {
                r.last = (t, Instant::now());
            }
            let hung = r.last.1.elapsed().as_secs() > check.hang_s;
            let mut died: Option<String> = None;
            if hung {
                unsafe { libc::kill(-(r.child.id() as i32), libc::SIGKILL) };
                let _ = r.child.wait();
                died = Some(format!("no answer within {} s", check.hang_s));
            } else if let Ok(Some(st)) = r.child.try_wait() {
                unsafe { libc::kill(-(r.child.id() as i32), libc::SIGKILL) };
                if st.success() {
                    tags.push(r.tag.clone());
                    run.swap_remove(i);
                    continue;
                }
                use std::os::unix::process::ExitStatusExt;
                let log = std::fs::read_to_string(scratch.join(format!("{}.log", r.tag))).unwrap_or_default();
                let log: String = log.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                died = Some(match st.signal() {
                    Some(s) => format!("the process died of signal {s}: {log}"),
                    None => format!("the process exited with {:?}: {log}", st.code()),
                });
            }
            if let Some(m) = died {
                tags.push(r.tag.clone());
                match r.progress.get() {
                    Some((index, case)) if !r.progress.is_idle() => {
                        if stop_at.is_none() && !known.iter().any(|k| k.0 == case) {
                            stop_at = Some(Instant::now() + Duration::from_secs(30));
                        }
                        viol.push(Violation { index, case, message: m });
                        if r.restarts < 3 && only.is_none() {
                            r.restarts += 1;
                            r.tag = format!("w{}_{}", r.shard, r.restarts);
                            r.progress = Progress::open(&scratch.join(format!("{}.progress", r.tag)));
                            r.child = spawn(check.id, r.shard, shards, index + 1, thorough, &scratch, &r.tag, only);
                            r.last = (0, Instant::now());
                            i += 1;
                        } else {
                            run.swap_remove(i);
                        }
                    }
                    _ => {
                        broken.push(m);
                        run.swap_remove(i);
                    }
                }
                continue;
            }
            i += 1;
        }
    }
    // merge
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut bounds: BTreeMap<String, String> = BTreeMap::new();
    let mut fams: BTreeMap<String, (u64, f64)> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut enumerated = 0;
    for t in &tags {
        let Ok(o) = std::fs::read_to_string(scratch.join(format!("{t}.out"))) else { continue };
        for l in o.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "count" => {
                    let (k, v) = rest.split_once(' ').unwrap();
                    *counters.entry(k.to_owned()).or_insert(0) += v.parse::<u64>().unwrap();
                }
                "bound" => {
                    let (k, v) = rest.split_once(' ').unwrap();
                    bounds.insert(k.to_owned(), unjson(v).unwrap_or_default());
                }
                "family" => {
                    let p: Vec<&str> = rest.split(' ').collect();
                    let e = fams.entry(p[0].to_owned()).or_insert((0, 0.0));
                    e.0 += p[1].parse::<u64>().unwrap();
                    e.1 += p[2].parse::<f64>().unwrap();
                }
                "sample" => {
                    if let Some(s) = unjson(rest) {
                        samples.push(s);
                    }
                }
                "violation" => {
                    let (i, r) = rest.split_once(' ').unwrap();
                    let b = r.as_bytes();
                    let mut j = 1;
                    while b[j] != b'"' {
                        j += if b[j] == b'\\' { 2 } else { 1 };
                    }
                    viol.push(Violation {
                        index: i.parse().unwrap(),
                        case: unjson(&r[..=j]).unwrap_or_default(),
                        message: unjson(r[j + 1..].trim()).unwrap_or_default(),
                    });
                }
                "cases" => enumerated = enumerated.max(rest.parse::<u64>().unwrap()),
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(scratch.join(format!("{t}.states"))) {
            for c in h.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    viol.sort_by_key(|v| v.index);
    let mut fresh: Vec<&Violation> = Vec::new();
    let mut seen_known = 0u64;
    for v in &viol {
        match known.iter().find(|k| k.0 == v.case) {
            Some(k) => {
                seen_known += 1;
                println!("KNOWN-FINDING: property={} {} ({})", check.id, k.1, v.message.lines().next().unwrap_or(""));
            }
            None => fresh.push(v),
        }
    }
    samples.sort();
    samples.dedup();
    // an even spread over the families
    let step = (samples.len() / 24).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).take(24).collect();
    let wall = start.elapsed().as_secs_f64();
    let transitions = counters.remove("transitions").unwrap_or(0);
    let validated = counters.remove("validated").unwrap_or(0);
    if only.is_none() {
        let mut e = String::from("{\n");
        let mut kv = |k: &str, v: String, last: bool| e.push_str(&format!("  {}: {}{}\n", json_str(k), v, if last { "" } else { "," }));
        kv("property", json_str(check.id), false);
        kv("tier", json_str(if thorough { "thorough" } else { "quick" }), false);
        kv("seed", seed.to_string(), false);
        kv("level", json_str("model_checking"), false);
        let mut c = String::from("{");
        c.push_str(&format!("\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n", states.len(), transitions, validated));
        c.push_str(&format!("    \"exhaustive\": {},\n", fresh.is_empty() && broken.is_empty()));
        c.push_str(&format!("    \"cases_enumerated\": {},\n", enumerated));
        c.push_str(&format!("    \"meaning\": {},\n", json_str(check.meaning)));
        c.push_str(&format!("    \"known_findings_seen\": {seen_known},\n"));
        c.push_str(&format!("    \"counters\": {{{}}},\n", counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")));
        c.push_str(&format!("    \"bounds\": {{{}}},\n", bounds.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(v))).collect::<Vec<_>>().join(", ")));
        c.push_str(&format!(
            "    \"families\": {{{}}},\n",
            fams.iter().filter(|f| f.1 .0 > 0).map(|(k, v)| format!("{}: {{\"cases\": {}, \"cpu_s\": {:.1}}}", json_str(k), v.0, v.1)).collect::<Vec<_>>().join(", ")
        ));
        c.push_str(&format!("    \"samples\": [{}]\n  }}", samples.iter().map(|s| format!("\n      {}", json_str(s))).collect::<Vec<_>>().join(",")));
        kv("coverage", c, false);
        kv("wall_s", format!("{wall:.1}"), false);
        kv("violations", fresh.len().to_string(), false);
        kv("assumptions", format!("[{}]", check.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ")), true);
        e.push_str("}\n");
        std::fs::create_dir_all("/verif/evidence").unwrap();
        std::fs::write(format!("/verif/evidence/{}.json", check.id), e).unwrap();
    }
    println!(
        "{}: {} states, {} transitions, {} runs compared, {} cases enumerated, {:.1} s",
        check.id,
        states.len(),
        transitions,
        validated,
        enumerated,
        wall
    );
    if std::env::var("MC_TIMES").is_ok() {
        for (k, v) in &fams {
            println!("  family {k}: {} cases {:.1} cpu s", v.0, v.1);
        }
        println!("  counters {counters:?}");
    }
    let code = if !fresh.is_empty() {
        let dir = PathBuf::from("/verif/evidence/replay");
        std::fs::create_dir_all(&dir).unwrap();
        let mut first = None;
        for (n, v) in fresh.iter().enumerate().take(8) {
            let p = dir.join(format!("{}-{n}.txt", check.id));
            let mut f = std::fs::File::create(&p).unwrap();
            let _ = writeln!(
                f,
                "property: {}\nreplay: /verif/run.sh {} --replay {} {}\n\n--- what failed\n{}\n\n--- case\n{}",
                check.id,
                check.id,
                if thorough { "thorough" } else { "quick" },
                v.index,
                v.message,
                v.case
            );
            if n < 3 {
                println!("case {}: {}\n{}\n--", v.index, v.message.chars().take(1500).collect::<String>(), v.case.chars().take(1500).collect::<String>());
            }
            first.get_or_insert(p);
        }
        println!("VIOLATION property={} replay={}", check.id, first.unwrap().display());
        1
    } else if !broken.is_empty() {
        println!("{}: a worker failed outside any case: {}", check.id, broken[0]);
        2
    } else {
        0
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}
