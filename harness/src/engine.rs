//! Exploration engine: runs numbered cases of named sections on worker threads, each case under
//! `catch_unwind`; the current case of every worker is kept in a shared memory file so that an
//! abort or a hang of the code under test can be attributed to one case and replayed.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// println! that is not diverted by the output capture of the worker threads
macro_rules! say {
    ($($t:tt)*) => {{
        let _ = writeln!(std::io::stdout(), $($t)*);
    }};
}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Section {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ck) + Send + Sync>,
}

pub fn section(name: impl Into<String>, run: impl Fn(&mut Ck) + Send + Sync + 'static) -> Section {
    Section { name: name.into(), run: Box::new(run) }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub pruned: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub section: String,
    pub case: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Shared {
    stop: AtomicBool,
    slots: Slots,
    violations: Mutex<Vec<Violation>>,
    known: Mutex<BTreeMap<String, u64>>,
}

/// Shared-memory progress slots: (section+1, case+1) per worker.
#[derive(Clone, Copy)]
struct Slots(*mut AtomicU64);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
const NSLOTS: usize = 32;
impl Slots {
    fn open(path: &std::path::Path) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .open(path)
            .expect("progress file");
        f.set_len(4096).expect("progress file length");
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap failed");
        Slots(p as *mut AtomicU64)
    }
    #[inline]
    fn set(&self, w: usize, sec: u64, case: u64) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            (*self.0.add(2 * w)).store(sec, Ordering::Relaxed);
            (*self.0.add(2 * w + 1)).store(case, Ordering::Relaxed);
        }
    }
    fn get(&self, w: usize) -> (u64, u64) {
        unsafe {
            (
                (*self.0.add(2 * w)).load(Ordering::Relaxed),
                (*self.0.add(2 * w + 1)).load(Ordering::Relaxed),
            )
        }
    }
}

pub enum Verdict {
    Pass,
    /// The prefix of the case already misbehaves in a way this property does not speak about.
    Prune,
    Fail(String),
}

pub struct Ck {
    pub tier: Tier,
    sec_ix: u64,
    sec_name: String,
    worker: usize,
    idx: u64,
    only: Option<u64>,
    verbose: bool,
    pub stats: Stats,
    shared: Arc<Shared>,
    local_viol: usize,
    /// cases per section (see `local`)
    limit: u64,
    announce: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}

/// Frees the text of the last panic.
pub fn forget_panic() {
    LAST_PANIC.with(|l| drop(std::mem::take(&mut *l.borrow_mut())));
}

impl Ck {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    #[inline]
    pub fn st(&mut self, n: u64) {
        self.stats.states += n;
    }
    #[inline]
    pub fn tr(&mut self, n: u64) {
        self.stats.transitions += n;
    }
    pub fn out(&mut self, k: &str) {
        self.outn(k, 1)
    }
    pub fn outn(&mut self, k: &str, n: u64) {
        match self.stats.outcomes.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.stats.outcomes.insert(k.to_string(), n);
            }
        }
    }
    /// True when the exploration should stop early (enough violations found).
    pub fn stop(&self) -> bool {
        if let Some(o) = self.only {
            return self.idx >= o;
        }
        self.local_viol >= 3 || self.idx >= self.limit || self.shared.stop.load(Ordering::Relaxed)
    }
    /// Records a case that matches a listed known finding.
    pub fn known(&mut self, what: &str) {
        *self.shared.known.lock().unwrap().entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn fail(&mut self, desc: String, msg: String) {
        let v = Violation { section: self.sec_name.clone(), case: self.idx, desc, msg };
        if self.verbose {
            say!("FAILS: {} :: {}", v.desc, v.msg);
        }
        self.local_viol += 1;
        let mut g = self.shared.violations.lock().unwrap();
        g.push(v);
        if g.len() >= 20 {
            self.shared.stop.store(true, Ordering::Relaxed);
        }
    }
    /// One explored case: `f` exercises the real code and says whether the property held on it.
    /// A panic that escapes `f` is a violation.  Returns whether the case passed.
    #[inline]
    pub fn case<D, F>(&mut self, desc: D, f: F) -> bool
    where
        D: FnOnce() -> String,
        F: FnOnce() -> Result<(), String>,
    {
        self.vcase(desc, || match f() {
            Ok(()) => Verdict::Pass,
            Err(e) => Verdict::Fail(e),
        })
    }
    pub fn vcase<D, F>(&mut self, desc: D, f: F) -> bool
    where
        D: FnOnce() -> String,
        F: FnOnce() -> Verdict,
    {
        self.idx += 1;
        let mut mute = false;
        if let Some(o) = self.only {
            if self.idx > o {
                return true;
            }
            // earlier cases run again, silently: which cases follow may depend on them
            mute = self.idx < o;
        } else if self.stop() {
            return true;
        }
        if self.idx > self.limit {
            return true;
        }
        if self.announce {
            say!("case {} {}", self.idx, desc());
            let _ = std::io::stdout().flush();
            let r = catch_unwind(AssertUnwindSafe(f));
            self.stats.traces += 1;
            return matches!(r, Ok(Verdict::Pass));
        }
        self.shared.slots.set(self.worker, self.sec_ix + 1, self.idx);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.shared.slots.set(self.worker, 0, 0);
        drop_captured();
        self.stats.traces += 1;
        let ok = matches!(r, Ok(Verdict::Pass));
        if mute {
            return ok;
        }
        match r {
            Ok(Verdict::Pass) => {
                if self.only.is_some() {
                    say!("holds: {}", desc());
                } else if self.stats.samples.len() < 2 && (self.idx == 7 || self.idx % 4999 == 17) {
                    self.stats.samples.push(desc());
                }
            }
            Ok(Verdict::Prune) => self.stats.pruned += 1,
            Ok(Verdict::Fail(e)) => self.fail(desc(), e),
            Err(_) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                self.fail(desc(), format!("panicked: {m}"))
            }
        }
        ok
    }
}

pub struct Spec {
    pub prop: &'static str,
    /// What the numbers mean and what the bounds are.
    pub explanation: &'static str,
    pub assumptions: &'static [&'static str],
    pub exhaustive: bool,
    pub threads: usize,
    /// capture eprintln! output of the library in memory instead of writing it out
    pub capture: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...[{} bytes]", &s[..e], s.len())
    }
}

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(80) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn evidence_path(prop: &str) -> PathBuf {
    match std::env::var("VERIF_EVIDENCE_PART") {
        Ok(p) => PathBuf::from(p),
        Err(_) => verif_dir().join("evidence").join(format!("{prop}.json")),
    }
}

fn config_name() -> String {
    std::env::var("VERIF_CONFIG").unwrap_or_else(|_| "default".into())
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(spec: &Spec, tier: Tier, st: &Stats, nsec: usize, viol: usize, wall: f64, known: usize) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n", esc(spec.prop)));
    s.push_str(&format!(
        " \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n",
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed
    ));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"states\": {},\n", st.states));
    s.push_str(&format!("  \"transitions\": {},\n", st.transitions));
    s.push_str(&format!("  \"traces_validated_against_impl\": {},\n", st.traces));
    s.push_str(&format!("  \"pruned_prefixes\": {},\n", st.pruned));
    s.push_str(&format!("  \"sections\": {},\n", nsec));
    s.push_str(&format!("  \"known_finding_cases\": {},\n", known));
    s.push_str(&format!("  \"config\": {},\n", esc(&config_name())));
    s.push_str("  \"observed_outcomes\": {");
    let mut first = true;
    for (k, v) in &st.outcomes {
        if !first {
            s.push_str(", ");
        }
        first = false;
        s.push_str(&format!("{}: {}", esc(k), v));
    }
    s.push_str("},\n");
    s.push_str("  \"samples\": [");
    for (i, x) in st.samples.iter().take(10).enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&esc(&clip(x, 600)));
    }
    s.push_str("],\n");
    s.push_str(&format!("  \"exhaustive\": {},\n", spec.exhaustive && viol == 0));
    s.push_str(&format!("  \"explanation\": {}\n }},\n", esc(spec.explanation)));
    s.push_str(" \"assumptions\": [");
    for (i, a) in spec.assumptions.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&esc(a));
    }
    s.push_str("],\n");
    s.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, viol));
    let p = evidence_path(spec.prop);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    std::fs::write(&p, s).expect("write evidence");
}

fn report_violations(spec: &Spec, tier: Tier, vs: &[Violation]) {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    for (i, v) in vs.iter().take(5).enumerate() {
        let p = dir.join(format!("{}-{}-{}.json", spec.prop, config_name(), i));
        let body = format!(
            "{{\n \"property\": {},\n \"config\": {},\n \"tier\": \"{}\",\n \"section\": {},\n \"case\": {},\n \"case_text\": {},\n \"observed\": {},\n \"replay_cmd\": {}\n}}\n",
            esc(spec.prop),
            esc(&config_name()),
            if tier == Tier::Quick { "quick" } else { "thorough" },
            esc(&v.section),
            v.case,
            esc(&clip(&v.desc, 4000)),
            esc(&clip(&v.msg, 4000)),
            esc(&format!("cd /verif && ./run.sh replay {}", p.display()))
        );
        std::fs::write(&p, body).expect("write replay");
        say!("  [{}] {} :: {}", v.section, clip(&v.desc, 600), clip(&v.msg, 600));
        say!("VIOLATION property={} replay={}", spec.prop, p.display());
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{m} at {loc}");
            }
        });
    }));
}

thread_local! {
    static CAPTURE: RefCell<Option<Arc<Mutex<Vec<u8>>>>> = const { RefCell::new(None) };
}
pub fn begin_capture() {
    let b = Arc::new(Mutex::new(Vec::new()));
    CAPTURE.with(|c| *c.borrow_mut() = Some(b.clone()));
    std::io::set_output_capture(Some(b));
}
fn drop_captured() {
    CAPTURE.with(|c| {
        if let Some(b) = &*c.borrow() {
            b.lock().unwrap_or_else(|e| e.into_inner()).clear();
        }
    })
}
/// Returns and clears what the library printed on this thread.
pub fn take_captured() -> Vec<u8> {
    CAPTURE.with(|c| match &*c.borrow() {
        Some(b) => std::mem::take(&mut *b.lock().unwrap_or_else(|e| e.into_inner())),
        None => Vec::new(),
    })
}

struct Args {
    tier: Tier,
    child: bool,
    only: Option<(String, u64)>,
    slots: Option<PathBuf>,
}

fn parse_args() -> Args {
    let mut a = Args { tier: Tier::Quick, child: false, only: None, slots: None };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        match v[i].as_str() {
            "quick" => a.tier = Tier::Quick,
            "thorough" => a.tier = Tier::Thorough,
            "--child" => {
                a.child = true;
                a.slots = Some(PathBuf::from(&v[i + 1]));
                i += 1;
            }
            "--only" => {
                a.only = Some((v[i + 1].clone(), v[i + 2].parse().expect("case")));
                i += 2;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    a
}

const HANG_EXIT: i32 = 97;

/// Entry point of every check binary.
pub fn run(spec: Spec, sections: impl FnOnce(Tier) -> Vec<Section>) -> ! {
    let args = parse_args();
    if let Some(k) = tiny() {
        std::process::exit(local(sections(args.tier), args.tier, k));
    }
    if args.child {
        std::process::exit(child(&spec, &args, sections(args.tier)));
    }
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("mcheck-{}-{}", spec.prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let code = parent(&spec, &args, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

/// `VERIF_TINY=K`: every section runs its first K cases only, over small domains, on this thread and
/// without any system facility that an interpreter (Miri) lacks.
pub fn tiny() -> Option<u64> {
    use std::sync::OnceLock;
    static T: OnceLock<Option<u64>> = OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_TINY").ok().and_then(|k| k.parse().ok()))
}

/// Runs the sections whose number is VERIF_SHARD's first modulo its second number ("i/n"); the last
/// line printed says how much was explored.  VERIF_ANNOUNCE prints every case before it runs.
fn local(sections: Vec<Section>, tier: Tier, limit: u64) -> i32 {
    install_hook();
    let shard = std::env::var("VERIF_SHARD").unwrap_or_else(|_| "0/1".into());
    let (i, n) = shard.split_once('/').expect("i/n");
    let (i, n): (usize, usize) = (i.parse().expect("shard"), n.parse().expect("shards"));
    let announce = std::env::var_os("VERIF_ANNOUNCE").is_some();
    let times = std::env::var_os("VERIF_TIMES").is_some();
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        slots: Slots(std::ptr::null_mut()),
        violations: Mutex::new(Vec::new()),
        known: Mutex::new(BTreeMap::new()),
    });
    begin_capture();
    let mut total = Stats::default();
    let mut nsec = 0;
    for (k, s) in sections.iter().enumerate() {
        if k % n != i {
            continue;
        }
        say!("section {k} {}", s.name);
        let t = Instant::now();
        let mut ck = Ck {
            tier,
            sec_ix: k as u64,
            sec_name: s.name.clone(),
            worker: 0,
            idx: 0,
            only: None,
            verbose: false,
            stats: Stats::default(),
            shared: shared.clone(),
            local_viol: 0,
            limit,
            announce,
        };
        (s.run)(&mut ck);
        for v in shared.violations.lock().unwrap().drain(..).take(3) {
            say!("left over {k} {} :: {}", v.desc.replace('\n', " "), clip(&v.msg.replace('\n', " "), 300));
        }
        if times {
            say!("time {:8.3} {:>9} {}", t.elapsed().as_secs_f64(), ck.stats.traces, s.name);
        }
        nsec += 1;
        total.states += ck.stats.states;
        total.transitions += ck.stats.transitions;
        total.traces += ck.stats.traces;
        if total.samples.len() < 3 {
            total.samples.extend(ck.stats.samples);
        }
    }
    std::io::set_output_capture(None);
    let samples: Vec<String> = total.samples.iter().take(3).map(|x| esc(&clip(x, 300))).collect();
    say!(
        "explored {{\"states\": {}, \"transitions\": {}, \"traces\": {}, \"sections\": {nsec}, \"samples\": [{}]}}",
        total.states,
        total.transitions,
        total.traces,
        samples.join(", ")
    );
    let _ = std::io::stdout().flush();
    0
}

fn spawn_child(args: &Args, slots: &std::path::Path, only: Option<(&str, u64)>, limit: Duration) -> Option<i32> {
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.arg(if args.tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg("--child").arg(slots);
    if let Some((s, n)) = only {
        c.arg("--only").arg(s).arg(n.to_string());
    }
    if std::env::var_os("VERIF_DEBUG").is_none() {
        c.stderr(std::process::Stdio::null());
    }
    let mut ch = c.spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return Some(st.code().unwrap_or(-1));
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn parent(spec: &Spec, args: &Args, dir: &std::path::Path, start: Instant) -> i32 {
    let slots = dir.join("slots");
    let _ = Slots::open(&slots);
    let only = args.only.as_ref().map(|(s, n)| (s.as_str(), *n));
    let lim = Duration::from_secs(if args.tier == Tier::Quick { 800 } else { 6 * 3600 });
    let r = spawn_child(args, &slots, only, lim);
    match r {
        Some(c @ (0 | 1)) => return c,
        Some(c) => say!("check process ended abnormally (code {c}); locating the case"),
        None => {
            say!("check process exceeded its time limit");
            return 2;
        }
    }
    // Which cases were being executed?  Re-run each alone; those that die again are violations.
    let s = Slots::open(&slots);
    let mut cands = Vec::new();
    for w in 0..NSLOTS {
        let (sec, case) = s.get(w);
        if sec != 0 {
            cands.push((sec - 1, case));
        }
    }
    let mut vs = Vec::new();
    for (sec, case) in cands {
        let slots2 = dir.join("slots2");
        let name = format!("#{sec}");
        let r = spawn_child(args, &slots2, Some((&name, case)), Duration::from_secs(60));
        match r {
            Some(0) | Some(1) => {}
            r => {
                let how = match r {
                    None => "does not terminate".to_string(),
                    Some(c) if c == HANG_EXIT => "does not terminate".to_string(),
                    Some(c) => format!("aborts the process (code {c})"),
                };
                vs.push(Violation {
                    section: name,
                    case,
                    desc: "the library call of this case (replay to see it)".into(),
                    msg: how,
                });
            }
        }
    }
    if vs.is_empty() {
        say!("the abnormal end did not reproduce: error of the check");
        return 2;
    }
    write_evidence(spec, args.tier, &Stats::default(), 0, vs.len(), start.elapsed().as_secs_f64(), 0);
    report_violations(spec, args.tier, &vs);
    1
}

fn child(spec: &Spec, args: &Args, sections: Vec<Section>) -> i32 {
    install_hook();
    let start = Instant::now();
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        slots: Slots::open(args.slots.as_ref().unwrap()),
        violations: Mutex::new(Vec::new()),
        known: Mutex::new(BTreeMap::new()),
    });
    for w in 0..NSLOTS {
        shared.slots.set(w, 0, 0);
    }
    let nsec = sections.len();
    let sections = Arc::new(sections);
    let next = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(Mutex::new(Stats::default()));
    let nthreads = if args.only.is_some() { 1 } else { spec.threads.min(NSLOTS) };
    let done = Arc::new(AtomicBool::new(false));
    // watchdog: a case that runs for more than 30 s is a hang
    {
        let shared = shared.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            let mut last: Vec<((u64, u64), Instant)> = vec![((0, 0), Instant::now()); NSLOTS];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(500));
                for (w, l) in last.iter_mut().enumerate() {
                    let g = shared.slots.get(w);
                    if g != l.0 || g.0 == 0 {
                        *l = (g, Instant::now());
                    } else if l.1.elapsed() > Duration::from_secs(30) {
                        // keep only this slot as the culprit
                        for o in 0..NSLOTS {
                            if o != w {
                                shared.slots.set(o, 0, 0);
                            }
                        }
                        std::process::exit(HANG_EXIT);
                    }
                }
            }
        });
    }
    let mut hs = Vec::new();
    for w in 0..nthreads {
        let (shared, sections, next, total) = (shared.clone(), sections.clone(), next.clone(), total.clone());
        let (tier, only, capture) = (args.tier, args.only.clone(), spec.capture);
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                if capture {
                    begin_capture();
                }
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= sections.len() {
                        break;
                    }
                    let s = &sections[i];
                    let mut onlyc = None;
                    if let Some((n, c)) = &only {
                        if *n != s.name && *n != format!("#{i}") {
                            continue;
                        }
                        onlyc = Some(*c);
                        say!("section {}", s.name);
                    }
                    let t = Instant::now();
                    let mut ck = Ck {
                        tier,
                        sec_ix: i as u64,
                        sec_name: s.name.clone(),
                        worker: w,
                        idx: 0,
                        only: onlyc,
                        verbose: onlyc.is_some(),
                        stats: Stats::default(),
                        shared: shared.clone(),
                        local_viol: 0,
                        limit: u64::MAX,
                        announce: false,
                    };
                    (s.run)(&mut ck);
                    if std::env::var_os("VERIF_TIMES").is_some() {
                        say!("{:8.3}s {:>9} cases  {}", t.elapsed().as_secs_f64(), ck.stats.traces, s.name);
                    }
                    let mut g = total.lock().unwrap();
                    g.states += ck.stats.states;
                    g.transitions += ck.stats.transitions;
                    g.traces += ck.stats.traces;
                    g.pruned += ck.stats.pruned;
                    for (k, v) in ck.stats.outcomes {
                        *g.outcomes.entry(k).or_insert(0) += v;
                    }
                    for x in ck.stats.samples {
                        if g.samples.len() < 40 {
                            g.samples.push(format!("[{}] {}", s.name, x));
                        }
                    }
                }
                if capture {
                    std::io::set_output_capture(None);
                }
            })
            .expect("thread");
        hs.push(h);
    }
    let mut engine_error = false;
    for h in hs {
        if h.join().is_err() {
            engine_error = true;
        }
    }
    done.store(true, Ordering::Relaxed);
    let mut st = total.lock().unwrap().clone();
    // spread the samples over the sections
    if st.samples.len() > 10 {
        let step = st.samples.len() / 10;
        st.samples = st.samples.iter().step_by(step.max(1)).take(10).cloned().collect();
    }
    let vs = shared.violations.lock().unwrap().clone();
    let known = shared.known.lock().unwrap().clone();
    if args.only.is_some() {
        return if vs.is_empty() { 0 } else { 1 };
    }
    if engine_error && vs.is_empty() {
        say!("error of the check: the exploration driver itself panicked: {}", LAST_PANIC.with(|l| l.borrow().clone()));
        return 3;
    }
    write_evidence(
        spec,
        args.tier,
        &st,
        nsec,
        vs.len(),
        start.elapsed().as_secs_f64(),
        known.values().sum::<u64>() as usize,
    );
    for (k, n) in &known {
        say!("KNOWN-FINDING: property={} {} ({} explored cases)", spec.prop, k, n);
    }
    say!(
        "{} [{}]: states={} transitions={} traces={} pruned={} sections={} wall={:.1}s violations={}",
        spec.prop,
        config_name(),
        st.states,
        st.transitions,
        st.traces,
        st.pruned,
        nsec,
        start.elapsed().as_secs_f64(),
        vs.len()
    );
    if st.traces == 0 {
        say!("error of the check: nothing was explored");
        return 3;
    }
    let _ = std::io::stdout().flush();
    if vs.is_empty() {
        0
    } else {
        report_violations(spec, args.tier, &vs);
        1
    }
}

/// Entries of /verif/known_findings.txt that start with `finding: property=<prop>`.
pub fn known_findings(prop: &str) -> Vec<String> {
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(verif_dir().join("known_findings.txt")) {
        let _ = f.read_to_string(&mut s);
    }
    let pre = format!("finding: property={prop} ");
    s.lines().filter_map(|l| l.strip_prefix(&pre).map(|x| x.to_string())).collect()
}

/// An iterator whose size hint is right (0), unknown (1), too low without upper bound (2) or a loose range (3).
#[derive(Clone)]
pub struct Hinted<I>(pub I, pub u8);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 {
            0 => (lo, hi),
            1 => (0, None),
            2 => (lo.saturating_sub(1), None),
            _ => (0, hi.map(|h| h.saturating_add(3))),
        }
    }
}
