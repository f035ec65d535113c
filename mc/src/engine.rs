//! The exploration engine.
//!
//! A check is a list of *groups*; a group deterministically enumerates *cases* (one case = one bounded
//! execution of the implementation, compared step by step with the reference model).  Worker processes
//! are forked and take groups from a shared counter; the case being executed is journaled in shared
//! memory, so that a crash (fault on a guard page, abort, stack overflow) or a hang is attributed to its
//! case.  Every failure is confirmed by re-executing the case in fresh processes before it is reported.

use crate::alloc;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self { Tier::Quick => quick, Tier::Thorough => thorough }
    }
}

pub type GroupFn = Box<dyn Fn(&mut Ctx)>;
pub struct Group { pub name: String, pub run: GroupFn }

pub struct Plan {
    pub groups: Vec<Group>,
    /// what is enumerated, in words, with the bounds of this tier
    pub bounds: String,
    pub assumptions: Vec<String>,
    /// report leaked memory, wrong frees and overwritten canaries (C10, C11, C14)
    pub memory: bool,
    /// make freed memory inaccessible
    pub strict: bool,
}

impl Plan {
    pub fn new(bounds: impl Into<String>) -> Plan {
        Plan { groups: vec![], bounds: bounds.into(), assumptions: vec![], memory: false, strict: false }
    }
    pub fn group(&mut self, name: impl Into<String>, f: impl Fn(&mut Ctx) + 'static) {
        self.groups.push(Group { name: name.into(), run: Box::new(f) });
    }
    pub fn assume(&mut self, s: impl Into<String>) { self.assumptions.push(s.into()); }
}

const WORKERS: usize = 8;
const MSG: usize = 1 << 14;
const STATE_TABLE: usize = 1 << 24;
const OUTCOME_TABLE: usize = 1 << 20;

#[repr(C)]
struct Worker {
    group: AtomicU64, // index + 1, 0 = idle
    case: AtomicU64,
    since_ms: AtomicU64,
    done_cases: AtomicU64,
    steps: AtomicU64,
    rejected: AtomicU64,
    failed: AtomicU32,
    msg_len: AtomicUsize,
    msg: [u8; MSG],
}

#[repr(C)]
struct Shared {
    next_group: AtomicU64,
    stop: AtomicBool,
    states: AtomicU64,
    outcomes: AtomicU64,
    state_overflow: AtomicU64,
    worker: [Worker; WORKERS + 1],
    state_table: [AtomicU64; STATE_TABLE],
    outcome_table: [AtomicU64; OUTCOME_TABLE],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut ME: usize = 0;

fn shared() -> &'static Shared { unsafe { &*SHARED } }
fn me() -> &'static Worker { unsafe { &shared().worker[ME] } }

fn insert(table: &[AtomicU64], h: u64) -> Option<bool> {
    let h = if h == 0 { 1 } else { h };
    let n = table.len();
    let mut i = (h as usize) & (n - 1);
    for _ in 0..256 {
        let cur = table[i].load(Relaxed);
        if cur == h { return Some(false); }
        if cur == 0 {
            match table[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => return Some(true),
                Err(x) if x == h => return Some(false),
                Err(_) => {}
            }
        }
        i = (i + 1) & (n - 1);
    }
    None
}

pub fn hash<H: Hash + ?Sized>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Records a model state (canonical form); distinct ones are counted.
pub fn state<H: Hash + ?Sized>(x: &H) {
    match insert(&shared().state_table, hash(x)) {
        Some(true) => { shared().states.fetch_add(1, Relaxed); }
        Some(false) => {}
        None => { shared().state_overflow.fetch_add(1, Relaxed); }
    }
}

/// Records an observed outcome (to show the exploration is not vacuous).
pub fn outcome<H: Hash + ?Sized>(x: &H) {
    if let Some(true) = insert(&shared().outcome_table, hash(x)) {
        shared().outcomes.fetch_add(1, Relaxed);
    }
}

/// Counts one transition (an operation applied to the implementation and compared with the model).
#[inline]
pub fn step() { STEPS.with(|s| s.set(s.get() + 1)); }
#[inline]
pub fn steps(n: u64) { STEPS.with(|s| s.set(s.get() + n)); }

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static REJECTED: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Runs implementation code (its allocations are guarded).
#[inline]
pub fn imp<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore { fn drop(&mut self) { alloc::GUARDED.store(self.0, Relaxed) } }
    let _r = Restore(alloc::GUARDED.swap(true, Relaxed));
    f()
}

/// Runs implementation code that may reject its arguments by panicking.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = catch_unwind(AssertUnwindSafe(|| imp(f)));
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            drop(p);
            REJECTED.with(|s| s.set(s.get() + 1));
            Err(LAST_PANIC.with(|l| l.take()).unwrap_or_default())
        }
    }
}

enum Mode { Explore, Single { case: u64, prefix: bool }, Describe { case: u64 } }

pub struct Ctx {
    group: usize,
    group_name: String,
    next: u64,
    mode: Mode,
    memory: bool,
    describe_out: Option<String>,
    start: Instant,
    pub tier: Tier,
}

impl Ctx {
    pub fn stopped(&self) -> bool { shared().stop.load(Relaxed) }

    /// One case.  `desc` describes it (only evaluated for samples and failures); a panic out of `body`
    /// is a violation.
    pub fn case(&mut self, desc: impl Fn() -> String, mut body: impl FnMut()) {
        let idx = self.next;
        self.next += 1;
        match self.mode {
            Mode::Explore => if shared().stop.load(Relaxed) { return; },
            Mode::Single { case, prefix } => if idx > case || (idx < case && !prefix) { return; },
            Mode::Describe { case } => {
                if idx == case { self.describe_out = Some(desc()); }
                return;
            }
        }
        let w = me();
        w.case.store(idx, Relaxed);
        w.since_ms.store(self.start.elapsed().as_millis() as u64, Relaxed);
        w.group.store(self.group as u64 + 1, Release);

        let mut verdict = self.run_once(&mut body);
        if matches!(verdict, Some(ref v) if v == LEAK) {
            // a leak is only a violation if it happens again (the first run may have created a global)
            verdict = self.run_once(&mut body);
        }
        if let Some(v) = verdict {
            let text = format!("group: {}\ncase: {}\n{}\n{}\n", self.group_name, idx, desc(), v);
            fail(&text);
            return;
        }
        w.done_cases.fetch_add(1, Relaxed);
        w.steps.fetch_add(STEPS.with(|s| s.replace(0)), Relaxed);
        w.rejected.fetch_add(REJECTED.with(|s| s.replace(0)), Relaxed);
    }

    fn run_once(&mut self, body: &mut impl FnMut()) -> Option<String> {
        alloc::reset();
        let live = alloc::live();
        let r = catch_unwind(AssertUnwindSafe(body));
        alloc::GUARDED.store(false, Relaxed);
        if let Err(p) = r {
            drop(p);
            return Some(LAST_PANIC.with(|l| l.take()).unwrap_or_else(|| "panic".into()));
        }
        if self.memory {
            alloc::check_live();
            if let Some(e) = alloc::take_error() { return Some(format!("memory error: {e}")); }
            if alloc::live() != live { return Some(LEAK.into()); }
        }
        None
    }
}

const LEAK: &str = "memory was leaked: buffers allocated during the case are still allocated at its end";

/// Leaves a message for the parent, in case the process dies.
fn note(text: &str) {
    let w = me();
    let b = text.as_bytes();
    let n = b.len().min(MSG);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), w.msg.as_ptr() as *mut u8, n); }
    w.msg_len.store(n, Relaxed);
}

fn fail(text: &str) {
    note(text);
    let w = me();
    w.failed.store(1, Release);
    shared().stop.store(true, Relaxed);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // formatted outside the guarded heap
        let was = alloc::GUARDED.swap(false, Relaxed);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".into() };
        let loc = info.location().map(|l| format!(" (at {}:{})", l.file(), l.line())).unwrap_or_default();
        note(&format!("last panic: {msg}{loc}\n"));
        LAST_PANIC.with(|l| l.set(Some(format!("{msg}{loc}"))));
        alloc::GUARDED.store(was, Relaxed);
    }));
}

struct Args { tier: Tier, seed: i64, replay: Option<(usize, u64, bool)>, only: Option<String>, list: bool, verif: String }

fn parse_args() -> Args {
    let mut a = Args {
        tier: match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None, only: None, list: false,
        verif: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
    };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        match v[i].as_str() {
            "--tier" => { i += 1; a.tier = if v[i] == "thorough" { Tier::Thorough } else { Tier::Quick }; }
            "--replay" => {
                i += 1;
                let p: Vec<&str> = v[i].split(':').collect();
                a.replay = Some((p[0].parse().unwrap(), p[1].parse().unwrap(), p.get(2) == Some(&"prefix")));
            }
            "--only" => { i += 1; a.only = Some(v[i].clone()); }
            "--list" => a.list = true,
            x => { eprintln!("unknown argument {x}"); std::process::exit(2); }
        }
        i += 1;
    }
    a
}

fn limit_child(strict: bool, stack_mb: u64) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let _ = stack_mb;
    alloc::STRICT.store(strict, Relaxed);
}

fn silence_stderr() {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(fd, 2);
        libc::dup2(fd, 1);
        libc::close(fd);
    }
}

fn worker_main(plan: &Plan, tier: Tier, id: usize, start: Instant) -> ! {
    unsafe { ME = id };
    limit_child(plan.strict, 0);
    silence_stderr();
    loop {
        let g = shared().next_group.fetch_add(1, Relaxed) as usize;
        if g >= plan.groups.len() || shared().stop.load(Relaxed) { break; }
        run_group(plan, tier, g, Mode::Explore, start);
        if me().failed.load(Relaxed) != 0 { break; }
        me().group.store(0, Release);
    }
    unsafe { libc::_exit(0) }
}

fn run_group(plan: &Plan, tier: Tier, g: usize, mode: Mode, start: Instant) -> Option<String> {
    let mut ctx = Ctx {
        group: g, group_name: plan.groups[g].name.clone(), next: 0, mode, memory: plan.memory,
        describe_out: None, start, tier,
    };
    // a panic outside of a case is an error of the enumeration, not a verdict
    let r = catch_unwind(AssertUnwindSafe(|| (plan.groups[g].run)(&mut ctx)));
    if r.is_err() {
        let m = LAST_PANIC.with(|l| l.take()).unwrap_or_default();
        fail(&format!("HARNESS group {} after case {}: {m}", plan.groups[g].name, ctx.next));
    }
    ctx.describe_out
}

/// Outcome of a child process
enum End { Ok, Failed(String), Signal(i32), Hang }

fn run_single(plan: &Plan, tier: Tier, g: usize, case: u64, prefix: bool, limit: Duration) -> End {
    let w = &shared().worker[WORKERS];
    w.failed.store(0, Relaxed);
    w.msg_len.store(0, Relaxed);
    shared().stop.store(false, Relaxed);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { ME = WORKERS };
        limit_child(plan.strict, 0);
        silence_stderr();
        run_group(plan, tier, g, Mode::Single { case, prefix }, Instant::now());
        unsafe { libc::_exit(0) }
    }
    let t = Instant::now();
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid { break; }
        if t.elapsed() > limit {
            unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut status, 0); }
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let msg = String::from_utf8_lossy(&w.msg[..w.msg_len.load(Relaxed)]).into_owned();
    if libc::WIFSIGNALED(status) {
        return End::Signal(libc::WTERMSIG(status));
    }
    if w.failed.load(Acquire) != 0 { End::Failed(msg) } else { End::Ok }
}

fn last_note() -> String {
    let w = &shared().worker[WORKERS];
    String::from_utf8_lossy(&w.msg[..w.msg_len.load(Relaxed)]).into_owned()
}

/// Describes a case by running the enumeration (not the case) in a child.
fn describe(plan: &Plan, tier: Tier, g: usize, case: u64) -> String {
    let mut fds = [0i32; 2];
    unsafe {
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            ME = WORKERS;
            limit_child(false, 0);
            silence_stderr();
            libc::close(fds[0]);
            let d = run_group(plan, tier, g, Mode::Describe { case }, Instant::now()).unwrap_or_default();
            let b = d.as_bytes();
            let n = b.len().min(60000);
            libc::write(fds[1], b.as_ptr() as *const _, n);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 { break; }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        String::from_utf8_lossy(&out).into_owned()
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(id: &str, make: impl Fn(Tier) -> Plan) {
    let args = parse_args();
    let start = Instant::now();
    alloc::init();
    print!("");
    install_hook();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { eprintln!("mmap failed"); std::process::exit(2); }
        SHARED = p as *mut Shared;
    }
    let mut plan = make(args.tier);
    if let Some(o) = &args.only { plan.groups.retain(|g| g.name.contains(o.as_str())); }
    if args.list { for (i, g) in plan.groups.iter().enumerate() { println!("{i} {}", g.name); } return; }

    if let Some((g, c, prefix)) = args.replay {
        println!("case: {}", describe(&plan, args.tier, g, c));
        match run_single(&plan, args.tier, g, c, prefix, Duration::from_secs(120)) {
            End::Ok => println!("the case passes"),
            End::Failed(m) => { println!("{m}"); std::process::exit(1); }
            End::Signal(s) => { println!("the process was killed by signal {s}\n{}", last_note()); std::process::exit(1); }
            End::Hang => { println!("the case does not terminate"); std::process::exit(1); }
        }
        return;
    }

    // explore
    let mut pids = [0i32; WORKERS];
    for id in 0..WORKERS {
        std::io::stdout().flush().ok();
        let pid = unsafe { libc::fork() };
        if pid == 0 { worker_main(&plan, args.tier, id, start); }
        if pid < 0 { eprintln!("fork failed"); std::process::exit(2); }
        pids[id] = pid;
    }

    let hang = Duration::from_secs(60);
    let mut failures: Vec<(usize, u64, String, bool)> = vec![]; // group, case, message, a comparison failed
    let mut broken: Option<String> = None;
    let mut alive = WORKERS;
    let cap = std::env::var("MC_WALL_CAP").ok().and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(args.tier.pick(420, 4 * 3600));
    let mut capped = false;
    while alive > 0 {
        std::thread::sleep(Duration::from_millis(10));
        for id in 0..WORKERS {
            if pids[id] == 0 { continue; }
            let w = &shared().worker[id];
            let mut status = 0;
            let r = unsafe { libc::waitpid(pids[id], &mut status, libc::WNOHANG) };
            let (g, c) = (w.group.load(Acquire), w.case.load(Relaxed));
            if r == pids[id] {
                pids[id] = 0;
                alive -= 1;
                if w.failed.load(Acquire) != 0 {
                    let m = String::from_utf8_lossy(&w.msg[..w.msg_len.load(Relaxed)]).into_owned();
                    if m.starts_with("HARNESS") { broken = Some(m); }
                    else { failures.push(((g.max(1) - 1) as usize, c, m, true)); }
                } else if libc::WIFSIGNALED(status) {
                    let s = libc::WTERMSIG(status);
                    if s == libc::SIGKILL || g == 0 {
                        broken = Some(format!("worker {id} was killed by signal {s}"));
                    } else {
                        failures.push(((g - 1) as usize, c, format!("the process was killed by signal {s}"), false));
                    }
                    shared().stop.store(true, Relaxed);
                } else if !(libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0) {
                    broken = Some(format!("worker {id} exited with status {status}"));
                    shared().stop.store(true, Relaxed);
                }
            } else if g != 0 {
                let since = Duration::from_millis(w.since_ms.load(Relaxed));
                if start.elapsed() > since + hang && w.case.load(Relaxed) == c {
                    unsafe { libc::kill(pids[id], libc::SIGKILL); libc::waitpid(pids[id], &mut status, 0); }
                    pids[id] = 0;
                    alive -= 1;
                    failures.push(((g - 1) as usize, c, "the case does not terminate".into(), false));
                    shared().stop.store(true, Relaxed);
                }
            }
        }
        if start.elapsed().as_secs() > cap && !capped {
            capped = true;
            shared().stop.store(true, Relaxed);
        }
    }

    let sum = |f: fn(&Worker) -> &AtomicU64| -> u64 { (0..WORKERS).map(|i| f(&shared().worker[i]).load(Relaxed)).sum() };
    let cases = sum(|w| &w.done_cases);
    let steps = sum(|w| &w.steps);
    let rejected = sum(|w| &w.rejected);
    let states = shared().states.load(Relaxed);
    let outcomes = shared().outcomes.load(Relaxed);

    if let Some(b) = broken {
        println!("ERROR: {b}");
        std::process::exit(2);
    }

    let mut violations = 0;
    let mut replay_path = String::new();
    let mut message = String::new();
    if !failures.is_empty() {
        // confirm, in fresh processes: twice alone, or as the end of its group
        let mut how = None;
        'confirm: for prefix in [false, true] {
            for (i, (g, c, _, _)) in failures.iter().enumerate() {
                let mut again = 0;
                for _ in 0..2 {
                    match run_single(&plan, args.tier, *g, *c, prefix, Duration::from_secs(if prefix { 100 } else { 70 })) {
                        End::Ok => break,
                        End::Failed(m2) => { again += 1; message = m2; }
                        End::Signal(s) if s != libc::SIGKILL => { again += 1; message = format!("the process was killed by signal {s}\n{}", last_note()); }
                        End::Signal(_) => break,
                        End::Hang => { again += 1; message = "the case does not terminate".into(); }
                    }
                }
                if again == 2 { how = Some((i, prefix)); break 'confirm; }
            }
        }
        // a wrong result that was observed is a violation even if it depends on what ran before it
        let observed = failures.iter().position(|f| f.3);
        let (i, prefix) = match (how, observed) {
            (Some(x), _) => x,
            (None, Some(i)) => { message = format!("{}(observed during the exploration; not reproduced in isolation)\n", failures[i].2); (i, true) }
            (None, None) => {
                let (g, c, m, _) = &failures[0];
                println!("ERROR: a failure could not be reproduced: group {} case {c}: {m}", plan.groups[*g].name);
                std::process::exit(2);
            }
        };
        let (g, c) = (failures[i].0, failures[i].1);
        violations = 1;
        let d = describe(&plan, args.tier, g, c);
        let dir = format!("{}/replays", args.verif);
        std::fs::create_dir_all(&dir).ok();
        replay_path = format!("{dir}/{id}.txt");
        let profile = std::env::args().next().unwrap_or_default();
        let text = format!(
            "property: {id}\nreplay: {profile} --tier {} --replay {g}:{c}{}\ngroup: {}\ncase {c}: {d}\n\n{message}\n",
            if args.tier == Tier::Quick { "quick" } else { "thorough" }, if prefix { ":prefix" } else { "" },
            plan.groups[g].name);
        std::fs::write(&replay_path, &text).ok();
        println!("{text}");
    }

    // samples: real cases of this run, spread over the groups
    let mut samples = vec![];
    let n = plan.groups.len();
    if n > 0 && violations == 0 {
        let k = 5.min(n);
        for i in 0..k {
            let g = i * n / k;
            for c in [1, 0] {
                let d = describe(&plan, args.tier, g, c);
                if !d.is_empty() {
                    samples.push(format!("[{} #{c}] {d}", plan.groups[g].name));
                    break;
                }
            }
        }
    } else {
        samples.push(message.clone());
    }

    let wall = start.elapsed().as_secs_f64();
    let exhaustive = violations == 0 && !capped && args.only.is_none();
    let part = std::env::var("MC_PART").ok();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"rejections_observed\": {},\n  \"groups\": {},\n  \"exhaustive\": {},\n  \"capped\": {},\n  \"state_table_overflow\": {},\n  \"bounds\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(id), if args.tier == Tier::Quick { "quick" } else { "thorough" }, args.seed,
        states, steps, cases, outcomes, rejected, n, exhaustive, capped, shared().state_overflow.load(Relaxed),
        json_str(&plan.bounds),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        plan.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall, violations);
    let name = match &part { Some(p) => format!("{}/evidence/{id}.{p}.json", args.verif), None => format!("{}/evidence/{id}.json", args.verif) };
    std::fs::create_dir_all(format!("{}/evidence", args.verif)).ok();
    if args.only.is_none() {
        std::fs::write(&name, ev).unwrap();
    }

    println!("{id}: {} groups, {cases} executions, {steps} transitions, {states} states, {outcomes} outcomes, {rejected} rejections, {wall:.1}s{}",
             n, if capped { " (CAPPED)" } else { "" });
    if violations > 0 {
        println!("VIOLATION property={id} replay={replay_path}");
        std::process::exit(1);
    }
}
