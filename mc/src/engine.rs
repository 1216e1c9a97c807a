//! Exhaustive exploration engine.  A check is a list of finite families; every index of every family is
//! executed against the real code (no sampling), in parallel, with panic capture and a hang watchdog.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

#[derive(Default)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type USet = HashSet<u64, BuildHasherDefault<IdHash>>;

#[derive(Clone)]
pub struct Fx(pub u64);
impl Default for Fx {
    fn default() -> Self {
        Fx(0xcbf29ce484222325)
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u64(&mut self, x: u64) {
        let z = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93).rotate_left(29);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

pub fn thread_state_cap() -> usize {
    4_000_000
}

/// Counters of one worker.
#[derive(Default)]
pub struct Ctx {
    /// real library calls executed by the exploration
    pub transitions: u64,
    /// histories / inputs whose model result was compared with the implementation's
    pub traces: u64,
    pub cases: u64,
    pub nontrivial: u64,
    pub skipped: BTreeMap<&'static str, u64>,
    pub notes: BTreeMap<&'static str, u64>,
    pub states: USet,
    pub states_over: u64,
    pub outcomes: USet,
    pub worst: BTreeMap<&'static str, (f64, String)>,
    pub samples: Vec<String>,
}
impl Ctx {
    #[inline]
    pub fn call(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(t);
        self.state_hash(h);
    }
    pub fn state_hash(&mut self, h: u64) {
        if self.states.len() < thread_state_cap() {
            self.states.insert(h);
        } else if !self.states.contains(&h) {
            self.states_over += 1;
        }
    }
    /// one element of an enumeration without repetition, too large to be hashed
    #[inline]
    pub fn state_enumerated(&mut self) {
        self.states_over += 1;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(hash_of(t));
        }
    }
    pub fn skip(&mut self, why: &'static str) {
        *self.skipped.entry(why).or_insert(0) += 1;
    }
    pub fn note(&mut self, what: &'static str, n: u64) {
        *self.notes.entry(what).or_insert(0) += n;
    }
    pub fn note_max(&mut self, what: &'static str, n: u64) {
        let e = self.notes.entry(what).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn worst(&mut self, what: &'static str, v: f64, d: impl FnOnce() -> String) {
        let e = self.worst.entry(what).or_insert((-1.0, String::new()));
        if v > e.0 {
            *e = (v, d());
        }
    }
    fn merge(&mut self, o: Ctx) {
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.notes {
            if k.starts_with("max ") {
                let e = self.notes.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.notes.entry(k).or_insert(0) += v;
            }
        }
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        self.states_over += o.states_over;
        self.outcomes.extend(o.outcomes);
        for (k, (v, d)) in o.worst {
            let e = self.worst.entry(k).or_insert((-1.0, String::new()));
            if v > e.0 {
                *e = (v, d);
            }
        }
        self.samples.extend(o.samples);
    }
}

pub struct Family {
    pub name: String,
    pub total: u64,
    pub bound: String,
    pub describe: Box<dyn Fn(u64) -> String + Sync + Send>,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>,
    /// run on one thread, in index order
    pub serial: bool,
}

pub fn family(
    name: impl Into<String>,
    total: u64,
    bound: impl Into<String>,
    describe: impl Fn(u64) -> String + Sync + Send + 'static,
    run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
) -> Family {
    Family { name: name.into(), total, bound: bound.into(), describe: Box::new(describe), run: Box::new(run), serial: false }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if DEPTH.try_with(|d| d.get()).unwrap_or(0) == 0 {
            eprintln!("checker panic: {} at {}", m, l);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

/// Run `f`; `Err(message)` if it panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    match r {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// give back the memory of the last message
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}
/// The call must be refused (panic).
pub fn must_reject<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Res {
    match attempt(f) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{}: accepted, but must be rejected", what())),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
/// when a case that consists of many bounded runs last began one (per worker): the time limit is for one run
static BEATS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
pub fn worker() -> usize {
    MY_SLOT.with(|m| m.get())
}
pub fn beat(worker: usize) {
    if let Some(b) = BEATS.get(worker) {
        b.store(now_ms(), Relaxed);
    }
}
struct Crash {
    id: &'static str,
    tier: Tier,
    fams: *const Vec<Family>,
    slots: *const Vec<Slot>,
}
unsafe impl Sync for Crash {}
unsafe impl Send for Crash {}
static CRASH: std::sync::OnceLock<Crash> = std::sync::OnceLock::new();
static CRASHED: AtomicBool = AtomicBool::new(false);

extern "C" fn on_alarm(_: i32) {
    if let Some(c) = CRASH.get() {
        let m = format!("VIOLATION property={} replay=none\n", c.id);
        unsafe { libc::write(1, m.as_ptr() as *const _, m.len()) };
    }
    unsafe { libc::_exit(1) }
}
/// The code under test brought the process down (abort, stack overflow, invalid access).
extern "C" fn on_crash(sig: i32) {
    if CRASHED.swap(true, SeqCst) {
        loop {
            unsafe { libc::pause() };
        }
    }
    unsafe {
        libc::signal(libc::SIGALRM, on_alarm as *const () as usize);
        libc::alarm(5);
    }
    let me = MY_SLOT.try_with(|m| m.get()).unwrap_or(usize::MAX);
    let c = match CRASH.get() {
        Some(c) if me != usize::MAX => c,
        _ => unsafe { libc::_exit(4) },
    };
    let (fams, slots) = unsafe { (&*c.fams, &*c.slots) };
    let s = &slots[me];
    let f = &fams[s.fam.load(Relaxed) as usize];
    let idx = s.idx.load(Relaxed);
    let m = format!("the process was brought down by signal {} (abort, stack overflow or invalid memory access)", sig);
    let p = write_replay(c.id, c.tier, &f.name, idx, &format!("case {}", idx), &m);
    let m = format!("{}: {} #{}: {}\nVIOLATION property={} replay={}\n", c.id, f.name, idx, m, c.id, p);
    unsafe {
        libc::write(1, m.as_ptr() as *const _, m.len());
        libc::_exit(1)
    }
}
fn install_crash_handler(c: Crash) {
    let _ = CRASH.set(c);
    for sig in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGFPE, libc::SIGILL] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

struct Slot {
    start: AtomicU64,
    idx: AtomicU64,
    fam: AtomicU64,
}

fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF_DIR").unwrap_or_else(|_| {
        let d = concat!(env!("CARGO_MANIFEST_DIR"), "/..");
        std::fs::canonicalize(d).map(|p| p.display().to_string()).unwrap_or_else(|_| d.into())
    })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn write_replay(id: &str, tier: Tier, fam: &str, idx: u64, desc: &str, msg: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, id, hash_of(&(fam, idx)));
    let bin = id.to_lowercase();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"build\": {},\n \"family\": {},\n \"index\": {},\n \"case\": {},\n \"message\": {},\n \"replay_cmd\": {}\n}}\n",
        esc(id),
        esc(if tier.thorough() { "thorough" } else { "quick" }),
        esc(&std::env::var("MC_BUILD").unwrap_or_default()),
        esc(fam),
        idx,
        esc(desc),
        esc(msg),
        esc(&format!("/verif/run.sh {} --replay {}", bin, path))
    );
    let _ = std::fs::write(&path, body);
    path
}

/// Families to run again in another build of the crate (MC_SECOND): the ones that were cheap in the main run, cheapest
/// first, up to a total cost.
fn second_pass(id: &str, tier: Tier, fams: &mut Vec<Family>) {
    let body = std::fs::read_to_string(format!("{}/evidence/{}.json", verif_dir(), id)).unwrap_or_default();
    let mut cost: Vec<(f64, String)> = vec![];
    for l in body.lines() {
        if let (Some(a), Some(b)) = (l.find("{\"family\": "), l.find(", \"bound\": ")) {
            let secs = l.rfind("\"seconds\": ").and_then(|i| l[i + 11..].trim_end_matches([',', '}', ' ']).parse().ok()).unwrap_or(1e9);
            cost.push((secs, l[a + 11..b].to_string()));
        }
    }
    cost.sort_by(|a, b| a.0.total_cmp(&b.0));
    let (each, sum) = if tier.thorough() { (20.0, 60.0) } else { (1.5, 6.0) };
    let mut used = 0.0;
    let mut keep = HashSet::new();
    for (c, n) in cost {
        if c <= each && used + c <= sum {
            used += c;
            keep.insert(n);
        }
    }
    fams.retain(|f| keep.contains(&esc(&f.name)));
}
/// Add the outcome of such a run to the evidence of the main run.
fn note_second(id: &str, build: &str, families: usize, cases: u64, calls: u64, bad: usize) {
    let path = format!("{}/evidence/{}.json", verif_dir(), id);
    let s = std::fs::read_to_string(&path).unwrap_or_default();
    let note = format!(
        "\"repeated_in_build_{}\": {{\"families\": {}, \"cases\": {}, \"transitions\": {}, \"violations\": {}}}",
        build, families, cases, calls, bad
    );
    let mut s = s.replacen("  \"skipped\":", &format!("  {},\n  \"skipped\":", note), 1);
    if bad > 0 {
        s = s.replacen("\"violations\": 0\n}", &format!("\"violations\": {}\n}}", bad), 1);
    }
    let _ = std::fs::write(&path, s);
}

/// `known_findings.txt` lines:  `known: property=<id> case=<exact family/case text>`
fn known_findings(id: &str) -> Vec<String> {
    let f = format!("{}/known_findings.txt", verif_dir());
    let s = std::fs::read_to_string(f).unwrap_or_default();
    let pre = format!("known: property={} case=", id);
    s.lines().filter_map(|l| l.strip_prefix(&pre).map(|x| x.trim().to_string())).collect()
}

fn grab(body: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\": ", key);
    let i = body.find(&k)? + k.len();
    let rest = &body[i..];
    let end = rest.find('\n')?;
    Some(rest[..end].trim_end_matches(',').to_string())
}

pub fn run_check(spec: Spec, build: impl Fn(Tier) -> Vec<Family>) -> ! {
    install_hook();
    let t0 = Instant::now();
    now_ms();
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay: Option<String> = None;
    let mut only: Option<String> = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = if args[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    if let Some(path) = replay {
        let body = std::fs::read_to_string(&path).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", path, e);
            std::process::exit(2)
        });
        let t = if grab(&body, "tier").as_deref() == Some("\"thorough\"") { Tier::Thorough } else { Tier::Quick };
        let fam = grab(&body, "family").unwrap_or_default();
        let idx: u64 = grab(&body, "index").and_then(|s| s.parse().ok()).unwrap_or(0);
        for f in build(t) {
            if esc(&f.name) == fam {
                println!("replaying {} #{}: {}", f.name, idx, (f.describe)(idx));
                let mut c = Ctx::default();
                let r = attempt(|| (f.run)(idx, &mut c)).unwrap_or_else(|p| Err(format!("unexpected panic: {}", p)));
                match r {
                    Ok(()) => {
                        println!("held");
                        std::process::exit(0)
                    }
                    Err(m) => {
                        println!("{}", m);
                        println!("VIOLATION property={} replay={}", spec.id, path);
                        std::process::exit(1)
                    }
                }
            }
        }
        eprintln!("no such family {}", fam);
        std::process::exit(2);
    }

    let mut fams = build(tier);
    let second = std::env::var("MC_SECOND").ok();
    if second.is_some() {
        second_pass(spec.id, tier, &mut fams);
    }
    let fams = fams;
    {
        let mut names = HashSet::new();
        for f in &fams {
            if !names.insert(f.name.clone()) {
                eprintln!("duplicate family name {}", f.name);
                std::process::exit(2);
            }
        }
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let slots: Vec<Slot> =
        (0..nthreads).map(|_| Slot { start: AtomicU64::new(0), idx: AtomicU64::new(0), fam: AtomicU64::new(0) }).collect();
    install_crash_handler(Crash { id: spec.id, tier, fams: &fams, slots: &slots });
    let case_limit: u64 = std::env::var("MC_CASE_TIMEOUT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(120_000);
    let done = AtomicBool::new(false);
    let known = known_findings(spec.id);
    let known_hit: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let mut total = Ctx::default();
    let mut violations: Vec<String> = vec![];
    let mut fam_report: Vec<String> = vec![];

    std::thread::scope(|sc| {
        let slots = &slots;
        let fams = &fams;
        let done = &done;
        let spec = &spec;
        let known = &known;
        let known_hit = &known_hit;
        sc.spawn(move || {
            // watchdog
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for (w, s) in slots.iter().enumerate() {
                    let st = s.start.load(Relaxed);
                    if st != 0 && now_ms() > st.max(BEATS[w].load(Relaxed)) + case_limit {
                        let f = &fams[s.fam.load(Relaxed) as usize];
                        let idx = s.idx.load(Relaxed);
                        if s.start.load(Relaxed) != st {
                            continue;
                        }
                        let d = (f.describe)(idx);
                        let m = format!("no result after {} ms: the call does not terminate", case_limit);
                        println!("{}: {} #{}: {}\n  {}", spec.id, f.name, idx, d, m);
                        let p = write_replay(spec.id, tier, &f.name, idx, &d, &m);
                        println!("VIOLATION property={} replay={}", spec.id, p);
                        std::process::exit(1);
                    }
                }
            }
        });
        for (fi, f) in fams.iter().enumerate() {
            if let Some(o) = &only {
                if !f.name.contains(o.as_str()) {
                    continue;
                }
            }
            let ft = Instant::now();
            let next = AtomicU64::new(0);
            let best = AtomicU64::new(u64::MAX);
            let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
            let chunk = (f.total / (nthreads as u64 * 64)).clamp(1, 4096);
            let n = if f.serial { 1 } else { nthreads };
            let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
            std::thread::scope(|s2| {
                for w in 0..n {
                    let (next, best, fail, merged) = (&next, &best, &fail, &merged);
                    let slot = &slots[w];
                    let b = std::thread::Builder::new().stack_size(2 << 20);
                    b.spawn_scoped(s2, move || {
                        let mut c = Ctx::default();
                        MY_SLOT.with(|m| m.set(w));
                        slot.fam.store(fi as u64, Relaxed);
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= f.total || a > best.load(Relaxed) {
                                break;
                            }
                            for idx in a..(a + chunk).min(f.total) {
                                if idx > best.load(Relaxed) {
                                    break;
                                }
                                slot.idx.store(idx, Relaxed);
                                slot.start.store(now_ms(), Relaxed);
                                let r = attempt(|| (f.run)(idx, &mut c))
                                    .unwrap_or_else(|p| Err(format!("unexpected panic: {}", p)));
                                slot.start.store(0, Relaxed);
                                c.cases += 1;
                                if let Err(m) = r {
                                    let tag = format!("{} :: {}", f.name, (f.describe)(idx));
                                    if known.iter().any(|k| *k == tag) {
                                        *known_hit.lock().unwrap().entry(tag).or_insert(0) += 1;
                                        continue;
                                    }
                                    let mut g = fail.lock().unwrap();
                                    if g.as_ref().map_or(true, |(i, _)| idx < *i) {
                                        *g = Some((idx, m));
                                        best.fetch_min(idx, Relaxed);
                                    }
                                    break;
                                }
                            }
                        }
                        merged.lock().unwrap().merge(c);
                    })
                    .expect("spawn");
                }
            });
            let c = merged.into_inner().unwrap();
            let secs = ft.elapsed().as_secs_f64();
            println!(
                "  {:<40} cases {:>10}/{:<10} states {:>9} calls {:>10} outcomes {:>8} {:.2}s",
                f.name,
                c.cases,
                f.total,
                c.states.len() as u64 + c.states_over,
                c.transitions,
                c.outcomes.len(),
                secs
            );
            fam_report.push(format!(
                "{{\"family\": {}, \"bound\": {}, \"size\": {}, \"executed\": {}, \"seconds\": {:.3}}}",
                esc(&f.name),
                esc(&f.bound),
                f.total,
                c.cases,
                secs
            ));
            if f.total > 0 {
                total.samples.push(format!("{}: {}", f.name, (f.describe)(f.total / 2)));
            }
            total.merge(c);
            if let Some((idx, m)) = fail.into_inner().unwrap() {
                let d = (f.describe)(idx);
                println!("{}: {} #{}: {}\n  {}", spec.id, f.name, idx, d, m);
                let p = write_replay(spec.id, tier, &f.name, idx, &d, &m);
                violations.push(p);
                break;
            }
        }
        done.store(true, Relaxed);
    });

    for (k, (v, d)) in &total.worst {
        println!("  worst {:<34} {:.3e}   {}", k, v, d);
    }
    for (k, v) in &total.notes {
        println!("  {:<40} {}", k, v);
    }
    for (k, v) in &total.skipped {
        println!("  skipped: {:<31} {}", k, v);
    }
    for (k, _) in known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", spec.id, k);
    }
    let states = total.states.len() as u64 + total.states_over;
    let exhaustive = violations.is_empty() && only.is_none();
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n", esc(spec.id)));
    j.push_str(&format!(" \"tier\": {},\n", esc(if tier.thorough() { "thorough" } else { "quick" })));
    j.push_str(&format!(" \"seed\": {},\n", seed));
    j.push_str(&format!(" \"level\": {},\n", esc(spec.level)));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n", total.cases));
    j.push_str(&format!("  \"distinct_nontrivial\": {},\n", total.nontrivial));
    j.push_str(&format!("  \"rule\": {},\n", esc(spec.rule)));
    j.push_str(&format!("  \"states\": {},\n", states));
    j.push_str(&format!("  \"transitions\": {},\n", total.transitions));
    j.push_str(&format!("  \"traces_validated_against_impl\": {},\n", total.traces));
    j.push_str(&format!("  \"distinct_observed_outcomes\": {},\n", total.outcomes.len()));
    j.push_str(&format!("  \"exhaustive\": {},\n", exhaustive));
    j.push_str(&format!("  \"families\": [\n   {}\n  ],\n", fam_report.join(",\n   ")));
    let kv = |m: &BTreeMap<&'static str, u64>| {
        m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    };
    j.push_str(&format!("  \"skipped\": {{{}}},\n", kv(&total.skipped)));
    j.push_str(&format!("  \"notes\": {{{}}},\n", kv(&total.notes)));
    let w: Vec<String> = total
        .worst
        .iter()
        .map(|(k, (v, d))| {
            let vs = if v.is_finite() { format!("{:e}", v) } else { "1e999".into() };
            format!("{}: {{\"value\": {}, \"at\": {}}}", esc(k), vs, esc(d))
        })
        .collect();
    j.push_str(&format!("  \"worst\": {{{}}},\n", w.join(", ")));
    let s: Vec<String> = total.samples.iter().take(12).map(|s| esc(s)).collect();
    j.push_str(&format!("  \"samples\": [{}]\n }},\n", s.join(", ")));
    let a: Vec<String> = spec.assumptions.iter().map(|s| esc(s)).collect();
    j.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
    j.push_str(&format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64()));
    j.push_str(&format!(" \"violations\": {}\n}}\n", violations.len()));
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Some(b) = &second {
        note_second(spec.id, b, fams.len(), total.cases, total.transitions, violations.len());
    } else if only.is_none() {
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, spec.id), j) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(2);
        }
    }
    println!(
        "{} {:?}: {} cases, {} states, {} transitions, {} traces, {} outcomes, {:.1}s",
        spec.id,
        tier,
        total.cases,
        states,
        total.transitions,
        total.traces,
        total.outcomes.len(),
        t0.elapsed().as_secs_f64()
    );
    if violations.is_empty() {
        std::process::exit(0);
    }
    for p in violations {
        println!("VIOLATION property={} replay={}", spec.id, p);
    }
    std::process::exit(1);
}
