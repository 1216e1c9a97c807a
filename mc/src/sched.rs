//! A controlled scheduler over real threads: exactly one thread runs at a time, and the running thread
//! changes only where a plan says: at a scheduling point (scalar operation, allocation, release), or at a
//! machine instruction after such a point (the thread is then single-stepped through the processor's trap flag).
use crate::alloc::set_alloc_hook;
use crate::ops::{set_quiet_hook, Dig};
use crate::scalars::set_hook;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex, Once};
use std::time::Duration;

/// (step of the global count of scheduling points, thread to continue with)
pub type Plan = Vec<(u64, usize)>;
/// one preemption: after scheduling point `point` (0 = start of the job) of the starting thread and `extra`
/// instructions more
#[derive(Clone, Copy, Debug)]
pub struct Fine {
    pub point: u64,
    pub extra: u64,
    pub to: usize,
}

struct State {
    epoch: usize,
    arrived: usize,
    current: usize,
    done: Vec<bool>,
    plan: Plan,
    next: usize,
    fine: Option<Fine>,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
    steps: AtomicU64,
    switch_at: AtomicU64,
    cur: AtomicUsize,
    stop: AtomicBool,
    tids: Vec<AtomicI32>,
    pub takeovers: AtomicU64,
    pub missed: AtomicU64,
}
/// turns taken over from blocked threads, in the whole process
static BLOCKED: AtomicU64 = AtomicU64::new(0);
const FINE: u64 = u64::MAX - 1;

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// single-stepping: 0 off, 1 counting, 2 counting down
    static STEP: Cell<u8> = const { Cell::new(0) };
    static INSTR: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static GAPS: Cell<(*mut u32, usize)> = const { Cell::new((std::ptr::null_mut(), 0)) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static SAT: Cell<*const Sat> = const { Cell::new(std::ptr::null()) };
}

// ---- single stepping ----
#[inline(always)]
fn trap_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn trap_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") }
}
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let u = unsafe { &mut *(u as *mut libc::ucontext_t) };
    let ip = u.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let (lo, hi) = unsafe { (std::ptr::addr_of!(__executable_start) as usize, std::ptr::addr_of!(etext) as usize) };
    if ip < lo || ip >= hi {
        return; // inside libc: no preemption (the other thread may need the same lock of the harness)
    }
    match STEP.with(|s| s.get()) {
        1 => {
            INSTR.with(|i| i.set(i.get() + 1));
            let l = LEFT.with(|l| l.get());
            LEFT.with(|c| c.set(l - 1));
            if l == 1 {
                STEP.with(|s| s.set(0));
                u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            }
        }
        2 => {
            let l = LEFT.with(|l| l.get());
            if l > 0 {
                LEFT.with(|c| c.set(l - 1));
                return;
            }
            STEP.with(|s| s.set(0));
            u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            let (s, me) = ME.with(|m| m.get());
            if !s.is_null() {
                unsafe { &*s }.preempt_fine(me);
            }
        }
        3 => {
            let p = SAT.with(|s| s.get());
            if QUIET.with(|q| q.get()) == 0 && !p.is_null() {
                unsafe { &*p }.step();
            }
        }
        _ => u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100,
    }
}
fn install_trap() {
    static O: Once = Once::new();
    O.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    });
}
/// the harness itself is at work (building digests): no scheduling points, no stepping
fn quiet_hook(enter: bool) {
    if enter {
        QUIET.with(|q| q.set(q.get() + 1));
        if STEP.with(|s| s.get()) != 0 {
            trap_off();
        }
    } else {
        QUIET.with(|q| q.set(q.get() - 1));
        if STEP.with(|s| s.get()) != 0 && QUIET.with(|q| q.get()) == 0 {
            trap_on();
        }
    }
}
fn hooks(h: Option<fn()>) {
    set_alloc_hook(h);
    set_hook(h);
    set_quiet_hook(h.map(|_| quiet_hook as fn(bool)));
}

/// Every scheduling point of a job comes here, whether it is being measured or scheduled.
fn hook() {
    if QUIET.with(|q| q.get()) != 0 {
        return;
    }
    let (s, me) = ME.with(|m| m.get());
    if s.is_null() {
        let p = SAT.with(|s| s.get());
        if !p.is_null() {
            unsafe { &*p }.step();
            return;
        }
        COUNT.with(|c| c.set(c.get() + 1));
        let (p, n) = GAPS.with(|g| g.get());
        if !p.is_null() {
            let k = COUNT.with(|c| c.get()) as usize;
            if k <= n {
                unsafe { *p.add(k - 1) = INSTR.with(|i| i.get()) as u32 };
            }
            INSTR.with(|i| i.set(0));
        }
        return;
    }
    let s = unsafe { &*s };
    if STEP.with(|c| c.get()) == 2 {
        // the instruction was not reached before the next scheduling point
        trap_off();
        STEP.with(|c| c.set(0));
        s.missed.fetch_add(1, Relaxed);
        s.preempt_fine(me);
    }
    let k = s.steps.fetch_add(1, SeqCst);
    if k == s.switch_at.load(SeqCst) {
        s.point(me);
    }
}
/// scheduling points of a job run alone
pub fn points(job: &dyn Fn() -> Dig) -> (u64, Dig) {
    COUNT.with(|c| c.set(0));
    hooks(Some(hook));
    let d = job();
    hooks(None);
    (COUNT.with(|c| c.get()), d)
}
/// number of instructions before the first, between consecutive and after the last scheduling point of a job run
/// alone; None if there are more than `max_instr`
pub fn gaps(job: &dyn Fn() -> Dig, max_points: usize, max_instr: u64) -> Option<Vec<u32>> {
    install_trap();
    let mut v = vec![0u32; max_points + 1];
    COUNT.with(|c| c.set(0));
    INSTR.with(|c| c.set(0));
    GAPS.with(|g| g.set((v.as_mut_ptr(), max_points)));
    LEFT.with(|l| l.set(max_instr + 1));
    hooks(Some(hook));
    STEP.with(|s| s.set(1));
    trap_on();
    let d = job();
    trap_off();
    let complete = STEP.with(|s| s.replace(0)) == 1;
    hooks(None);
    GAPS.with(|g| g.set((std::ptr::null_mut(), 0)));
    let n = COUNT.with(|c| c.get()) as usize;
    drop(d);
    if n <= max_points {
        v[n] = INSTR.with(|i| i.get()) as u32;
        v.truncate(n + 1);
    }
    if complete {
        Some(v)
    } else {
        None
    }
}
fn asleep(tid: i32) -> bool {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = asleep_now(tid);
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
fn asleep_now(tid: i32) -> bool {
    let mut b = [0u8; 256];
    let n = {
        use std::io::Read;
        match std::fs::File::open(format!("/proc/self/task/{}/stat", tid)) {
            Ok(mut f) => f.read(&mut b).unwrap_or(0),
            Err(_) => return false,
        }
    };
    // pid (comm) state ...
    match b[..n].iter().rposition(|c| *c == b')') {
        Some(i) => b.get(i + 2) == Some(&b'S'),
        None => false,
    }
}
pub enum Plans<'a> {
    Coarse(&'a [(usize, Plan)]),
    /// the starting thread and its one preemption
    Fine(&'a [(usize, Fine)]),
}
impl Plans<'_> {
    fn len(&self) -> usize {
        match self {
            Plans::Coarse(p) => p.len(),
            Plans::Fine(p) => p.len(),
        }
    }
}
impl Sched {
    fn arm(&self, g: &State) {
        let at = match g.fine {
            Some(f) if f.point > 0 => f.point - 1,
            Some(_) => FINE,
            None => g.plan.get(g.next).map(|p| p.0).unwrap_or(u64::MAX),
        };
        self.switch_at.store(at, SeqCst)
    }
    /// wait until it is `me`'s turn; a runner that makes no progress (blocked on a lock of the code
    /// under test) loses its turn
    fn wait_turn<'a>(&'a self, mut g: std::sync::MutexGuard<'a, State>, me: usize) {
        let (mut last, mut idle, mut slept) = (u64::MAX, 0, 0);
        while g.current != me {
            let (g2, t) = self.cv.wait_timeout(g, Duration::from_millis(4)).unwrap();
            g = g2;
            if t.timed_out() && g.current != me && g.current < self.tids.len() {
                let now = self.steps.load(SeqCst);
                if now != last {
                    (idle, slept) = (0, 0);
                }
                last = now;
                idle += 1;
                slept = if asleep(self.tids[g.current].load(SeqCst)) { slept + 1 } else { 0 };
                if slept >= 3 || idle >= 25 {
                    self.takeovers.fetch_add(1, Relaxed);
                    BLOCKED.fetch_add(1, Relaxed);
                    g.current = me;
                    break;
                }
            }
        }
    }
    /// the scheduling point named by the plan is reached
    fn point(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        if let Some(f) = g.fine {
            drop(g);
            self.switch_at.store(u64::MAX, SeqCst);
            self.start_stepping(f.extra);
            return;
        }
        while g.next < g.plan.len() && g.plan[g.next].0 < self.steps.load(SeqCst) {
            let to = g.plan[g.next].1;
            g.next += 1;
            if to != me && !g.done[to] {
                g.current = to;
            }
        }
        self.arm(&g);
        if g.current != me {
            self.cv.notify_all();
            self.wait_turn(g, me);
        }
    }
    fn start_stepping(&self, extra: u64) {
        LEFT.with(|l| l.set(extra));
        STEP.with(|s| s.set(2));
        trap_on();
    }
    fn preempt_fine(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        if let Some(f) = g.fine.take() {
            if f.to != me && !g.done[f.to] {
                g.current = f.to;
                self.cv.notify_all();
                self.wait_turn(g, me);
            }
        }
    }
    /// Run all jobs under every plan; each job's digest must be the expected one in every schedule.
    /// Ok((schedules run, turns taken over, fine preemptions that came one point late)).
    pub fn explore(jobs: &[&(dyn Fn() -> Dig + Sync)], expect: &[Dig], plans: &Plans) -> Result<(u64, u64, u64), (usize, usize)> {
        if let Plans::Fine(_) = plans {
            install_trap();
        }
        let n = jobs.len();
        let s = Sched {
            st: Mutex::new(State { epoch: 0, arrived: 0, current: usize::MAX, done: vec![true; n], plan: vec![], next: 0, fine: None }),
            cv: Condvar::new(),
            steps: AtomicU64::new(0),
            switch_at: AtomicU64::new(u64::MAX),
            cur: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            tids: (0..n).map(|_| AtomicI32::new(0)).collect(),
            takeovers: AtomicU64::new(0),
            missed: AtomicU64::new(0),
        };
        let bad: Mutex<Option<(usize, usize)>> = Mutex::new(None);
        let ran = AtomicU64::new(0);
        let worker = crate::engine::worker();
        std::thread::scope(|sc| {
            for me in 0..n {
                let (s, bad, job, want, ran) = (&s, &bad, jobs[me], &expect[me], &ran);
                sc.spawn(move || {
                    s.tids[me].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
                    for k in 0..plans.len() {
                        let mut step_now = None;
                        {
                            let mut g = s.st.lock().unwrap();
                            g.arrived += 1;
                            if g.arrived == n {
                                g.arrived = 0;
                                g.epoch = k + 1;
                                g.done = vec![false; n];
                                g.next = 0;
                                match plans {
                                    Plans::Coarse(p) => {
                                        g.plan = p[k].1.clone();
                                        g.fine = None;
                                        g.current = p[k].0;
                                    }
                                    Plans::Fine(p) => {
                                        g.plan = vec![];
                                        g.fine = Some(p[k].1);
                                        g.current = p[k].0;
                                    }
                                }
                                s.steps.store(0, SeqCst);
                                s.arm(&g);
                                s.cur.store(k, SeqCst);
                                crate::engine::beat(worker);
                                // operations that block each other make schedules slow: the rest is left out (and counted)
                                let slow = BLOCKED.load(Relaxed) > 40_000 && s.takeovers.load(Relaxed) > 20;
                                s.stop.store(slow || bad.lock().unwrap().is_some(), SeqCst);
                                if !s.stop.load(SeqCst) {
                                    ran.fetch_add(1, SeqCst);
                                }
                                s.cv.notify_all();
                            }
                            while g.epoch <= k {
                                g = s.cv.wait(g).unwrap();
                            }
                            if let (Plans::Fine(p), true) = (plans, s.switch_at.load(SeqCst) == FINE) {
                                if p[k].0 == me {
                                    step_now = Some(p[k].1.extra);
                                }
                            }
                            s.wait_turn(g, me);
                        }
                        if s.stop.load(SeqCst) {
                            // everybody sees the same value: it changes only between schedules
                            let mut g = s.st.lock().unwrap();
                            g.done[me] = true;
                            if let Some(t) = (0..n).find(|t| !g.done[*t]) {
                                g.current = t;
                                s.cv.notify_all();
                            }
                            return;
                        }
                        ME.with(|m| m.set((s, me)));
                        hooks(Some(hook));
                        if let Some(x) = step_now {
                            s.start_stepping(x);
                        }
                        let d = job();
                        trap_off();
                        if STEP.with(|c| c.replace(0)) == 2 {
                            s.missed.fetch_add(1, Relaxed);
                        }
                        hooks(None);
                        ME.with(|m| m.set((std::ptr::null(), 0)));
                        if &d != want {
                            let mut b = bad.lock().unwrap();
                            if b.is_none() {
                                *b = Some((k, me));
                            }
                        }
                        drop(d);
                        let mut g = s.st.lock().unwrap();
                        g.done[me] = true;
                        if g.current == me {
                            if let Some(t) = (1..=n).map(|d| (me + d) % n).find(|t| !g.done[*t]) {
                                g.current = t;
                                s.cv.notify_all();
                            } else {
                                g.current = usize::MAX;
                            }
                        }
                    }
                });
            }
        });
        match bad.into_inner().unwrap() {
            Some(b) => Err(b),
            None => Ok((ran.into_inner(), s.takeovers.load(Relaxed), s.missed.load(Relaxed))),
        }
    }
}

/// Between any two instructions of one thread (single-stepped), or at each of its scheduling points (`fine` false), at every
/// `every`-th, starting with `phase`, the other thread runs its whole operation. One schedule, with as many preemptions.
pub struct Sat {
    every: u64,
    phase: u64,
    at: AtomicU64,
    asked: AtomicU64,
    done: AtomicU64,
    late: AtomicU64,
    quit: AtomicBool,
    bad: AtomicU64,
    tid: AtomicI32,
    a: std::thread::Thread,
    b: std::sync::OnceLock<std::thread::Thread>,
}
impl Sat {
    fn step(&self) {
        let i = self.at.fetch_add(1, Relaxed);
        if i % self.every != self.phase || self.done.load(SeqCst) != self.asked.load(SeqCst) {
            return; // or the other thread is still blocked
        }
        QUIET.with(|q| q.set(q.get() + 1));
        let n = self.asked.fetch_add(1, SeqCst) + 1;
        self.b.get().unwrap().unpark();
        let (mut slept, mut idle) = (0, 0);
        while self.done.load(SeqCst) != n {
            let t0 = std::time::Instant::now();
            std::thread::park_timeout(Duration::from_millis(3));
            if self.done.load(SeqCst) != n && t0.elapsed().as_millis() >= 3 {
                slept = if asleep(self.tid.load(SeqCst)) { slept + 1 } else { 0 };
                idle += 1;
                if slept >= 3 || idle >= 40 {
                    self.late.fetch_add(1, Relaxed);
                    break;
                }
            }
        }
        QUIET.with(|q| q.set(q.get() - 1));
    }
}
/// Ok((runs of the second job, runs during which it was blocked)); Err(who)
pub fn saturate(ja: &(dyn Fn() -> Dig + Sync), jb: &(dyn Fn() -> Dig + Sync), want: &[Dig; 2], fine: bool, every: u64, phase: u64) -> Result<(u64, u64), (usize, u64)> {
    install_trap();
    let s = Sat {
        every,
        phase,
        at: AtomicU64::new(0),
        asked: AtomicU64::new(0),
        done: AtomicU64::new(0),
        late: AtomicU64::new(0),
        quit: AtomicBool::new(false),
        bad: AtomicU64::new(u64::MAX),
        tid: AtomicI32::new(0),
        a: std::thread::current(),
        b: std::sync::OnceLock::new(),
    };
    let mut ok_a = true;
    std::thread::scope(|sc| {
        let sr = &s;
        let h = sc.spawn(move || {
            sr.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
            loop {
                while sr.asked.load(SeqCst) == sr.done.load(SeqCst) {
                    if sr.quit.load(SeqCst) {
                        return;
                    }
                    std::thread::park();
                }
                if jb() != want[1] {
                    sr.bad.fetch_min(sr.at.load(Relaxed), SeqCst);
                }
                sr.done.fetch_add(1, SeqCst);
                sr.a.unpark();
            }
        });
        let _ = s.b.set(h.thread().clone());
        while s.tid.load(SeqCst) == 0 {
            std::thread::yield_now();
        }
        SAT.with(|c| c.set(&s));
        if fine {
            set_quiet_hook(Some(quiet_hook));
            STEP.with(|c| c.set(3));
            trap_on();
        } else {
            hooks(Some(hook));
        }
        let d = ja();
        trap_off();
        STEP.with(|c| c.set(0));
        hooks(None);
        SAT.with(|c| c.set(std::ptr::null()));
        s.quit.store(true, SeqCst);
        h.thread().unpark();
        ok_a = d == want[0];
    });
    if !ok_a {
        return Err((0, 0));
    }
    match s.bad.load(SeqCst) {
        u64::MAX => Ok((s.done.load(SeqCst), s.late.load(SeqCst))),
        at => Err((1, at)),
    }
}
