//! Deterministic scheduler. Every task is an OS thread, but exactly one runs at a time (the
//! holder of the baton); at every seam (lock operation, emulated futex, callback into the
//! harness, sampled allocation) the running task asks the seeded scheduler who runs next.
use parking_lot::Op;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

// ---------------------------------------------------------------- rng
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD1B54A32D192ED03))
}
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 11) % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability a/b
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- plan pieces
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sched {
    /// switch with probability 1/n at each scheduling point
    Random { n: u32 },
    /// random priorities with `changes` random lowering points
    Pct { changes: u32, len: u32 },
    RoundRobin { every: u32 },
    /// (step, task) pairs at which the choice differed from "keep going"
    Script(Vec<(u64, u32)>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stall {
    pub task: u32,
    /// the task's n-th scheduling point
    pub at: u32,
    pub steps: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedPlan {
    pub seed: u64,
    pub sched: Sched,
    /// mean number of allocations between allocation scheduling points, 0 = none
    pub alloc_gap: u32,
    pub stalls: Vec<Stall>,
    /// most seam steps (lock operations and callbacks) before the run counts as not ending
    pub limit: u64,
    /// most allocations of one task before the run is given up as too costly
    pub work: u64,
}
impl SchedPlan {
    pub fn single(seed: u64, limit: u64, work: u64) -> SchedPlan {
        SchedPlan { seed, sched: Sched::Script(vec![]), alloc_gap: 0, stalls: vec![], limit, work }
    }
}

/// kinds of callback seam; a panic fault names one and a count
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Cb {
    CharLa = 0,
    CharConsume,
    CharOther,
    TokSource,
    TokLt,
    TokConsume,
    TokOther,
    Factory,
    Sempred,
    Action,
    ErrListener,
    AmbigListener,
    ParseListener,
    Strategy,
    Rule,
}
pub const NCB: usize = 15;
pub const CB_NAMES: [&str; NCB] = [
    "char_la", "char_consume", "char_other", "tok_source", "tok_lt", "tok_consume", "tok_other",
    "factory", "sempred", "action", "err_listener", "ambig_listener", "parse_listener", "strategy",
    "rule",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PanicAt {
    pub cb: Cb,
    pub n: u32,
}

/// payload of an injected panic
pub struct Injected;

// ---------------------------------------------------------------- thread-local task data
struct Tls {
    active: Cell<bool>,
    in_rt: Cell<bool>,
    id: Cell<usize>,
    alloc_left: Cell<u64>,
    alloc_gap: Cell<u64>,
    rng: Cell<u64>,
    hash_rng: Cell<u64>,
    hash_on: Cell<bool>,
    counts: [Cell<u32>; NCB],
    panic_cb: Cell<u8>,
    panic_n: Cell<u32>,
    fired: Cell<bool>,
    points: Cell<u32>,
    budget: Cell<u64>,
}
thread_local! {
    static T: Tls = const { Tls {
        active: Cell::new(false), in_rt: Cell::new(false), id: Cell::new(0),
        alloc_left: Cell::new(u64::MAX), alloc_gap: Cell::new(0), rng: Cell::new(0),
        hash_rng: Cell::new(0), hash_on: Cell::new(false),
        counts: [const { Cell::new(0) }; NCB], panic_cb: Cell::new(255), panic_n: Cell::new(0),
        fired: Cell::new(false), points: Cell::new(0), budget: Cell::new(0),
    } };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

// ---------------------------------------------------------------- raw futex baton
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
struct Baton(AtomicU32);
impl Baton {
    fn wait(&self) {
        for _ in 0..60 {
            if self.0.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                return;
            }
            std::hint::spin_loop();
        }
        loop {
            if self.0.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                return;
            }
            unsafe { raw_syscall(SYS_FUTEX, &self.0 as *const _ as i64, 128, 0, 0, 0, 0) };
        }
    }
    fn give(&self) {
        self.0.store(1, SeqCst);
        unsafe { raw_syscall(SYS_FUTEX, &self.0 as *const _ as i64, 129, 1, 0, 0, 0) };
    }
}

// ---------------------------------------------------------------- runtime
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}
struct Task {
    st: St,
    stall_until: u64,
    prio: u64,
    baton: &'static Baton,
    /// set when a futex wait ended by wake
    points: u32,
    what: (u8, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Abort {
    Deadlock(String),
    StepLimit(String),
    /// a task used up its allocation budget
    Work(u32),
}
struct Rt {
    on: bool,
    tasks: Vec<Task>,
    step: u64,
    seams: i64,
    plan: SchedPlan,
    rng: Rng,
    switches: Vec<(u64, u32)>,
    script_i: usize,
    change_points: Vec<u64>,
    low: u64,
    hash: u64,
    lock_ids: Vec<usize>,
    nswitch: u64,
    preempt_in_lock: u64,
    held: Vec<i32>,
    nstalls: u64,
    stall_steps: u64,
    lock_ops: u64,
    contended: u64,
    futex_waits: u64,
    abort: Option<Abort>,
    main: &'static Baton,
}
struct Global(UnsafeCell<Option<Rt>>);
unsafe impl Sync for Global {}
static RT: Global = Global(UnsafeCell::new(None));
pub static WORK: AtomicU64 = AtomicU64::new(0);

#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    unsafe { (*RT.0.get()).as_mut().unwrap() }
}

impl Rt {
    fn runnable(&self, t: usize) -> bool {
        self.tasks[t].st == St::Ready && self.tasks[t].stall_until <= self.step
    }
    fn any_runnable(&mut self) -> bool {
        (0..self.tasks.len()).any(|t| self.runnable(t))
    }
    /// choose who runs next; `cur` may be blocked or done
    fn choose(&mut self, cur: usize, weight_div: u64) -> Option<usize> {
        if !self.any_runnable() {
            // let simulated time pass until a stalled task may run again
            let next = self
                .tasks
                .iter()
                .filter(|t| t.st == St::Ready)
                .map(|t| t.stall_until)
                .min()?;
            self.step = next;
        }
        let n = self.tasks.len();
        let dflt = if self.runnable(cur) { cur } else { (0..n).find(|&t| self.runnable(t)).unwrap() };
        let runnable: u32 = (0..n).filter(|&t| self.runnable(t)).count() as u32;
        let mut c = dflt;
        let step = self.step;
        match &self.plan.sched {
            Sched::Script(v) => {
                while self.script_i < v.len() && v[self.script_i].0 < step {
                    self.script_i += 1;
                }
                if self.script_i < v.len() && v[self.script_i].0 == step {
                    let t = v[self.script_i].1 as usize;
                    self.script_i += 1;
                    if t < n && self.runnable(t) {
                        c = t;
                    }
                }
            }
            _ if runnable == 1 => {}
            Sched::Random { n: k } => {
                let k = *k as usize * weight_div as usize;
                if !self.runnable(cur) || self.rng.chance(1, k) {
                    let j = self.rng.below(runnable as usize);
                    c = (0..n).filter(|&t| self.runnable(t)).nth(j).unwrap();
                }
            }
            Sched::RoundRobin { every } => {
                if !self.runnable(cur) || step % *every as u64 == 0 {
                    c = (1..=n).map(|d| (cur + d) % n).find(|&t| self.runnable(t)).unwrap();
                }
            }
            Sched::Pct { .. } => {
                if self.change_points.contains(&step) && cur < n {
                    self.low -= 1;
                    self.tasks[cur].prio = self.low;
                }
                c = (0..n).filter(|&t| self.runnable(t)).max_by_key(|&t| self.tasks[t].prio).unwrap();
            }
        }
        if c != dflt {
            self.switches.push((step, c as u32));
        }
        Some(c)
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.tasks.iter().enumerate() {
            if t.st == St::Done {
                continue;
            }
            let a = match t.st {
                St::Blocked(_) => format!("blocked in {} on lock {}", OPS[t.what.0 as usize], t.what.1),
                _ => "ready".to_string(),
            };
            s.push_str(&format!("task {i}: {a}; "));
        }
        s
    }
}
const OPS: [&str; 7] = ["read", "write", "upgradable", "upgrade", "release", "mutex", "futex"];

/// hand the baton on; returns when this task has it again (never, after an abort)
fn switch_from(cur: usize, weight_div: u64) {
    let r = rt();
    let next = match r.choose(cur, weight_div) {
        Some(n) => n,
        None => {
            if r.tasks.iter().all(|t| t.st == St::Done) {
                r.main.give();
            } else {
                let d = r.describe();
                r.abort = Some(Abort::Deadlock(d));
                r.main.give();
                park_forever();
            }
            return;
        }
    };
    if next == cur {
        return;
    }
    r.nswitch += 1;
    if cur < r.held.len() && r.held[cur] > 0 {
        r.preempt_in_lock += 1;
    }
    let mine = r.tasks[cur].baton;
    let done = r.tasks[cur].st == St::Done;
    r.tasks[next].baton.give();
    if !done {
        mine.wait();
    }
}
fn park_forever() -> ! {
    loop {
        let w = AtomicU32::new(0);
        unsafe { raw_syscall(SYS_FUTEX, &w as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}

fn point(weight_div: u64) {
    let id = T.with(|t| t.id.get());
    let r = rt();
    r.step += 1;
    r.seams += 1;
    WORK.fetch_add(1, SeqCst);
    r.tasks[id].points += 1;
    if r.seams > r.plan.limit as i64 {
        let d = r.describe();
        r.abort = Some(Abort::StepLimit(format!("{} steps; {}", r.step, d)));
        r.main.give();
        park_forever();
    }
    let p = r.tasks[id].points;
    for i in 0..r.plan.stalls.len() {
        let s = &r.plan.stalls[i];
        if s.task as usize == id && s.at == p {
            r.tasks[id].stall_until = r.step + s.steps as u64;
            r.stall_steps += s.steps as u64;
            r.nstalls += 1;
        }
    }
    switch_from(id, weight_div);
}
/// run `f` as scheduler code (no nested scheduling points)
fn in_rt<R>(f: impl FnOnce() -> R) -> Option<R> {
    let ok = T.with(|t| {
        if t.active.get() && !t.in_rt.get() {
            t.in_rt.set(true);
            true
        } else {
            false
        }
    });
    if !ok {
        return None;
    }
    let r = f();
    T.with(|t| t.in_rt.set(false));
    Some(r)
}
pub fn active() -> bool {
    T.with(|t| t.active.get())
}

fn lock_id(r: &mut Rt, addr: usize) -> u32 {
    match r.lock_ids.iter().position(|&a| a == addr) {
        Some(i) => i as u32,
        None => {
            r.lock_ids.push(addr);
            r.lock_ids.len() as u32 - 1
        }
    }
}
fn hook_yield(op: Op, addr: usize) {
    in_rt(|| {
        let id = T.with(|t| t.id.get());
        point(1);
        let r = rt();
        let l = lock_id(r, addr);
        r.lock_ops += 1;
        match op {
            Op::Release => r.held[id] -= 1,
            Op::Upgrade => {}
            _ => r.held[id] += 1,
        }
        r.hash = mix2(r.hash, (id as u64) << 40 | (op as u64) << 32 | l as u64);
    });
}
fn block_on(what: u8, addr: usize) {
    in_rt(|| {
        let id = T.with(|t| t.id.get());
        let r = rt();
        r.contended += 1;
        let l = lock_id(r, addr);
        r.tasks[id].what = (what, l);
        r.tasks[id].st = St::Blocked(addr);
        r.step += 1;
        switch_from(id, 1);
    });
}
fn hook_block(op: Op, addr: usize) {
    if !active() {
        std::thread::yield_now();
        return;
    }
    block_on(op as u8, addr)
}
fn hook_wake(addr: usize) {
    in_rt(|| {
        for t in rt().tasks.iter_mut() {
            if t.st == St::Blocked(addr) {
                t.st = St::Ready;
            }
        }
    });
}
fn hook_timed(_addr: usize) -> bool {
    // a timed wait may expire at once
    in_rt(|| rt().rng.chance(1, 2)).unwrap_or(false)
}

pub fn yield_here() {
    in_rt(|| point(1));
}

/// A call from the library into harness-supplied code.
pub fn callback(cb: Cb) {
    if !active() {
        return;
    }
    let fire = T.with(|t| {
        let c = &t.counts[cb as usize];
        c.set(c.get() + 1);
        if t.panic_cb.get() == cb as u8 && t.panic_n.get() == c.get() && !t.fired.get() {
            t.fired.set(true);
            true
        } else {
            false
        }
    });
    in_rt(|| point(2));
    if fire && !std::thread::panicking() {
        std::panic::panic_any(Injected);
    }
}
pub fn counts() -> [u32; NCB] {
    T.with(|t| {
        let mut r = [0; NCB];
        for (i, c) in t.counts.iter().enumerate() {
            r[i] = c.get();
        }
        r
    })
}

#[inline]
pub fn alloc_hook() {
    T.with(|t| {
        if !t.active.get() || t.in_rt.get() {
            return;
        }
        let b = t.budget.get();
        if b == 0 {
            t.in_rt.set(true);
            let r = rt();
            r.abort = Some(Abort::Work(t.id.get() as u32));
            r.main.give();
            park_forever();
        }
        t.budget.set(b - 1);
        let l = t.alloc_left.get();
        if l > 1 {
            t.alloc_left.set(l - 1);
            return;
        }
        if t.alloc_gap.get() == 0 {
            t.alloc_left.set(u64::MAX);
            return;
        }
        let mut r = Rng(t.rng.get());
        let g = t.alloc_gap.get();
        t.alloc_left.set(1 + r.next() % (2 * g));
        t.rng.set(r.0);
        t.in_rt.set(true);
        rt().seams -= 1;
        point(1);
        t.in_rt.set(false);
    })
}

// ---------------------------------------------------------------- interposed libc
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fill_random(buf: *mut u8, len: usize) -> bool {
    T.with(|t| {
        if !t.hash_on.get() {
            return false;
        }
        let mut r = Rng(t.hash_rng.get());
        for i in 0..len {
            unsafe { *buf.add(i) = r.next() as u8 };
        }
        t.hash_rng.set(r.0);
        true
    })
}
/// # Safety
/// libc contract
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill_random(buf, len) {
        return len as isize;
    }
    let r = raw_syscall(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as isize
}
/// Stand-in for libc's `syscall`: std's locks wait and wake through it.
/// # Safety
/// libc contract
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && fill_random(a as *mut u8, b as usize) {
        return b;
    }
    if n == SYS_FUTEX && active() && !T.with(|t| t.in_rt.get()) {
        let op = b & 127;
        match op {
            0 | 9 => {
                let cur = (*(a as *const AtomicU32)).load(SeqCst);
                if cur != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                in_rt(|| rt().futex_waits += 1);
                if d != 0 {
                    in_rt(|| point(1));
                    *__errno_location() = 110;
                    return -1;
                }
                block_on(6, a as usize);
                return 0;
            }
            1 | 10 => {
                let mut k = 0;
                in_rt(|| {
                    for t in rt().tasks.iter_mut() {
                        if k < c && t.st == St::Blocked(a as usize) {
                            t.st = St::Ready;
                            k += 1;
                        }
                    }
                });
                in_rt(|| point(1));
                return k;
            }
            _ => {}
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- running a plan
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub lock_ops: u64,
    pub contended: u64,
    pub futex_waits: u64,
    pub preempt_in_lock: u64,
    pub stalls: u64,
    pub stall_steps: u64,
    pub schedule_hash: u64,
    pub locks: u64,
}
#[derive(Debug)]
pub struct Report {
    pub abort: Option<Abort>,
    pub script: Vec<(u64, u32)>,
    pub stats: Stats,
    pub tasks: Vec<TaskReport>,
}
#[derive(Clone, Debug, Default)]
pub struct TaskReport {
    pub finished: bool,
    pub panic: Option<String>,
    pub injected: bool,
    pub fired: bool,
    pub counts: [u32; NCB],
    pub points: u32,
    /// allocations made
    pub work: u64,
}
pub struct TaskSpec {
    pub f: Box<dyn FnOnce() + Send>,
    pub hash_seed: u64,
    pub panic_at: Option<PanicAt>,
}

pub struct Slot<T>(pub std::sync::Arc<UnsafeCell<Option<T>>>);
unsafe impl<T> Send for Slot<T> {}
unsafe impl<T> Sync for Slot<T> {}
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Default for Slot<T> {
    fn default() -> Self {
        Slot(std::sync::Arc::new(UnsafeCell::new(None)))
    }
}
impl<T> Slot<T> {
    pub fn put(&self, v: T) {
        unsafe { *self.0.get() = Some(v) }
    }
    pub fn take(&self) -> Option<T> {
        unsafe { (*self.0.get()).take() }
    }
    /// # Safety discipline: only the baton holder may call this
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut Option<T> {
        unsafe { &mut *self.0.get() }
    }
}

/// message of the panic caught last
pub fn take_panic_msg() -> String {
    in_rt(|| PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut()))).unwrap_or_default()
}
pub fn init() {
    parking_lot::set_hooks(hook_yield, hook_block, hook_wake, hook_timed);
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<Injected>() {
            "injected".to_string()
        } else {
            "?".to_string()
        };
        if std::env::var_os("SIMBT").is_some() { in_rt(|| eprintln!("{}", std::backtrace::Backtrace::force_capture())); }
        let is_task = T.with(|t| t.active.get());
        if is_task {
            in_rt(|| {
                PANIC_MSG.with(|m| {
                    let mut m = m.borrow_mut();
                    if m.is_empty() {
                        *m = format!("{msg} at {loc}");
                    }
                })
            });
        } else {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

pub fn run(plan: &SchedPlan, specs: Vec<TaskSpec>) -> Report {
    let n = specs.len();
    let mut rng = Rng::new(mix2(plan.seed, 77));
    let prios: Vec<u64> = (0..n).map(|_| 1_000_000 + (rng.next() >> 20)).collect();
    let mut change_points = vec![];
    if let Sched::Pct { changes, len } = plan.sched {
        for _ in 0..changes {
            change_points.push(1 + rng.below(len.max(1) as usize) as u64);
        }
    }
    let mk = || -> &'static Baton { Box::leak(Box::new(Baton(AtomicU32::new(0)))) };
    let main = mk();
    let batons: Vec<&'static Baton> = (0..n).map(|_| mk()).collect();
    let tasks = (0..n)
        .map(|i| Task { st: St::Ready, stall_until: 0, prio: prios[i], baton: batons[i], points: 0, what: (0, 0) })
        .collect();
    unsafe {
        *RT.0.get() = Some(Rt {
            on: true,
            tasks,
            step: 0,
            seams: 0,
            plan: plan.clone(),
            rng,
            switches: vec![],
            script_i: 0,
            change_points,
            low: 1_000_000,
            hash: 0,
            lock_ids: vec![],
            nswitch: 0,
            preempt_in_lock: 0,
            held: vec![0; n],
            nstalls: 0,
            stall_steps: 0,
            lock_ops: 0,
            contended: 0,
            futex_waits: 0,
            abort: None,
            main,
        });
    }
    let mut handles = vec![];
    let slots: Vec<Slot<TaskReport>> = (0..n).map(|_| Slot::default()).collect();
    for (i, spec) in specs.into_iter().enumerate() {
        let slot = slots[i].clone();
        let baton = batons[i];
        let (seed, gap, work) = (plan.seed, plan.alloc_gap as u64, plan.work);
        let body = move || {
            baton.wait();
            T.with(|t| {
                t.id.set(i);
                let mut r = Rng::new(mix2(seed, 1000 + i as u64));
                t.alloc_gap.set(gap);
                t.alloc_left.set(if gap == 0 { u64::MAX } else { 1 + r.next() % (2 * gap) });
                t.rng.set(r.0);
                t.hash_rng.set(mix(spec.hash_seed));
                t.hash_on.set(true);
                if let Some(p) = &spec.panic_at {
                    t.panic_cb.set(p.cb as u8);
                    t.panic_n.set(p.n);
                }
                t.budget.set(work);
                t.active.set(true);
            });
            let f = spec.f;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            T.with(|t| t.in_rt.set(true));
            let mut tr = TaskReport { finished: true, counts: counts(), ..Default::default() };
            tr.fired = T.with(|t| t.fired.get());
            tr.points = rt().tasks[i].points;
            tr.work = work - T.with(|t| t.budget.get());
            if let Err(e) = res {
                tr.injected = e.is::<Injected>();
                tr.panic = Some(PANIC_MSG.with(|m| m.borrow().clone()));
                // drop of the payload is harmless
                drop(e);
            }
            slot.put(tr);
            rt().tasks[i].st = St::Done;
            switch_from(i, 1);
            T.with(|t| {
                t.active.set(false);
            });
        };
        handles.push(
            std::thread::Builder::new().stack_size(16 << 20).spawn(body).expect("spawn"),
        );
    }
    // start: pretend the scheduler is entered from nobody
    let first = rt().choose(0, 1);
    match first {
        Some(f) => rt().tasks[f].baton.give(),
        None => main.give(),
    }
    main.wait();
    let aborted = rt().abort.is_some();
    if !aborted {
        for h in handles {
            let _ = h.join();
        }
    }
    let r = rt();
    let stats = Stats {
        steps: r.step,
        switches: r.nswitch,
        lock_ops: r.lock_ops,
        contended: r.contended,
        futex_waits: r.futex_waits,
        preempt_in_lock: r.preempt_in_lock,
        stalls: r.nstalls,
        stall_steps: r.stall_steps,
        schedule_hash: r.hash,
        locks: r.lock_ids.len() as u64,
    };
    r.on = false;
    Report {
        abort: r.abort.clone(),
        script: r.switches.clone(),
        stats,
        tasks: slots.iter().map(|s| s.get().clone().unwrap_or_default()).collect(),
    }
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_hook();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        alloc_hook();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_hook();
        std::alloc::System.alloc_zeroed(l)
    }
}
