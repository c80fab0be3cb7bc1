//! Stand-in for `parking_lot` used only by the simulator build.
//!
//! Same locking discipline as parking_lot 0.11 (readers are held back by the writer bit,
//! one upgradable holder at a time, `upgrade` takes the writer bit and waits for readers to
//! drain), but every acquisition and release goes through hooks, so that a scheduler
//! decides who runs next. Outside a simulation the hooks do nothing.
use lock_api::{
    GuardNoSend, RawMutex as RawMutexTrait, RawRwLock as RawRwLockTrait, RawRwLockDowngrade,
    RawRwLockFair, RawRwLockRecursive, RawRwLockTimed, RawRwLockUpgrade,
    RawRwLockUpgradeDowngrade, RawRwLockUpgradeFair, RawRwLockUpgradeTimed, RawMutexFair,
    RawMutexTimed,
};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Op {
    Shared = 0,
    Exclusive,
    Upgradable,
    Upgrade,
    Release,
    Mutex,
}

/// Called before an acquisition attempt and after a release (a scheduling point).
static YIELD: AtomicUsize = AtomicUsize::new(0);
/// Called when an acquisition cannot proceed; returns after `WAKE` on that address.
static BLOCK: AtomicUsize = AtomicUsize::new(0);
static WAKE: AtomicUsize = AtomicUsize::new(0);
/// Called on a timed acquisition that cannot proceed; true means keep waiting.
static TIMED: AtomicUsize = AtomicUsize::new(0);

pub fn set_hooks(
    y: fn(Op, usize),
    b: fn(Op, usize),
    w: fn(usize),
    t: fn(usize) -> bool,
) {
    YIELD.store(y as usize, SeqCst);
    BLOCK.store(b as usize, SeqCst);
    WAKE.store(w as usize, SeqCst);
    TIMED.store(t as usize, SeqCst);
}
fn yld(op: Op, a: usize) {
    let p = YIELD.load(SeqCst);
    if p != 0 {
        let f: fn(Op, usize) = unsafe { std::mem::transmute(p) };
        f(op, a)
    }
}
fn block(op: Op, a: usize) {
    let p = BLOCK.load(SeqCst);
    if p != 0 {
        let f: fn(Op, usize) = unsafe { std::mem::transmute(p) };
        f(op, a)
    } else {
        std::thread::yield_now()
    }
}
fn wake(a: usize) {
    let p = WAKE.load(SeqCst);
    if p != 0 {
        let f: fn(usize) = unsafe { std::mem::transmute(p) };
        f(a)
    }
}
fn timed(a: usize) -> bool {
    let p = TIMED.load(SeqCst);
    if p != 0 {
        let f: fn(usize) -> bool = unsafe { std::mem::transmute(p) };
        f(a)
    } else {
        false
    }
}

const W: u32 = 1;
const U: u32 = 2;
const R: u32 = 4;

pub struct RawRwLock {
    s: AtomicU32,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn upd(&self, f: impl Fn(u32) -> Option<u32>) -> bool {
        self.s.fetch_update(SeqCst, SeqCst, f).is_ok()
    }
    fn readers(&self) -> u32 {
        self.s.load(SeqCst) / R
    }
    fn released(&self) {
        wake(self.addr());
        yld(Op::Release, self.addr());
    }
    fn drain(&self, op: Op) {
        while self.readers() != 0 {
            block(op, self.addr());
        }
    }
}

unsafe impl RawRwLockTrait for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock { s: AtomicU32::new(0) };
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        yld(Op::Shared, self.addr());
        while !self.upd(|s| if s & W == 0 { Some(s + R) } else { None }) {
            block(Op::Shared, self.addr());
        }
    }
    fn try_lock_shared(&self) -> bool {
        yld(Op::Shared, self.addr());
        self.upd(|s| if s & W == 0 { Some(s + R) } else { None })
    }
    unsafe fn unlock_shared(&self) {
        self.s.fetch_sub(R, SeqCst);
        self.released();
    }
    fn lock_exclusive(&self) {
        yld(Op::Exclusive, self.addr());
        while !self.upd(|s| if s & (W | U) == 0 { Some(s | W) } else { None }) {
            block(Op::Exclusive, self.addr());
        }
        self.drain(Op::Exclusive);
    }
    fn try_lock_exclusive(&self) -> bool {
        yld(Op::Exclusive, self.addr());
        self.upd(|s| if s == 0 { Some(W) } else { None })
    }
    unsafe fn unlock_exclusive(&self) {
        self.s.fetch_and(!W, SeqCst);
        self.released();
    }
    fn is_locked(&self) -> bool {
        self.s.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.s.load(SeqCst) & W != 0
    }
}
unsafe impl RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.unlock_shared()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.unlock_exclusive()
    }
}
unsafe impl RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.upd(|s| Some((s & !W) + R));
        self.released();
    }
}
unsafe impl RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        yld(Op::Shared, self.addr());
        // recursive readers ignore a waiting writer while other readers hold the lock
        while !self.upd(|s| if s & W == 0 || s >= R { Some(s + R) } else { None }) {
            block(Op::Shared, self.addr());
        }
    }
    fn try_lock_shared_recursive(&self) -> bool {
        yld(Op::Shared, self.addr());
        self.upd(|s| if s & W == 0 || s >= R { Some(s + R) } else { None })
    }
}
unsafe impl RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        yld(Op::Upgradable, self.addr());
        while !self.upd(|s| if s & (W | U) == 0 { Some(s | U) } else { None }) {
            block(Op::Upgradable, self.addr());
        }
    }
    fn try_lock_upgradable(&self) -> bool {
        yld(Op::Upgradable, self.addr());
        self.upd(|s| if s & (W | U) == 0 { Some(s | U) } else { None })
    }
    unsafe fn unlock_upgradable(&self) {
        self.s.fetch_and(!U, SeqCst);
        self.released();
    }
    unsafe fn upgrade(&self) {
        yld(Op::Upgrade, self.addr());
        self.upd(|s| Some((s & !U) | W));
        self.drain(Op::Upgrade);
    }
    unsafe fn try_upgrade(&self) -> bool {
        yld(Op::Upgrade, self.addr());
        self.upd(|s| if s == U { Some(W) } else { None })
    }
}
unsafe impl RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.unlock_upgradable()
    }
}
unsafe impl RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.upd(|s| Some((s & !U) + R));
        self.released();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.upd(|s| Some((s & !W) | U));
        self.released();
    }
}
unsafe impl RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        loop {
            if self.try_lock_shared() {
                return true;
            }
            if !timed(self.addr()) {
                return false;
            }
        }
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        self.try_lock_shared_for(Duration::ZERO)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        loop {
            if self.try_lock_exclusive() {
                return true;
            }
            if !timed(self.addr()) {
                return false;
            }
        }
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        self.try_lock_exclusive_for(Duration::ZERO)
    }
}
unsafe impl RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        loop {
            if self.try_lock_upgradable() {
                return true;
            }
            if !timed(self.addr()) {
                return false;
            }
        }
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        self.try_lock_upgradable_for(Duration::ZERO)
    }
    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        loop {
            if self.try_upgrade() {
                return true;
            }
            if !timed(self.addr()) {
                return false;
            }
        }
    }
    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        self.try_upgrade_for(Duration::ZERO)
    }
}

pub struct RawMutex {
    s: AtomicU32,
}
impl RawMutex {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
}
unsafe impl RawMutexTrait for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { s: AtomicU32::new(0) };
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        yld(Op::Mutex, self.addr());
        while self.s.swap(1, SeqCst) != 0 {
            block(Op::Mutex, self.addr());
        }
    }
    fn try_lock(&self) -> bool {
        yld(Op::Mutex, self.addr());
        self.s.swap(1, SeqCst) == 0
    }
    unsafe fn unlock(&self) {
        self.s.store(0, SeqCst);
        wake(self.addr());
        yld(Op::Release, self.addr());
    }
    fn is_locked(&self) -> bool {
        self.s.load(SeqCst) != 0
    }
}
unsafe impl RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.unlock()
    }
}
unsafe impl RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        loop {
            if self.try_lock() {
                return true;
            }
            if !timed(self.addr()) {
                return false;
            }
        }
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        self.try_lock_for(Duration::ZERO)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static K: u8 = const { 0 });
        K.with(|x| std::num::NonZeroUsize::new(x as *const u8 as usize).unwrap())
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> =
    lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as RawRwLockTrait>::INIT, v)
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as RawMutexTrait>::INIT, v)
}
