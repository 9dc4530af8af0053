//! Controls which thread runs. In a controlled run exactly one of the participating threads runs at a time; which
//! one is decided, from a seed, at every point where a thread allocates or frees memory, enters a system call on a
//! file, or waits for or wakes other threads. Locks of any kind that wait by futex (std, parking_lot) work as usual:
//! their calls are answered here. When no such point is reached for a while (busy waiting), the threads run freely.
use libc::{c_int, c_long};
use std::cell::{Cell, UnsafeCell};
use std::ptr::null;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAX: usize = 8;

/// a system call, bypassing all interposition
pub unsafe fn raw(nr: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") nr => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}
#[macro_export]
macro_rules! sys {
    ($nr:expr) => { $crate::sched::raw($nr, 0, 0, 0, 0, 0, 0) };
    ($nr:expr, $a:expr) => { $crate::sched::raw($nr, $a as i64, 0, 0, 0, 0, 0) };
    ($nr:expr, $a:expr, $b:expr) => { $crate::sched::raw($nr, $a as i64, $b as i64, 0, 0, 0, 0) };
    ($nr:expr, $a:expr, $b:expr, $c:expr) => { $crate::sched::raw($nr, $a as i64, $b as i64, $c as i64, 0, 0, 0) };
    ($nr:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { $crate::sched::raw($nr, $a as i64, $b as i64, $c as i64, $d as i64, 0, 0) };
    ($nr:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr) => { $crate::sched::raw($nr, $a as i64, $b as i64, $c as i64, $d as i64, $e as i64, 0) };
    ($nr:expr, $a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr) => { $crate::sched::raw($nr, $a as i64, $b as i64, $c as i64, $d as i64, $e as i64, $f as i64) };
}

#[derive(Clone, Copy, PartialEq)]
enum Status {
    Absent,
    Ready,
    /// waits for a futex
    Blocked(usize),
    Done,
}

struct State {
    status: [Status; MAX],
    current: Option<usize>,
    rng: u64,
    /// the order in which threads are preferred (priority scheduling), lower first
    prio: [u32; MAX],
    low: u32,
}

pub struct Sched {
    n: usize,
    policy: Policy,
    lock: AtomicBool,
    st: UnsafeCell<State>,
    go: [AtomicU32; MAX],
    free: AtomicBool,
    arrived: AtomicUsize,
    pub points: AtomicU64,
    pub switches: AtomicU64,
}
unsafe impl Sync for Sched {}
unsafe impl Send for Sched {}

#[derive(Clone, Copy)]
pub enum Policy {
    /// switch at one point of n
    Random(u32),
    /// the thread of highest priority runs; at one point of n it gets the lowest priority
    Priority(u32),
    /// no control, but delays at one point of n
    Noise(u32),
}

static CURRENT: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());
static TIME: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<(*const Sched, usize)> = const { Cell::new((null(), 0)) };
    static NOISE: Cell<u64> = const { Cell::new(0) };
}

fn step(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

const WAIT: c_long = 0;
const WAKE: c_long = 1;

impl Sched {
    pub fn new(n: usize, policy: Policy, seed: u64) -> Self {
        let mut rng = seed;
        let mut prio = [0; MAX];
        for p in prio.iter_mut() {
            *p = (step(&mut rng) % 1000) as u32;
        }
        Sched {
            n,
            policy,
            lock: AtomicBool::new(false),
            st: UnsafeCell::new(State { status: [Status::Absent; MAX], current: None, rng, prio, low: 1000 }),
            go: Default::default(),
            free: AtomicBool::new(matches!(policy, Policy::Noise(_))),
            arrived: AtomicUsize::new(0),
            points: AtomicU64::new(0),
            switches: AtomicU64::new(0),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn locked<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        while self.lock.swap(true, SeqCst) {
            unsafe { sys!(libc::SYS_sched_yield) };
        }
        let r = f(unsafe { &mut *self.st.get() });
        self.lock.store(false, SeqCst);
        r
    }
    fn resume(&self, i: usize) {
        self.go[i].store(1, SeqCst);
        unsafe { sys!(libc::SYS_futex, self.go[i].as_ptr(), WAKE, 1) };
    }
    fn pause(&self, i: usize) {
        while self.go[i].swap(0, SeqCst) == 0 {
            if self.free.load(SeqCst) {
                return;
            }
            unsafe { sys!(libc::SYS_futex, self.go[i].as_ptr(), WAIT, 0, 0) };
        }
    }
    fn choose(&self, st: &mut State) -> Option<usize> {
        let ready = (0..self.n).filter(|i| st.status[*i] == Status::Ready);
        match self.policy {
            Policy::Priority(_) => ready.min_by_key(|i| st.prio[*i]),
            _ => {
                let k = ready.clone().count();
                if k == 0 {
                    return None;
                }
                let j = step(&mut st.rng) as usize % k;
                ready.clone().nth(j)
            }
        }
    }
    /// thread i may lose control here
    fn point(&self, i: usize) {
        self.points.fetch_add(1, SeqCst);
        let next = self.locked(|st| {
            let r = step(&mut st.rng);
            match self.policy {
                Policy::Random(n) if r % n as u64 == 0 => {}
                Policy::Priority(n) if r % n as u64 == 0 => {
                    st.low += 1;
                    st.prio[i] = st.low;
                }
                _ => return None,
            }
            let next = self.choose(st)?;
            if next == i {
                return None;
            }
            st.current = Some(next);
            Some(next)
        });
        if let Some(next) = next {
            TIME.fetch_add(200_000, SeqCst);
            self.switches.fetch_add(1, SeqCst);
            self.resume(next);
            self.pause(i);
        }
    }
    /// thread i has stopped being ready: another one runs
    fn pass(&self, set: impl FnOnce(&mut State)) {
        self.points.fetch_add(1, SeqCst);
        let next = self.locked(|st| {
            set(st);
            st.current = self.choose(st);
            st.current
        });
        self.switches.fetch_add(1, SeqCst);
        if let Some(next) = next {
            self.resume(next);
        }
    }
    fn wake(&self, addr: usize, n: usize) -> usize {
        if self.free.load(SeqCst) {
            return 0;
        }
        let mut woken = 0;
        let next = self.locked(|st| {
            // in an order that depends on the seed
            let k = step(&mut st.rng) as usize % self.n;
            for j in 0..self.n {
                let j = (j + k) % self.n;
                if woken < n && st.status[j] == Status::Blocked(addr) {
                    st.status[j] = Status::Ready;
                    woken += 1;
                }
            }
            if st.current.is_none() && woken > 0 {
                st.current = self.choose(st);
                return st.current;
            }
            None
        });
        if let Some(next) = next {
            self.resume(next);
        }
        woken
    }
    fn release(&self) {
        self.free.store(true, SeqCst);
        for i in 0..self.n {
            self.resume(i);
        }
    }

    /// runs f(i) on n threads; the results, and whether the threads were under control until the end
    pub fn run<T: Send>(&self, f: impl Fn(usize) -> T + Sync) -> (Vec<T>, bool) {
        CURRENT.store(self as *const _ as *mut _, SeqCst);
        let controlled = !self.free.load(SeqCst);
        let mut res: Vec<Option<T>> = (0..self.n).map(|_| None).collect();
        std::thread::scope(|sc| {
            for (i, r) in res.iter_mut().enumerate() {
                let f = &f;
                sc.spawn(move || {
                    self.locked(|st| st.status[i] = Status::Ready);
                    self.arrived.fetch_add(1, SeqCst);
                    if let Policy::Noise(n) = self.policy {
                        while self.arrived.load(SeqCst) < self.n {
                            std::thread::yield_now();
                        }
                        NOISE.with(|x| x.set(self.locked(|st| step(&mut st.rng)) << 16 | n as u64));
                        *r = Some(f(i));
                        NOISE.with(|x| x.set(0));
                    } else {
                        self.pause(i);
                        ME.with(|m| m.set((self, i)));
                        *r = Some(f(i));
                        ME.with(|m| m.set((null(), 0)));
                        self.pass(|st| st.status[i] = Status::Done);
                    }
                });
            }
            if controlled {
                while self.arrived.load(SeqCst) < self.n {
                    std::thread::yield_now();
                }
                let first = self.locked(|st| {
                    st.current = self.choose(st);
                    st.current
                });
                self.resume(first.unwrap());
                let mut seen = u64::MAX;
                let mut idle = 0;
                loop {
                    let (done, stuck) = self.locked(|st| (st.status[..self.n].iter().all(|x| *x == Status::Done), st.current.is_none()));
                    if done || self.free.load(SeqCst) {
                        break;
                    }
                    let p = self.points.load(SeqCst);
                    // without a current thread nobody can go on: this is a deadlock, or someone else has to wake them
                    idle = if p == seen && !stuck { idle + 1 } else { 0 };
                    seen = p;
                    if idle > 500 {
                        self.release();
                    }
                    unsafe {
                        let t = libc::timespec { tv_sec: 0, tv_nsec: if seen < 50 { 20_000 } else { 200_000 } };
                        sys!(libc::SYS_nanosleep, &t as *const _, 0);
                    }
                }
            }
        });
        CURRENT.store(std::ptr::null_mut(), SeqCst);
        let kept = controlled && !self.free.load(SeqCst);
        (res.into_iter().map(|x| x.unwrap()).collect(), kept)
    }
}

fn me() -> Option<(&'static Sched, usize)> {
    let (s, i) = ME.try_with(|m| m.get()).unwrap_or((null(), 0));
    if s.is_null() {
        return None;
    }
    let s = unsafe { &*s };
    if s.free.load(SeqCst) {
        None
    } else {
        Some((s, i))
    }
}

/// a point where another thread may continue
pub fn point() {
    if let Some((s, i)) = me() {
        s.point(i);
    } else {
        let x = NOISE.try_with(|x| x.get()).unwrap_or(0);
        if x != 0 {
            let mut y = x;
            let r = step(&mut y);
            let n = x & 0xffff;
            NOISE.with(|c| c.set(y & !0xffff | n));
            if r % n == 0 {
                let k = (r >> 32) % 64;
                unsafe {
                    if k < 40 {
                        sys!(libc::SYS_sched_yield);
                    } else if k < 63 {
                        for _ in 0..(k - 40) * 40 {
                            std::hint::spin_loop();
                        }
                    } else {
                        let t = libc::timespec { tv_sec: 0, tv_nsec: 700_000 };
                        sys!(libc::SYS_nanosleep, &t as *const _, 0);
                    }
                }
            }
        }
    }
}

/// runs f without giving up control
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let m = ME.with(|m| m.replace((null(), 0)));
    let x = NOISE.with(|x| x.replace(0));
    let r = f();
    ME.with(|c| c.set(m));
    NOISE.with(|c| c.set(x));
    r
}

unsafe fn futex(addr: c_long, op: c_long, val: c_long, timeout: c_long, b: c_long, c: c_long) -> c_long {
    let kind = op & 0x7f;
    let waits = kind == 0 || kind == 9;
    let wakes = kind == 1 || kind == 10;
    if waits {
        if let Some((s, i)) = me() {
            let a = &*(addr as *const AtomicU32);
            if timeout != 0 {
                // time passes as we please
                s.point(i);
                TIME.fetch_add(1_000_000, SeqCst);
                *libc::__errno_location() = if a.load(SeqCst) != val as u32 { libc::EAGAIN } else { libc::ETIMEDOUT };
                return -1;
            }
            if a.load(SeqCst) != val as u32 {
                s.point(i);
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            s.pass(|st| st.status[i] = Status::Blocked(addr as usize));
            s.pause(i);
            return 0;
        }
    } else if wakes {
        let s = CURRENT.load(SeqCst);
        if !s.is_null() {
            let woken = (*s).wake(addr as usize, val.clamp(0, 1 << 20) as usize) as c_long;
            let r = if woken < val { sys!(libc::SYS_futex, addr, op, val - woken, timeout, b, c).max(0) } else { 0 };
            if let Some((s, i)) = me() {
                s.point(i);
            }
            return woken + r;
        }
    }
    sys!(libc::SYS_futex, addr, op, val, timeout, b, c)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if nr == libc::SYS_futex {
        futex(a, b, c, d, e, f)
    } else {
        raw(nr, a, b, c, d, e, f)
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match me() {
        Some((s, i)) => {
            s.point(i);
            0
        }
        None => sys!(libc::SYS_sched_yield) as c_int,
    }
}
/// time passes faster when threads wait
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = sys!(libc::SYS_clock_gettime, c, t) as c_int;
    if r == 0 && c == libc::CLOCK_MONOTONIC && me().is_some() {
        let x = TIME.load(SeqCst);
        if x > 0 {
            let n = (*t).tv_nsec as u64 + x;
            (*t).tv_sec += (n / 1_000_000_000) as libc::time_t;
            (*t).tv_nsec = (n % 1_000_000_000) as _;
        }
    }
    r
}

pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        point();
        match crate::heap::alloc(l) {
            Some(p) => p,
            None => std::alloc::System.alloc(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        point();
        if crate::heap::owns(p) {
            crate::heap::free(p, l)
        } else {
            std::alloc::System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        point();
        match crate::heap::alloc(l) {
            Some(p) => {
                std::ptr::write_bytes(p, 0, l.size());
                p
            }
            None => std::alloc::System.alloc_zeroed(l),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        point();
        if !crate::heap::owns(p) {
            return std::alloc::System.realloc(p, l, n);
        }
        let l1 = std::alloc::Layout::from_size_align_unchecked(n, l.align());
        let q = match crate::heap::alloc(l1) {
            Some(q) => q,
            None => std::alloc::System.alloc(l1),
        };
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            crate::heap::free(p, l);
        }
        q
    }
}
