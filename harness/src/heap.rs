//! Observes memory: while a thread is tracked, its blocks come from an arena in which nothing is used twice. A block
//! that is freed is closed: in fenced mode the hardware reports every access to it (or beyond the end of a block),
//! otherwise a pattern shows whether it is written to. What happens is recorded as a sequence of events; whether that
//! is allowed is not decided here.
use crate::sys;
use std::alloc::Layout;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

const PLAIN: usize = 1 << 30;
const FENCED: usize = 1 << 36;
const MAXBLOCKS: usize = 1 << 21;
const MAXEVENTS: usize = 1 << 22;
/// beyond this many blocks the number of mappings may get too large
const MAXFENCED: usize = 12000;
const PAGE: usize = 4096;
const GAP: usize = 32;
const UNUSED: u8 = 0xA5;
const BEYOND: u8 = 0xFD;
const FREED: u8 = 0xDF;

#[derive(Clone, Copy)]
struct Block {
    addr: usize,
    len: usize,
    align: usize,
    live: bool,
    fenced: bool,
}

struct Arena {
    plain: usize,
    fenced: usize,
    blocks: *mut Block,
    nblocks: usize,
    /// number of blocks in the fenced region
    nfenced: usize,
    events: *mut i32,
    nevents: usize,
    pcur: usize,
    fcur: usize,
    fence: bool,
    index: [*mut u32; 2],
    counts: [usize; 2],
    bad: [(&'static str, u32); 16],
    nbad: usize,
}
static mut A: Arena = Arena {
    plain: 0,
    fenced: 0,
    blocks: std::ptr::null_mut(),
    nblocks: 0,
    nfenced: 0,
    events: std::ptr::null_mut(),
    nevents: 0,
    pcur: 0,
    fcur: 0,
    fence: false,
    index: [std::ptr::null_mut(); 2],
    counts: [0; 2],
    bad: [("", 0); 16],
    nbad: 0,
};
static ON: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MINE: Cell<bool> = const { Cell::new(false) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

unsafe fn map(len: usize, prot: i32) -> usize {
    let r = sys!(libc::SYS_mmap, 0, len, prot, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(r > 0);
    r as usize
}

#[allow(static_mut_refs)]
unsafe fn arena() -> &'static mut Arena {
    &mut A
}

/// prepares this process
pub fn init() {
    // what lives as long as the process must not come from the arena: the buffer of stdout
    drop(std::io::stdout());
    unsafe {
        let a = arena();
        a.plain = map(PLAIN, libc::PROT_READ | libc::PROT_WRITE);
        a.fenced = map(FENCED, libc::PROT_NONE);
        a.blocks = map(MAXBLOCKS * std::mem::size_of::<Block>(), libc::PROT_READ | libc::PROT_WRITE) as *mut Block;
        a.events = map(MAXEVENTS * 4, libc::PROT_READ | libc::PROT_WRITE) as *mut i32;
        for i in 0..2 {
            a.index[i] = map(MAXBLOCKS * 4, libc::PROT_READ | libc::PROT_WRITE) as *mut u32;
        }
        let stack = map(1 << 16, libc::PROT_READ | libc::PROT_WRITE);
        let ss = libc::stack_t { ss_sp: stack as *mut _, ss_flags: 0, ss_size: 1 << 16 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
        ON.store(true, SeqCst);
    }
}

/// starts a run on this thread
pub fn begin(seed: u64, fence: bool) {
    unsafe {
        let a = arena();
        if a.fcur > a.fenced {
            let n = a.fcur - a.fenced;
            sys!(libc::SYS_mprotect, a.fenced, n, libc::PROT_NONE);
            sys!(libc::SYS_madvise, a.fenced, n, libc::MADV_DONTNEED);
        }
        a.nblocks = 0;
        a.nfenced = 0;
        a.nevents = 0;
        a.nbad = 0;
        a.counts = [0; 2];
        a.pcur = a.plain;
        a.fcur = a.fenced;
        a.fence = fence;
        SEED.store(seed, SeqCst);
        MINE.with(|m| m.set(true));
    }
}
pub fn end() {
    MINE.with(|m| m.set(false));
    TRACK.with(|m| m.set(false));
}

/// blocks allocated by f are tracked
pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    if !MINE.with(|m| m.get()) {
        return f();
    }
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _off = Off(TRACK.with(|t| t.replace(true)));
    f()
}

thread_local! {
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
/// the n-th callback from now on panics
pub fn light(n: u64) {
    FUSE.with(|f| f.set(n));
}
/// called in callbacks
pub fn tick() {
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                let old = TRACK.with(|t| t.replace(false));
                let p = Box::new(0u8);
                TRACK.with(|t| t.set(old));
                std::panic::resume_unwind(p);
            }
        }
    })
}

fn up(x: usize, a: usize) -> usize {
    (x + a - 1) & !(a - 1)
}

unsafe fn event(a: &mut Arena, e: i32) {
    if a.nevents < MAXEVENTS {
        *a.events.add(a.nevents) = e;
        a.nevents += 1;
    }
}
unsafe fn bad(a: &mut Arena, what: &'static str, id: usize) {
    if a.nbad < a.bad.len() {
        a.bad[a.nbad] = (what, id as u32);
        a.nbad += 1;
    }
}

/// memory for the thread, if it is tracked
pub unsafe fn alloc(l: Layout) -> Option<*mut u8> {
    if !ON.load(SeqCst) || !TRACK.try_with(|t| t.get()).unwrap_or(false) {
        return None;
    }
    let a = arena();
    if a.nblocks >= MAXBLOCKS || l.align() > PAGE || l.size() > 1 << 26 {
        return None;
    }
    let fence = a.fence && a.nfenced < MAXFENCED;
    let (addr, region) = if fence {
        let n = up(l.size().max(1), PAGE);
        let start = a.fcur;
        if start + n + PAGE > a.fenced + FENCED {
            return None;
        }
        a.fcur += n + PAGE;
        if sys!(libc::SYS_mprotect, start, n, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return None;
        }
        a.nfenced += 1;
        let addr = (start + n - l.size()) & !(l.align() - 1);
        std::ptr::write_bytes((addr + l.size()) as *mut u8, BEYOND, start + n - addr - l.size());
        (addr, 1)
    } else {
        let addr = up(a.pcur, l.align().max(16));
        let end = up(addr + l.size() + GAP, 16);
        if end > a.plain + PLAIN {
            return None;
        }
        a.pcur = end;
        std::ptr::write_bytes((addr + l.size()) as *mut u8, BEYOND, GAP);
        (addr, 0)
    };
    std::ptr::write_bytes(addr as *mut u8, UNUSED, l.size());
    *a.blocks.add(a.nblocks) = Block { addr, len: l.size(), align: l.align(), live: true, fenced: fence };
    *a.index[region].add(a.counts[region]) = a.nblocks as u32;
    a.counts[region] += 1;
    a.nblocks += 1;
    let id = a.nblocks as i32;
    event(a, id);
    Some(addr as *mut u8)
}

unsafe fn region(a: &Arena, p: usize) -> Option<usize> {
    if p >= a.plain && p < a.plain + PLAIN {
        Some(0)
    } else if p >= a.fenced && p < a.fenced + FENCED {
        Some(1)
    } else {
        None
    }
}
/// the last block that starts at or before p
unsafe fn find(a: &Arena, r: usize, p: usize) -> Option<usize> {
    let ix = std::slice::from_raw_parts(a.index[r], a.counts[r]);
    let n = ix.partition_point(|i| (*a.blocks.add(*i as usize)).addr <= p);
    (n > 0).then(|| ix[n - 1] as usize)
}

pub unsafe fn owns(p: *mut u8) -> bool {
    ON.load(SeqCst) && region(arena(), p as usize).is_some()
}

unsafe fn intact(b: &Block) -> bool {
    let end = if b.fenced { up(b.addr + b.len.max(1), PAGE) } else { b.addr + b.len + GAP };
    let end = if b.fenced && b.len == 0 { b.addr } else { end };
    (b.addr + b.len..end).all(|p| *(p as *const u8) == BEYOND)
}

pub unsafe fn free(p: *mut u8, l: Layout) {
    let a = arena();
    let r = region(a, p as usize).unwrap();
    let i = match find(a, r, p as usize) {
        Some(i) if (*a.blocks.add(i)).addr == p as usize => i,
        x => {
            bad(a, "free of the middle of a block", x.map(|x| x + 1).unwrap_or(0));
            return;
        }
    };
    let b = &mut *a.blocks.add(i);
    event(a, -(i as i32 + 1));
    if !b.live {
        return;
    }
    if b.len != l.size() || b.align != l.align() {
        bad(a, "free with another layout", i + 1);
    }
    if !intact(b) {
        bad(a, "write beyond the end", i + 1);
    }
    b.live = false;
    if b.fenced {
        let start = b.addr & !(PAGE - 1);
        sys!(libc::SYS_mprotect, start, up(b.addr + b.len.max(1), PAGE) - start, libc::PROT_NONE);
    } else {
        std::ptr::write_bytes(p, FREED, b.len);
    }
}

/// looks for traces of accesses that nothing reported at once
pub fn inspect() {
    unsafe {
        let a = arena();
        for i in 0..a.nblocks {
            let b = &*a.blocks.add(i);
            if b.live {
                if !intact(b) {
                    bad(a, "write beyond the end", i + 1);
                }
            } else if !b.fenced && (b.addr..b.addr + b.len).any(|p| *(p as *const u8) != FREED) {
                bad(a, "write after free", i + 1);
            }
        }
    }
}

/// what happened since the last call: ids of blocks allocated, and negative ids of blocks freed. Blocks that were
/// allocated, freed once, and not accessed wrongly in between are left out.
pub fn events() -> (Vec<i32>, Vec<(&'static str, u32)>) {
    let old = TRACK.with(|t| t.replace(false));
    let (mut ev, bad) = unsafe {
        let a = arena();
        let ev = std::slice::from_raw_parts(a.events, a.nevents).to_vec();
        let b = a.bad[..a.nbad].to_vec();
        a.nevents = 0;
        a.nbad = 0;
        (ev, b)
    };
    let mut n: std::collections::HashMap<i32, (usize, usize)> = Default::default();
    for e in &ev {
        let c = n.entry(e.abs()).or_default();
        if *e > 0 {
            c.0 += 1;
        } else {
            c.1 += 1;
        }
    }
    ev.retain(|e| n[&e.abs()] != (1, 1));
    TRACK.with(|t| t.set(old));
    (ev, bad)
}

extern "C" fn fault(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let p = (*info).si_addr() as usize;
        let a = arena();
        let mut buf = [0u8; 128];
        let mut n = 0;
        let mut put = |s: &[u8]| {
            for c in s {
                if n < buf.len() {
                    buf[n] = *c;
                    n += 1;
                }
            }
        };
        let (what, id): (&[u8], usize) = match region(a, p) {
            None => (if sig == libc::SIGBUS { b"bus error" } else { b"access to no block" }, 0),
            Some(r) => match find(a, r, p) {
                None => (b"access to no block", 0),
                Some(i) => {
                    let b = &*a.blocks.add(i);
                    if p < up(b.addr + b.len.max(1), PAGE) && !b.live {
                        (b"access after free", i + 1)
                    } else {
                        (b"access beyond the end", i + 1)
                    }
                }
            },
        };
        put(b"\nend {\"op\":\"access\",\"h\":[],\"bad\":[[\"");
        put(what);
        put(b"\",");
        let mut digits = [0u8; 20];
        let mut k = 20;
        let mut x = id;
        loop {
            k -= 1;
            digits[k] = b'0' + (x % 10) as u8;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        put(&digits[k..]);
        put(b"]]}\n");
        sys!(libc::SYS_write, 1, buf.as_ptr(), n);
        sys!(libc::SYS_exit_group, 3);
    }
}

// ---------------------------------------------------------------- executions
pub struct Done {
    pub line: String,
    pub suspect: bool,
    pub events: usize,
    pub blocks: usize,
    pub fenced: bool,
}

struct Recorder {
    parts: Vec<String>,
    live: std::collections::BTreeSet<i32>,
    bad: bool,
    show: bool,
}
impl Recorder {
    fn note(&mut self, op: &str) {
        let old = TRACK.with(|t| t.replace(false));
        let (ev, bad) = events();
        for e in &ev {
            self.bad |= if *e > 0 { !self.live.insert(*e) } else { !self.live.remove(&-*e) };
        }
        self.bad |= !bad.is_empty() || (op == "end" && !self.live.is_empty());
        let p = format!(
            "{{\"op\":\"{op}\",\"h\":[{}],\"bad\":[{}]}}",
            ev.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            bad.iter().map(|(w, i)| format!("[\"{w}\",{i}]")).collect::<Vec<_>>().join(",")
        );
        if self.show {
            println!("end {p}");
        }
        self.parts.push(p);
        TRACK.with(|t| t.set(old));
    }
}

fn name_of(x: &str) -> &str {
    x.split("\"op\":\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("?")
}

const PROFILES: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C10", "C15", "C15", "C08"];

fn execute(what: &str, r: &mut crate::util::Rng, rec: &std::cell::RefCell<Recorder>, pick: usize) {
    match what {
        "trees" => {
            let p = PROFILES[pick % PROFILES.len()];
            drop(crate::run::generate(p, r.next(), &mut |k, x| {
                if k == "end" {
                    rec.borrow_mut().note(name_of(x));
                } else if rec.borrow().show {
                    println!("begin {{{x}}}");
                }
            }));
        }
        // callbacks that panic; what the trees contain afterwards does not matter
        "panics" => {
            let p = ["C04", "C04", "C06", "C03", "C05", "C10"][pick % 6];
            let mut g = crate::gen::Gen::new(p, r.next());
            let c = g.setup.codec();
            let (mut it, mut m) = crate::run::fresh(&g.setup, &c);
            let setup = g.setup_ops();
            let n = setup.len();
            for i in 0..n + g.len {
                let o = match setup.get(i).cloned().or_else(|| g.next(&m)) {
                    Some(o) if crate::gen::valid(&o, &m) => o,
                    _ => continue,
                };
                if i >= n && r.chance(2, 3) {
                    light(1 + r.below(5) as u64);
                }
                let (ev, _, _) = crate::run::step(&o, &mut it, &mut m, &c);
                light(0);
                drop(ev);
                rec.borrow_mut().note(o.name);
            }
        }
        "blobs" => tracked(|| drop(crate::blobs::generate(r.next(), &mut |op| rec.borrow_mut().note(op)))),
        "stores" => {
            let p = if pick % 3 == 0 { "C13" } else { "C12" };
            tracked(|| drop(crate::filestore::generate(p, r.next(), &mut |e| rec.borrow_mut().note(name_of(e)))));
        }
        _ => {
            let p = ["C11", "C17", "C12"][pick % 3];
            tracked(|| {
                drop(crate::stored::generate(p, r.next(), &mut |k, x| {
                    if k == "end" {
                        rec.borrow_mut().note(name_of(x));
                    }
                }))
            });
        }
    }
}

/// one execution, in which everything is dropped at the end
pub fn trial(what: &str, seed: u64, show: bool) -> Done {
    let mut r = crate::util::Rng::new(seed);
    let fence = r.chance(1, 2);
    let pick = r.below(1000);
    let rec = std::cell::RefCell::new(Recorder { parts: vec![], live: Default::default(), bad: false, show });
    begin(seed, fence);
    execute(what, &mut r, &rec, pick);
    inspect();
    rec.borrow_mut().note("end");
    end();
    let blocks = unsafe { arena().nblocks };
    let rec = rec.into_inner();
    Done {
        line: format!("{{\"what\":\"{what}\",\"seed\":\"{seed}\",\"fenced\":{fence},\"blocks\":{blocks},\"ev\":[{}]}}", rec.parts.join(",")),
        suspect: rec.bad,
        events: rec.parts.len(),
        blocks,
        fenced: fence,
    }
}

/// runs trials in one process
pub fn shard(what: &str, seed: u64, shard: u64, shards: u64, count: u64, seconds: u64, sample: u64, out: &str) {
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let w = std::sync::Arc::new(crate::run::Watch::new(1));
    w.clone().guard(out.to_string(), 40);
    let status = std::fs::File::create(format!("{out}/current-{shard}")).unwrap();
    init();
    // what is initialized once
    for i in 0..20 {
        trial(what, crate::run::trace_seed(seed ^ 0x5a5a, i), false);
    }
    let start = std::time::Instant::now();
    let mut files: Vec<_> = ["samples", "suspects"]
        .iter()
        .map(|x| std::io::BufWriter::new(std::fs::File::create(format!("{out}/{x}-{shard}.nd")).unwrap()))
        .collect();
    let (mut trials, mut events, mut blocks, mut fenced, mut suspects) = (0u64, 0, 0, 0, 0);
    let mut i = shard;
    while i < count && start.elapsed().as_secs() < seconds {
        let s = crate::run::trace_seed(seed, i);
        w.enter(0, s);
        let _ = status.write_at(&s.to_le_bytes(), 0);
        let d = trial(what, s, false);
        w.leave(0);
        trials += 1;
        events += d.events;
        blocks += d.blocks;
        fenced += d.fenced as u64;
        if d.suspect {
            suspects += 1;
            writeln!(files[1], "{}", d.line).unwrap();
            if suspects >= 10 {
                break;
            }
        } else if i < sample {
            writeln!(files[0], "{}", d.line).unwrap();
        }
        i += shards;
    }
    let _ = status.write_at(&0u64.to_le_bytes(), 0);
    std::fs::write(
        format!("{out}/stats-{shard}.json"),
        format!("{{\"trials\":{trials},\"events\":{events},\"blocks\":{blocks},\"fenced\":{fenced},\"suspects\":{suspects}}}"),
    )
    .unwrap();
}
