//! Executes generated operation sequences and records them.
use crate::codec::*;
use crate::gen::*;
use crate::interp::*;
use crate::mirror::*;
use crate::op::*;
use crate::store::TS;
use crate::util::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Executed {
    pub setup: Setup,
    pub ops: Vec<Op>,
    pub events: Vec<String>,
    /// the mirror disagrees with the last event
    pub suspect: bool,
    pub faults: usize,
}

/// executes one operation and returns its event; updates the mirror
pub fn step(o: &Op, it: &mut Interp, m: &mut Mirror, c: &Codec) -> (String, bool, bool) {
    let before = m.clone();
    let expected = m.apply(o);
    let out = crate::heap::tracked(|| it.exec(o));
    let mut suspect = false;
    let mut obs: Vec<(usize, Vec<Entry>)> = vec![];
    let mut st = out.st;
    let inplace = matches!(
        o.name,
        "insert" | "remove" | "removeprefix" | "outerwith" | "innerwith" | "leftwith" | "retain" | "removewith"
    );
    for h in &o.obs {
        if m.tree[*h].kind == Kind::None || (st == "err" && !inplace && before.tree[*h].kind == Kind::None) {
            continue;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::heap::tracked(|| observe(&it.tree[*h], c))));
        match r {
            Ok((e, Ok(()))) => obs.push((*h, e)),
            Ok((_, Err(_))) => {
                if st == "ok" || out.hit {
                    st = "obs-err";
                }
            }
            Err(_) => {
                st = "obs-panic";
                break;
            }
        }
    }
    match st {
        "ok" => {
            suspect |= out.hit;
            suspect |= !m.agrees(o, &expected, &out.res) || !before.calls_ok(o, &out.calls) || out.after > 0;
        }
        "err" => {
            suspect |= !out.hit || out.after > 0;
            // what a failed operation may leave behind
            let after = m.clone();
            *m = before.clone();
            if inplace {
                match obs.iter().find(|x| x.0 == o.h) {
                    Some((_, e)) => {
                        suspect |= !Mirror::may_follow(&before.tree[o.h].map, &after.tree[o.h].map, e);
                        m.tree[o.h].map = e.iter().cloned().collect();
                    }
                    None => suspect = true,
                }
            }
            match (&expected, &out.res) {
                (Res::Entries(a), Res::Entries(b)) => suspect |= !a.starts_with(b),
                (Res::Values(a), Res::Values(b)) => suspect |= !a.starts_with(b),
                (Res::Groups(a, _), Res::Groups(b, _)) => suspect |= !a.starts_with(b),
                _ => {}
            }
            if matches!(o.name, "iternext" | "viternext") {
                m.iter[o.i] = None;
                it.iter[o.i] = None;
            }
        }
        _ => suspect = true,
    }
    for (h, e) in &obs {
        let mm = &m.tree[*h].map;
        suspect |= e.len() != mm.len() || !e.iter().zip(mm).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1);
    }
    let ev = format!(
        "{{{},\"st\":\"{}\",\"fault\":{},\"res\":{},\"calls\":{},\"after\":{},\"obs\":{}{}}}",
        o.args(),
        st,
        out.hit,
        match &out.res {
            // no result is comparable after an error
            r if st == "err" && matches!(r, Res::Unit | Res::Calls(_)) => "[]".to_string(),
            r => r.json(),
        },
        jpairs(&out.calls),
        out.after,
        jlist(obs.iter().map(|(h, e)| format!("[{h},{}]", jentries(e)))),
        if out.msg.is_empty() { String::new() } else { format!(",\"msg\":{}", jstr(&out.msg)) }
    );
    (ev, suspect, out.hit)
}

pub fn fresh<'a>(setup: &Setup, c: &'a Codec) -> (Interp<'a>, Mirror) {
    let stores = setup.kinds.iter().map(|k| TS::new(k)).collect();
    let mut it = Interp::new(c, stores, HANDLES, ITERS, VALS);
    it.asked &= !setup.fault;
    (it, Mirror::new(HANDLES, ITERS, VALS))
}

/// generates and executes; `tell` is called before and after every operation
pub fn generate(id: &str, seed: u64, tell: &mut dyn FnMut(&str, &str)) -> Executed {
    let mut g = Gen::new(id, seed);
    let c = g.setup.codec();
    let (mut it, mut m) = fresh(&g.setup, &c);
    let mut ops: Vec<Op> = vec![];
    let mut events = vec![];
    let mut suspect = false;
    let mut faults = 0;
    let mut pending: std::collections::VecDeque<Op> = g.setup_ops().into();
    let mut finishing = false;
    loop {
        let o = match pending.pop_front() {
            Some(o) => o,
            None if finishing => break,
            None if ops.len() < g.len => match g.next(&m) {
                Some(o) => o,
                None => break,
            },
            None => {
                finishing = true;
                pending = g.finish(&m).into();
                continue;
            }
        };
        if !valid(&o, &m) {
            continue;
        }
        tell("begin", &o.args());
        let (ev, s, hit) = step(&o, &mut it, &mut m, &c);
        faults += hit as usize;
        tell("end", &ev);
        ops.push(o);
        events.push(ev);
        if s {
            suspect = true;
            break;
        }
    }
    Executed { setup: g.setup, ops, events, suspect, faults }
}

/// executes given operations, skipping those that are not possible
pub fn execute(setup: Setup, ops: &[Op], tell: &mut dyn FnMut(&str, &str)) -> Executed {
    let c = setup.codec();
    let (mut it, mut m) = fresh(&setup, &c);
    let mut done = vec![];
    let mut events = vec![];
    let mut suspect = false;
    let mut faults = 0;
    for o in ops {
        if !valid(o, &m) {
            continue;
        }
        tell("begin", &o.args());
        let (ev, s, hit) = step(o, &mut it, &mut m, &c);
        faults += hit as usize;
        tell("end", &ev);
        done.push(o.clone());
        events.push(ev);
        if s {
            suspect = true;
            break;
        }
    }
    drop(it);
    Executed { setup, ops: done, events, suspect, faults }
}

/// a shorter sequence of operations that is still suspect
pub fn shrink(e: Executed) -> Executed {
    let mut best = e;
    let start = std::time::Instant::now();
    let mut n = best.ops.len() / 2;
    while n >= 1 && start.elapsed().as_secs() < 5 {
        let mut i = 0;
        while i < best.ops.len() && start.elapsed().as_secs() < 5 {
            let mut ops = best.ops.clone();
            ops.drain(i..(i + n).min(ops.len()));
            let x = execute(Setup::parse(&serde_json::from_str(&best.setup.json()).unwrap()), &ops, &mut |_, _| {});
            if x.suspect {
                best = x;
            } else {
                i += n;
            }
        }
        n /= 2;
    }
    best
}

pub fn line(e: &Executed, id: &str, seed: u64) -> String {
    format!(
        "{{\"profile\":\"{id}\",\"seed\":\"{seed}\",\"setup\":{},\"ops\":{},\"ev\":{}}}",
        e.setup.json(),
        jlist(e.ops.iter().map(|o| jstr(&o.full()))),
        jlist(e.events.iter().cloned())
    )
}
/// only what TLC needs, and where it came from
pub fn short_line(e: &Executed, id: &str, seed: u64) -> String {
    format!("{{\"profile\":\"{id}\",\"seed\":\"{seed}\",\"ev\":{}}}", jlist(e.events.iter().cloned()))
}

pub fn trace_seed(seed: u64, i: u64) -> u64 {
    Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i)).next()
}

pub struct Watch {
    seeds: Vec<AtomicU64>,
    since: Vec<AtomicU64>,
}
impl Watch {
    pub fn new(n: usize) -> Self {
        Watch { seeds: (0..n).map(|_| AtomicU64::new(0)).collect(), since: (0..n).map(|_| AtomicU64::new(0)).collect() }
    }
    pub fn enter(&self, t: usize, seed: u64) {
        self.seeds[t].store(seed, SeqCst);
        self.since[t].store(now(), SeqCst);
    }
    pub fn leave(&self, t: usize) {
        self.since[t].store(0, SeqCst);
    }
    /// ends the process when something takes longer
    pub fn guard(self: std::sync::Arc<Self>, out: String, limit: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..self.since.len() {
                let s = self.since[i].load(SeqCst);
                if s != 0 && now() > s + limit {
                    std::fs::write(format!("{out}/hang"), self.seeds[i].load(SeqCst).to_string()).unwrap();
                    eprintln!("hang");
                    std::process::exit(4);
                }
            }
        });
    }
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// many executions, in parallel
pub fn many(id: &str, seed: u64, count: u64, seconds: u64, sample: u64, out: &str) {
    let threads = 8;
    let w = std::sync::Arc::new(Watch::new(threads));
    let status: Vec<std::fs::File> = (0..threads).map(|i| std::fs::File::create(format!("{out}/current-{i}")).unwrap()).collect();
    w.clone().guard(out.to_string(), 30);
    let next = AtomicU64::new(0);
    let (traces, events, faults, nsuspects) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let samples = Mutex::new(vec![]);
    let suspects = Mutex::new(vec![]);
    let opcount: Mutex<std::collections::BTreeMap<String, usize>> = Default::default();
    let start = std::time::Instant::now();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (w, status, next) = (&w, &status, &next);
            let (traces, events, faults, nsuspects, samples, suspects, opcount) =
                (&traces, &events, &faults, &nsuspects, &samples, &suspects, &opcount);
            sc.spawn(move || {
                use std::os::unix::fs::FileExt;
                let mut counts: std::collections::BTreeMap<&'static str, usize> = Default::default();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= count || start.elapsed().as_secs() >= seconds || nsuspects.load(SeqCst) >= 50 {
                        break;
                    }
                    let s = trace_seed(seed, i);
                    w.enter(t, s);
                    let _ = status[t].write_at(&s.to_le_bytes(), 0);
                    let e = generate(id, s, &mut |_, _| {});
                    traces.fetch_add(1, SeqCst);
                    events.fetch_add(e.events.len(), SeqCst);
                    faults.fetch_add(e.faults, SeqCst);
                    for o in &e.ops {
                        *counts.entry(o.name).or_default() += 1;
                    }
                    if e.suspect {
                        nsuspects.fetch_add(1, SeqCst);
                        w.enter(t, s);
                        let e = shrink(e);
                        let mut l = suspects.lock().unwrap();
                        if l.len() < 20 {
                            l.push((i, line(&e, id, s)));
                        }
                    } else if i < sample {
                        samples.lock().unwrap().push((i, short_line(&e, id, s)));
                    }
                    w.leave(t);
                }
                let _ = status[t].write_at(&0u64.to_le_bytes(), 0);
                let mut oc = opcount.lock().unwrap();
                for (k, v) in counts {
                    *oc.entry(k.to_string()).or_default() += v;
                }
            });
        }
    });
    for (name, l) in [("samples", samples), ("suspects", suspects)] {
        let mut l = l.into_inner().unwrap();
        l.sort();
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/{name}.ndjson")).unwrap());
        for (_, x) in l {
            writeln!(f, "{x}").unwrap();
        }
    }
    std::fs::write(
        format!("{out}/stats.json"),
        format!(
            "{{\"traces\":{},\"events\":{},\"faults\":{},\"suspects\":{},\"ops\":{}}}",
            traces.into_inner(),
            events.into_inner(),
            faults.into_inner(),
            nsuspects.into_inner(),
            serde_json::to_string(&*opcount.lock().unwrap()).unwrap()
        ),
    )
    .unwrap();
}

/// runs f(i, seed) for i below count on several threads; the results in order. What is running is noted in
/// files, for the case that the process does not survive it.
pub fn parallel<T: Send>(seed: u64, count: u64, seconds: u64, limit: u64, out: &str, f: impl Fn(u64, u64) -> T + Sync) -> Vec<T> {
    let threads = 8;
    let w = std::sync::Arc::new(Watch::new(threads));
    let status: Vec<std::fs::File> = (0..threads).map(|i| std::fs::File::create(format!("{out}/current-{i}")).unwrap()).collect();
    w.clone().guard(out.to_string(), limit);
    let next = AtomicU64::new(0);
    let res = Mutex::new(vec![]);
    let start = std::time::Instant::now();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (w, status, next, res, f) = (&w, &status, &next, &res, &f);
            sc.spawn(move || {
                use std::os::unix::fs::FileExt;
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= count || start.elapsed().as_secs() >= seconds {
                        break;
                    }
                    let s = trace_seed(seed, i);
                    w.enter(t, s);
                    let _ = status[t].write_at(&s.to_le_bytes(), 0);
                    let _ = status[t].write_at(&i.to_le_bytes(), 8);
                    let x = f(i, s);
                    res.lock().unwrap().push((i, x));
                    w.leave(t);
                }
                let _ = status[t].write_at(&0u64.to_le_bytes(), 0);
            });
        }
    });
    let mut l = res.into_inner().unwrap();
    l.sort_by_key(|x| x.0);
    l.into_iter().map(|x| x.1).collect()
}

/// keys that are prefixes of each other, and every kind of operation on a tree of them
pub fn chain(n: usize, seed: u64, tell: &mut (dyn FnMut(&str, &str) + Send)) -> Executed {
    let mut r = Rng::new(seed);
    let key: Key = (0..n).map(|_| r.below(2) as i64).collect();
    let ps: Vec<Entry> = (0..=n).map(|i| (key[..i].to_vec(), (i % TOKENS) as i64)).collect();
    let op = |name: &'static str, h: usize, g: usize, obs: &[usize]| Op { name, h, g, obs: obs.to_vec(), how: 1, ..Default::default() };
    let keyed = |o: Op, k: &[i64]| Op { k: k.to_vec(), ..o };
    let with = |o: Op, h2: usize, f: &'static str| Op { h2, f, ..o };
    let (end, half) = (&key[..], &key[..n / 2]);
    let ops = vec![
        Op { ps, ..op("collect", 0, 1, &[1]) },
        keyed(op("get", 1, 0, &[]), end),
        keyed(op("contains", 1, 0, &[]), half),
        op("clone", 1, 2, &[]),
        Op { v: 3, ..keyed(op("insert", 2, 0, &[2, 1]), &[end, &[1]].concat()) },
        op("lastvalue", 2, 0, &[]),
        with(op("equal", 1, 0, &[]), 2, "true"),
        with(op("leftpred", 2, 0, &[]), 1, "false"),
        with(op("outerwith", 2, 0, &[2]), 1, "sum"),
        with(op("inner", 2, 3, &[3]), 1, "right"),
        with(op("retain", 3, 0, &[3]), 1, "odd"),
        Op { s: 1, ..op("attach", 2, 4, &[]) },
        op("reattach", 4, 0, &[4]),
        Op { i: 1, ..op("load", 0, 5, &[]) },
        Op { v: 4, ..keyed(op("insert", 5, 0, &[5, 4]), end) },
        with(op("left", 5, 6, &[6]), 2, "left"),
        keyed(op("remove", 5, 0, &[]), end),
        op("reattach", 5, 0, &[5]),
        op("detach", 5, 6, &[6]),
        with(op("groupby", 1, 0, &[]), 0, "even"),
        keyed(op("removeprefix", 1, 0, &[1]), half),
        op("drop", 2, 0, &[1, 6]),
        op("drop", 4, 0, &[5]),
    ];
    let setup = Setup { codec_seed: seed, nsyms: 2, class: Class::Distinct, short: true, kinds: vec!["mem", "mem"], fault: false };
    std::thread::scope(|sc| {
        let run = || execute(setup, &ops, &mut |a, b| tell(a, b));
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, run).unwrap().join().unwrap()
    })
}

/// one key after the other, each a byte longer, in a stack of 8 MB
pub fn deep(n: usize) {
    let run = move || {
        let key = vec![1u8; n];
        let mut t = radixdb::RadixTree::default();
        for i in (0..=n).rev() {
            t.insert(&key[..i], [1]);
        }
        t.insert(&key, [2]);
        assert!(t.contains_key(&key));
    };
    let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &none) };
    std::thread::Builder::new().stack_size(8 << 20).spawn(run).unwrap().join().unwrap();
}
