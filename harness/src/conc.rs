//! Executions with several threads, under a scheduler: one blob store used by all, and trees that share structure.
use crate::gen::*;
use crate::interp::*;
use crate::mirror::*;
use crate::op::*;
use crate::run::{fresh, step, trace_seed, Watch};
use crate::sched::{quiet, Policy, Sched};
use crate::util::*;
use radixdb::store::{Blob, BlobStore, MemStore, PagedFileStore};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// for values that are only ever used by one thread at a time
struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}
impl<T> Ship<T> {
    fn get(self) -> T {
        self.0
    }
}

fn policy(r: &mut Rng) -> Policy {
    match r.below(10) {
        0 => Policy::Noise(*r.pick(&[4, 16, 64])),
        1..=4 => Policy::Random(*r.pick(&[2, 4, 8, 16, 40])),
        _ => Policy::Priority(*r.pick(&[3, 10, 25, 60, 150])),
    }
}

/// one call of a store, with the times of call and return
#[derive(Clone, Debug)]
struct Call {
    th: usize,
    op: &'static str,
    id: i64,
    tok: i64,
    st: &'static str,
    from: u64,
    to: u64,
}

#[derive(Clone)]
enum Any {
    Mem(MemStore),
    Page(PagedFileStore),
}
impl Any {
    fn read(&self, id: i64) -> anyhow::Result<Blob<'static>> {
        let id = (id as u64).to_be_bytes();
        match self {
            Any::Mem(s) => s.read(&id),
            Any::Page(s) => s.read(&id),
        }
    }
    fn write(&self, d: &[u8]) -> anyhow::Result<i64> {
        let id = match self {
            Any::Mem(s) => s.write(d)?,
            Any::Page(s) => s.write(d)?,
        };
        Ok(match <[u8; 8]>::try_from(&id[..]) {
            Ok(x) => i64::try_from(u64::from_be_bytes(x)).ok().filter(|x| *x < 1 << 30).unwrap_or(-2),
            Err(_) => -2,
        })
    }
}

struct World {
    store: Any,
    data: Vec<Vec<u8>>,
    toks: HashMap<Vec<u8>, i64>,
    max: usize,
    ids: Vec<AtomicI64>,
    nids: AtomicUsize,
    clock: AtomicU64,
}

impl World {
    fn known(&self, r: &mut Rng) -> Option<i64> {
        let n = self.nids.load(SeqCst);
        if n == 0 {
            return None;
        }
        let k = if r.chance(1, 2) { n - 1 - r.below(n.min(3)) } else { r.below(n) };
        Some(self.ids[k].load(SeqCst))
    }
    fn tok(&self, b: &[u8]) -> i64 {
        self.toks.get(b).copied().unwrap_or(-1)
    }
    /// calls the store
    fn call(&self, th: usize, op: &'static str, id: i64, tok: i64, held: Option<&Blob<'static>>, log: &mut Vec<Call>) -> Option<Blob<'static>> {
        let mut c = Call { th, op, id, tok, st: "ok", from: self.clock.fetch_add(1, SeqCst), to: 0 };
        let mut blob = None;
        let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<()> {
            match op {
                "write" => {
                    c.id = self.store.write(&self.data[tok as usize])?;
                }
                "read" => {
                    let b = match held {
                        Some(b) => b.clone(),
                        None => self.store.read(id)?,
                    };
                    c.tok = quiet(|| self.tok(&b));
                    blob = Some(b);
                }
                "last" => {
                    if let Any::Page(s) = &self.store {
                        c.id = s.last_id().map(|x| u64::from_be_bytes(x) as i64).unwrap_or(0)
                    }
                }
                "count" => {
                    if let Any::Mem(s) = &self.store {
                        c.id = s.count() as i64
                    }
                }
                _ => match &self.store {
                    Any::Mem(s) => s.sync()?,
                    Any::Page(s) => s.sync()?,
                },
            }
            Ok(())
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(_)) => c.st = "err",
            Err(_) => c.st = "panic",
        }
        c.to = self.clock.fetch_add(1, SeqCst);
        if c.st == "ok" && op == "write" {
            let k = self.nids.load(SeqCst);
            if k < self.ids.len() {
                self.ids[k].store(c.id, SeqCst);
                self.nids.store(k + 1, SeqCst);
            }
        }
        quiet(|| log.push(c));
        blob
    }
}

pub struct Done {
    pub lines: Vec<String>,
    pub suspect: Vec<bool>,
    pub events: usize,
    pub points: u64,
    pub switches: u64,
    pub controlled: bool,
}

pub fn store_trial(seed: u64) -> Done {
    let mut r = Rng::new(seed);
    let n = 2 + r.below(3);
    let page = r.chance(3, 4);
    let ps = *r.pick(&[16u64, 24, 32, 64, 64, 256, 1024]);
    let max = if page { ps as usize - 8 } else { 100 };
    let mut data: Vec<Vec<u8>> = vec![];
    let mut toks = HashMap::new();
    while data.len() < 60 {
        let k = match r.below(6) {
            0 => max,
            1 => max + 1 + r.below(3),
            2 => max - r.below(4),
            _ => 4 + r.below(max - 4),
        };
        let d = if data.is_empty() { vec![] } else { r.bytes(k) };
        if !toks.contains_key(&d) {
            toks.insert(d.clone(), data.len() as i64);
            data.push(d);
        }
    }
    let dir = Scratch::new("cs");
    let open = || {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(dir.0.join("f")).unwrap();
        PagedFileStore::new(f, ps)
    };
    let store = if page { Any::Page(open().unwrap()) } else { Any::Mem(MemStore::default()) };
    let mut w = World {
        store,
        data,
        toks,
        max: if page { max } else { usize::MAX },
        ids: (0..80).map(|_| AtomicI64::new(0)).collect(),
        nids: AtomicUsize::new(0),
        clock: AtomicU64::new(1),
    };
    let mut log = vec![];
    let next_tok = AtomicUsize::new(0);
    let fresh_tok = |r: &mut Rng| {
        if r.chance(1, 12) {
            r.below(60) as i64
        } else {
            (next_tok.fetch_add(1, SeqCst) % 60) as i64
        }
    };
    for _ in 0..r.below(4) {
        let t = fresh_tok(&mut r);
        w.call(0, "write", 0, t, None, &mut log);
    }
    let s = Sched::new(n, policy(&mut r), r.next());
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let len = 1 + r.below(7);
    let style = r.below(4);
    let (logs, controlled) = s.run(|i| {
        let (mut r, mut log) = quiet(|| (Rng::new(seeds[i]), Vec::with_capacity(16)));
        let mut held: Vec<(i64, Blob<'static>)> = quiet(|| Vec::with_capacity(16));
        let mine = match style {
            0 => 50,
            1 => 85,
            // writers and readers
            _ => {
                if i % 2 == 0 {
                    90
                } else {
                    10
                }
            }
        };
        for _ in 0..len {
            let th = i + 1;
            if r.chance(mine, 100) {
                let t = fresh_tok(&mut r);
                w.call(th, "write", 0, t, None, &mut log);
                continue;
            }
            match r.below(12) {
                0 | 1 => {
                    w.call(th, if page { "last" } else { "count" }, 0, 0, None, &mut log);
                }
                2 => {
                    w.call(th, "sync", 0, 0, None, &mut log);
                }
                3 | 4 => {
                    // an id that may not exist yet
                    let x = w.known(&mut r).unwrap_or(0);
                    let id = if page { x + w.data[r.below(60)].len() as i64 + 4 } else { x + 1 + r.below(2) as i64 };
                    if !page || id > (0..w.nids.load(SeqCst)).map(|k| w.ids[k].load(SeqCst)).max().unwrap_or(0) {
                        w.call(th, "read", id, -1, None, &mut log);
                    }
                }
                5 if !held.is_empty() => {
                    let (id, b) = &held[r.below(held.len())];
                    w.call(th, "read", *id, -1, Some(b), &mut log);
                }
                _ => {
                    if let Some(id) = w.known(&mut r) {
                        if let Some(b) = w.call(th, "read", id, -1, None, &mut log) {
                            held.push((id, b));
                        }
                    }
                }
            }
        }
        Ship((log, held))
    });
    let mut helds = vec![];
    for x in logs {
        let (l, h) = x.get();
        log.extend(l);
        helds.extend(h);
    }
    let n0 = w.nids.load(SeqCst);
    let ids: Vec<i64> = (0..n0).map(|k| w.ids[k].load(SeqCst)).chain(log.iter().filter(|c| c.op == "write" && c.st == "ok").map(|c| c.id)).collect();
    let ids: BTreeSet<i64> = ids.into_iter().collect();
    for round in 0..2 {
        for id in &ids {
            w.call(0, "read", *id, -1, None, &mut log);
        }
        for (id, b) in &helds {
            w.call(0, "read", *id, -1, Some(b), &mut log);
        }
        w.call(0, if page { "last" } else { "count" }, 0, 0, None, &mut log);
        if round == 0 && page {
            match open() {
                Ok(s) => w.store = Any::Page(s),
                Err(_) => log.push(Call { th: 0, op: "open", id: 0, tok: 0, st: "err", from: w.clock.fetch_add(1, SeqCst), to: w.clock.fetch_add(1, SeqCst) }),
            }
        } else {
            break;
        }
    }
    let mut evs: Vec<(u64, usize, bool)> = vec![];
    for (k, c) in log.iter().enumerate() {
        evs.push((c.from, k, true));
        evs.push((c.to, k, false));
    }
    evs.sort();
    let line = format!(
        "{{\"seed\":\"{seed}\",\"kind\":\"{}\",\"ev\":{}}}",
        if page { format!("page{ps}") } else { "mem".into() },
        jlist(evs.iter().map(|(_, k, inv)| {
            let c = &log[*k];
            if *inv {
                let big = c.op == "write" && w.data[c.tok as usize].len() > w.max;
                format!("{{\"t\":{},\"e\":\"call\",\"op\":\"{}\",\"id\":{},\"tok\":{},\"big\":{},\"st\":\"{}\"}}", c.th, c.op, c.id, c.tok, big, c.st)
            } else {
                format!("{{\"t\":{},\"e\":\"ret\"}}", c.th)
            }
        }))
    );
    let ok = linearizable(&evs, &log, page, &|c| c.op == "write" && w.data[c.tok as usize].len() > w.max);
    Done { lines: vec![line], suspect: vec![!ok], events: log.len(), points: s.points.load(SeqCst), switches: s.switches.load(SeqCst), controlled }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Config {
    blobs: BTreeMap<i64, i64>,
    last: i64,
    done: BTreeSet<usize>,
}
/// as SharedStore.tla and TraceShared.tla; only a filter
fn linearizable(evs: &[(u64, usize, bool)], log: &[Call], page: bool, big: &dyn Fn(&Call) -> bool) -> bool {
    let effect = |c: &Config, x: &Call| -> Option<Config> {
        let mut d = c.clone();
        let ok = match (x.op, x.st) {
            ("write", "ok") => {
                d.last = x.id;
                !big(x) && x.id > 0 && d.blobs.insert(x.id, x.tok).is_none()
            }
            ("write", "err") => big(x),
            ("read", "ok") => match c.blobs.get(&x.id) {
                Some(t) => *t == x.tok,
                // not an id, but within the file
                None => page && x.id < c.last,
            },
            ("read", "err") => !c.blobs.contains_key(&x.id),
            ("last", "ok") => c.last == x.id,
            ("count", "ok") => c.blobs.len() as i64 == x.id,
            ("sync", "ok") => true,
            _ => false,
        };
        ok.then_some(d)
    };
    let mut cfgs: BTreeSet<Config> = [Config { blobs: Default::default(), last: 0, done: Default::default() }].into();
    let mut pending: BTreeMap<usize, usize> = BTreeMap::new();
    for (_, k, call) in evs {
        let th = log[*k].th;
        if *call {
            pending.insert(th, *k);
            continue;
        }
        let mut todo: Vec<Config> = cfgs.iter().cloned().collect();
        while let Some(c) = todo.pop() {
            for (t, k) in &pending {
                if !c.done.contains(t) {
                    if let Some(mut d) = effect(&c, &log[*k]) {
                        d.done.insert(*t);
                        if cfgs.insert(d.clone()) {
                            todo.push(d);
                        }
                    }
                }
            }
        }
        cfgs = cfgs
            .into_iter()
            .filter_map(|mut c| if c.done.remove(&th) { Some(c) } else { None })
            .collect();
        pending.remove(&th);
        if cfgs.is_empty() {
            return false;
        }
    }
    true
}

pub fn tree_trial(seed: u64) -> Done {
    let mut r = Rng::new(seed);
    let gs = r.next();
    let mut g = Gen::new("C16", gs);
    let setup = Setup::parse(&serde_json::from_str(&g.setup.json()).unwrap());
    let c = setup.codec();
    let (mut it, mut m) = fresh(&setup, &c);
    let mut events = vec![];
    let mut suspect = false;
    let mut ops: std::collections::VecDeque<Op> = g.setup_ops().into();
    for _ in 0..r.below(8) {
        if let Some(o) = ops.pop_front().or_else(|| g.next(&m)) {
            if valid(&o, &m) && !o.name.contains("iter") && !o.name.starts_with("val") {
                let (e, s, _) = step(&o, &mut it, &mut m, &c);
                events.push(e);
                suspect |= s;
            }
        }
    }
    while let Some(o) = ops.pop_front() {
        let (e, s, _) = step(&o, &mut it, &mut m, &c);
        events.push(e);
        suspect |= s;
    }
    let n = 2 + r.below(3);
    let mut parts = vec![];
    for _ in 0..n {
        let mut me = Interp::new(&c, it.stores.clone(), HANDLES, ITERS, VALS);
        me.asked = it.asked;
        me.tree = it.tree.clone();
        me.ver = it.ver.clone();
        let mut g = Gen::new("C16", gs);
        g.reseed(&setup, r.next());
        parts.push(Mutex::new(Some(Ship((me, m.clone(), g, r.next())))));
    }
    // the threads hold the only references, or not
    if r.chance(1, 2) {
        it.tree.iter_mut().for_each(|t| *t = Tree::None);
    }
    let s = Sched::new(n, policy(&mut r), r.next());
    let len = 1 + r.below(6);
    let (res, controlled) = s.run(|i| {
        let (mut it, mut m, mut g, seed) = quiet(|| parts[i].lock().unwrap().take().unwrap().get());
        let mut r = Rng::new(seed);
        let mut events = vec![];
        let mut suspect = false;
        for _ in 0..1 + r.below(2 * len) {
            let o = quiet(|| g.next(&m).filter(|o| valid(o, &m)));
            if let Some(o) = o {
                let (e, s, _) = step(&o, &mut it, &mut m, &c);
                quiet(|| events.push(e));
                if s {
                    suspect = true;
                    break;
                }
            }
        }
        Ship((it, m, g, events, suspect))
    });
    let mut d = Done { lines: vec![], suspect: vec![], events: 0, points: s.points.load(SeqCst), switches: s.switches.load(SeqCst), controlled };
    // everything is looked at again when all have finished
    let res: Vec<_> = res.into_iter().map(|x| x.get()).collect();
    for (i, (mut it, mut m, mut g, evs, sus)) in res.into_iter().enumerate() {
        let mut all = events.clone();
        all.extend(evs);
        let mut sus = sus || suspect;
        if !sus {
            for o in g.finish(&m) {
                if valid(&o, &m) {
                    let (e, s, _) = step(&o, &mut it, &mut m, &c);
                    all.push(e);
                    if s {
                        sus = true;
                        break;
                    }
                }
            }
        }
        d.events += all.len();
        d.lines.push(format!("{{\"seed\":\"{seed}\",\"thread\":{i},\"threads\":{n},\"setup\":{},\"ev\":{}}}", setup.json(), jlist(all)));
        d.suspect.push(sus);
        // in some order
        drop(it);
    }
    d
}

pub fn trial(what: &str, seed: u64) -> Done {
    match what {
        "stores" => store_trial(seed),
        _ => tree_trial(seed),
    }
}

/// runs trials in one process
pub fn shard(what: &str, seed: u64, shard: u64, shards: u64, count: u64, seconds: u64, sample: u64, out: &str) {
    use std::os::unix::fs::FileExt;
    let w = std::sync::Arc::new(Watch::new(1));
    w.clone().guard(out.to_string(), 40);
    let status = std::fs::File::create(format!("{out}/current-{shard}")).unwrap();
    let start = std::time::Instant::now();
    let mut files: Vec<_> =
        ["samples", "suspects"].iter().map(|x| std::io::BufWriter::new(std::fs::File::create(format!("{out}/{x}-{shard}.nd")).unwrap())).collect();
    let (mut trials, mut events, mut points, mut switches, mut freed, mut suspects) = (0u64, 0, 0, 0, 0, 0);
    let mut i = shard;
    while i < count && start.elapsed().as_secs() < seconds {
        let s = trace_seed(seed, i);
        w.enter(0, s);
        let _ = status.write_at(&s.to_le_bytes(), 0);
        let d = trial(what, s);
        w.leave(0);
        trials += 1;
        events += d.events;
        points += d.points;
        switches += d.switches;
        freed += !d.controlled as u64;
        for (l, s) in d.lines.iter().zip(&d.suspect) {
            if *s {
                suspects += 1;
                if suspects < 10 {
                    writeln!(files[1], "{l}").unwrap();
                }
            } else if i < sample {
                writeln!(files[0], "{l}").unwrap();
            }
        }
        if suspects >= 10 {
            break;
        }
        i += shards;
    }
    let _ = status.write_at(&0u64.to_le_bytes(), 0);
    std::fs::write(
        format!("{out}/stats-{shard}.json"),
        format!("{{\"trials\":{trials},\"events\":{events},\"points\":{points},\"switches\":{switches},\"uncontrolled\":{freed},\"suspects\":{suspects}}}"),
    )
    .unwrap();
}

/// runs trials in several processes
pub fn many(cmd: &str, what: &str, seed: u64, count: u64, seconds: u64, sample: u64, out: &str) {
    let k = 8;
    let exe = std::env::current_exe().unwrap();
    let children: Vec<_> = (0..k)
        .map(|i| {
            std::process::Command::new(&exe)
                .args([cmd, "--what", what, "--out", out])
                .args(["--seed", &seed.to_string(), "--shard", &i.to_string(), "--shards", &k.to_string()])
                .args(["--count", &count.to_string(), "--seconds", &seconds.to_string(), "--sample", &sample.to_string()])
                .spawn()
                .unwrap()
        })
        .collect();
    let mut bad = 0;
    for mut c in children {
        let st = c.wait().unwrap();
        if !st.success() {
            bad = st.code().unwrap_or(3);
        }
    }
    std::process::exit(bad);
}
