//! Uses of blobs: made from all kinds of memory, sliced, compared, moved to other threads, kept while whatever they came
//! from changes or is dropped. All blobs are looked at after every operation; nothing is decided here.
use crate::util::*;
use radixdb::node::IterKey;
use radixdb::store::{Blob, BlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::ops::{Bound, RangeBounds};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// each operation when it is over
pub static PRINT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

type B = Blob<'static>;
const SLOTS: usize = 4;
/// stands for the largest number there is
const MAX: i64 = 1_000_000_000;
static TABLE: [u8; 40] = {
    let mut t = [0u8; 40];
    let mut i = 0;
    while i < 40 {
        t[i] = (i * 37 % 11) as u8;
        i += 1;
    }
    t
};

#[derive(Clone, Copy)]
pub struct Bd(&'static str, i64);
impl Bd {
    fn get(self) -> Bound<usize> {
        let n = if self.1 == MAX { usize::MAX } else { self.1 as usize };
        match self.0 {
            "unb" => Bound::Unbounded,
            "inc" => Bound::Included(n),
            _ => Bound::Excluded(n),
        }
    }
    fn json(self) -> String {
        format!("[\"{}\",{}]", self.0, self.1)
    }
}
struct Range(Bd, Bd);
impl RangeBounds<usize> for Range {
    fn start_bound(&self) -> Bound<&usize> {
        own(self.0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        own(self.1)
    }
}
fn own(b: Bd) -> Bound<&'static usize> {
    static N: [usize; 300] = {
        let mut t = [0; 300];
        let mut i = 0;
        while i < 300 {
            t[i] = i;
            i += 1;
        }
        t
    };
    static LAST: usize = usize::MAX;
    let r = |n: usize| if n == usize::MAX { &LAST } else { &N[n] };
    match b.get() {
        Bound::Included(n) => Bound::Included(r(n)),
        Bound::Excluded(n) => Bound::Excluded(r(n)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
/// with the ranges of the language where there are some
fn slice(b: &B, lo: Bd, hi: Bd, how: usize) -> B {
    use Bound::*;
    match (lo.get(), hi.get()) {
        _ if how == 0 => b.slice(Range(lo, hi)),
        (Included(x), Excluded(y)) => b.slice(x..y),
        (Included(x), Included(y)) => b.slice(x..=y),
        (Included(x), Unbounded) => b.slice(x..),
        (Unbounded, Excluded(y)) => b.slice(..y),
        (Unbounded, Included(y)) => b.slice(..=y),
        (Unbounded, Unbounded) => b.slice(..),
        (x, y) => b.slice((x, y)),
    }
}

fn jbytes(b: &[u8]) -> String {
    jlist(b.iter().map(|x| x.to_string()))
}
fn see(b: &B, how: usize) -> &[u8] {
    match how % 3 {
        0 => b.as_ref(),
        1 => b,
        _ => b.borrow(),
    }
}

#[derive(Default)]
struct World {
    mem: Option<MemStore>,
    file: Option<(PagedFileStore, Scratch)>,
    det: Option<RadixTree>,
    att: Option<RadixTree<MemStore>>,
    iter: Option<Box<dyn Iterator<Item = (IterKey, radixdb::node::Value)>>>,
}

pub struct Prog<'a> {
    pub r: Rng,
    slot: Vec<Option<B>>,
    /// the memory of each slot, and whether other blobs may be in the same place without being known to
    at: Vec<(i64, bool)>,
    next: i64,
    world: World,
    pub parts: Vec<String>,
    note: &'a mut dyn FnMut(&str),
}

impl<'a> Prog<'a> {
    pub fn new(seed: u64, note: &'a mut dyn FnMut(&str)) -> Self {
        Prog {
            r: Rng::new(seed),
            slot: (0..=SLOTS).map(|_| None).collect(),
            at: vec![(0, true); SLOTS + 1],
            next: 2,
            world: Default::default(),
            parts: vec![],
            note,
        }
    }
    fn emit(&mut self, op: &str, x: String, st: &str) {
        let how = self.parts.len();
        let obs = jlist((1..=SLOTS).map(|i| match &self.slot[i] {
            Some(b) => format!("[{}]", jbytes(see(b, how + i))),
            None => "[]".into(),
        }));
        let p = format!("{{\"op\":\"{op}\",{x},\"st\":\"{st}\",\"obs\":{obs}}}");
        if PRINT.load(std::sync::atomic::Ordering::Relaxed) {
            println!("end {p}");
        }
        self.parts.push(p);
        (self.note)(op);
    }
    fn content(&mut self) -> Vec<u8> {
        let n = match self.r.below(8) {
            0 => 0,
            1..=5 => 1 + self.r.below(6),
            6 => 20 + self.r.below(30),
            _ => 120 + self.r.below(60),
        };
        let z = self.r.below(3);
        (0..n).map(|_| if z > 0 { self.r.below(3) as u8 } else { self.r.next() as u8 }).collect()
    }
    /// a blob with some content that the program knows, and how it came about: memory, its content, start and length
    fn source(&mut self, kind: usize) -> anyhow::Result<(B, i64, Vec<u8>, usize, usize, bool)> {
        let mut c = self.content();
        let m = self.next;
        self.next += 1;
        let n = c.len();
        Ok(match kind {
            0 => {
                let s = self.r.below(TABLE.len() + 1);
                let n = self.r.below(TABLE.len() - s + 1);
                let x: &'static [u8] = &TABLE[s..s + n];
                let b = if self.r.chance(1, 2) { Blob::new(x) } else { B::owned_new(x, None) };
                (b, 1, TABLE.to_vec(), s, n, true)
            }
            1 => (B::from(Arc::new(c.clone())), m, c, 0, n, true),
            2 => (B::from_arc_vec(Arc::new(c.clone())), m, c, 0, n, true),
            3 => {
                fn arr<const N: usize>(c: &mut Vec<u8>) -> B {
                    c.resize(N, 7);
                    let a: [u8; N] = c[..].try_into().unwrap();
                    B::from(Arc::new(a))
                }
                let b = match self.r.below(4) {
                    0 => arr::<0>(&mut c),
                    1 => arr::<1>(&mut c),
                    2 => arr::<6>(&mut c),
                    _ => arr::<33>(&mut c),
                };
                let n = c.len();
                (b, m, c, 0, n, true)
            }
            4 => (B::copy_from_slice(&c), m, c, 0, n, true),
            5 => {
                let a = Arc::new(c.clone());
                let s = self.r.below(n + 1);
                let k = self.r.below(n - s + 1);
                // the owner keeps the bytes where they are
                let x: &'static [u8] = unsafe { std::mem::transmute(&a[s..s + k]) };
                (B::owned_new(x, Some(a)), m, c, s, k, true)
            }
            6 => (B::empty(), m, vec![], 0, 0, true),
            // borrowed from memory that is then used for something else
            7 | 8 => {
                let mut buf = c.clone().into_boxed_slice();
                let b = {
                    let x = Blob::new(&buf);
                    if kind == 7 {
                        x.to_owned()
                    } else {
                        let (s, e) = (n / 3, n - n / 4);
                        c = c[s.min(e)..e].to_vec();
                        x.slice(s.min(e)..e).clone().to_owned()
                    }
                };
                buf.fill(0xEE);
                drop(buf);
                let n = c.len();
                (b, m, c, 0, n, true)
            }
            9 => {
                let k = self.content();
                let t = self.world.det.get_or_insert_with(RadixTree::default);
                t.insert(&k, &c);
                (t.get(&k).unwrap().load(&radixdb::store::Detached).unwrap(), m, c, 0, n, false)
            }
            10 => {
                let k = self.content();
                let s = self.world.mem.get_or_insert_with(MemStore::default).clone();
                let t = self.world.att.get_or_insert_with(|| RadixTree::empty(s.clone()));
                t.try_insert(&k, &c)?;
                if self.r.chance(1, 2) {
                    t.try_reattach()?;
                }
                (t.try_get(&k)?.unwrap().load(RadixTree::store(t))?, m, c, 0, n, false)
            }
            11 => {
                let s = self.world.mem.get_or_insert_with(MemStore::default);
                let id = s.write(&c)?;
                (s.read(&id)?, m, c, 0, n, false)
            }
            12 => {
                c.truncate(40);
                let s = self.file()?;
                let id = s.write(&c)?;
                let n = c.len();
                (s.read(&id)?, m, c, 0, n, false)
            }
            _ => {
                let t = self.world.det.get_or_insert_with(|| RadixTree::single(b"a", b"b"));
                let i = self.world.iter.get_or_insert_with(|| Box::new(t.iter().collect::<Vec<_>>().into_iter()));
                let k = match i.next() {
                    Some((k, _)) => k,
                    None => {
                        // an iterator that goes on while its keys are kept
                        let mut t = RadixTree::default();
                        for _ in 0..4 {
                            let k = self.content();
                            t.insert(&k, b"");
                        }
                        let mut i: Box<dyn Iterator<Item = _>> = Box::new(t.iter());
                        let first = i.next();
                        self.world.det = Some(t);
                        self.world.iter = Some(i);
                        first.unwrap().0
                    }
                };
                // the key as it is now is what the iterator delivered: checked as a property of trees
                let c = k.to_vec();
                let n = c.len();
                (k.to_owned_blob(), m, c, 0, n, false)
            }
        })
    }
    fn file(&mut self) -> anyhow::Result<&mut PagedFileStore> {
        if self.world.file.is_none() {
            let d = Scratch::new("blob");
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(d.0.join("f"))?;
            self.world.file = Some((PagedFileStore::new(f, 64)?, d));
        }
        Ok(&mut self.world.file.as_mut().unwrap().0)
    }
    fn some(&mut self) -> Option<usize> {
        let v: Vec<usize> = (1..=SLOTS).filter(|i| self.slot[*i].is_some()).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn bound(&mut self, n: usize) -> Bd {
        let k = *self.r.pick(&["unb", "inc", "inc", "exc", "exc"]);
        let x = match self.r.below(10) {
            0 => MAX,
            1 => n as i64 + 1,
            2 => n as i64,
            3 => n as i64 - 1,
            4 => 0,
            _ => self.r.below(n + 1) as i64,
        };
        Bd(k, if k == "unb" { 0 } else { x.max(0) })
    }
    pub fn make(&mut self, i: usize, kind: usize) {
        let r = catch_unwind(AssertUnwindSafe(|| self.source(kind)));
        let (m, c, s, n, st) = match r {
            Ok(Ok((b, m, c, s, n, private))) => {
                self.slot[i] = Some(b);
                self.at[i] = (m, private);
                (m, c, s, n, "ok")
            }
            Ok(Err(_)) => (0, vec![], 0, 0, "err"),
            Err(_) => (0, vec![], 0, 0, "panic"),
        };
        self.emit("make", format!("\"i\":{i},\"kind\":{kind},\"m\":{m},\"b\":{},\"s\":{s},\"n\":{n}", jbytes(&c)), st);
    }
    pub fn slice(&mut self, i: usize, j: usize, lo: Bd, hi: Bd, how: usize) {
        let r = catch_unwind(AssertUnwindSafe(|| slice(self.slot[i].as_ref().unwrap(), lo, hi, how)));
        let st = match r {
            Ok(b) => {
                self.slot[j] = Some(b);
                self.at[j] = self.at[i];
                "ok"
            }
            Err(_) => "panic",
        };
        self.emit("slice", format!("\"i\":{i},\"j\":{j},\"lo\":{},\"hi\":{}", lo.json(), hi.json()), st);
    }
    pub fn step(&mut self) {
        let j = 1 + self.r.below(SLOTS);
        let Some(i) = self.some() else {
            let k = self.r.below(14);
            return self.make(j, k);
        };
        let n = self.slot[i].as_ref().unwrap().len();
        match self.r.below(22) {
            0..=4 => {
                let k = self.r.below(14);
                self.make(j, k)
            }
            5..=9 => {
                let (lo, hi) = (self.bound(n), self.bound(n));
                let how = self.r.below(2);
                self.slice(i, j, lo, hi, how)
            }
            10..=12 => {
                let k = self.some().unwrap();
                // without knowing where the memory is there is nothing to say
                if self.at[i].0 != self.at[k].0 && !(self.at[i].1 && self.at[k].1) {
                    return;
                }
                let len = self.slot[k].as_ref().unwrap().len();
                let o = self.r.below(len + 1);
                let n = self.r.below(len - o + 1);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let (a, b) = (self.slot[i].as_ref().unwrap(), self.slot[k].as_ref().unwrap());
                    a.slice_ref(&b[o..o + n])
                }));
                let st = match r {
                    Ok(b) => {
                        self.slot[j] = Some(b);
                        self.at[j] = self.at[i];
                        "ok"
                    }
                    Err(_) => "panic",
                };
                self.emit("sliceref", format!("\"i\":{i},\"j\":{j},\"k\":{k},\"s\":{o},\"n\":{n}"), st);
            }
            13 => {
                self.slot[j] = self.slot[i].clone();
                self.at[j] = self.at[i];
                self.emit("clone", format!("\"i\":{i},\"j\":{j}"), "ok");
            }
            14 => {
                let b = self.slot[i].take().unwrap();
                self.slot[j] = Some(b.to_owned());
                self.at[j] = self.at[i];
                // if it had no owner it may have been copied
                self.emit("toowned", format!("\"i\":{i},\"j\":{j}"), "ok");
                self.fresh(j);
            }
            15 => {
                self.slot[i] = None;
                self.emit("drop", format!("\"i\":{i}"), "ok");
            }
            16 | 17 => {
                let k = self.some().unwrap();
                let (a, b) = (self.slot[i].clone().unwrap(), self.slot[k].clone().unwrap());
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let hash = |x: &B| {
                        let mut h = DefaultHasher::new();
                        x.hash(&mut h);
                        h.finish()
                    };
                    let h: HashSet<B> = [a.clone()].into_iter().collect();
                    let s: BTreeSet<B> = [a.clone()].into_iter().collect();
                    let key: &[u8] = &b;
                    vec![
                        a.cmp(&b) as i32,
                        a.partial_cmp(&b).map(|x| x as i32).unwrap_or(9),
                        (a == b) as i32,
                        (hash(&a) == hash(&b)) as i32,
                        h.contains(key) as i32,
                        s.contains(key) as i32,
                    ]
                }));
                let (out, st) = match r {
                    Ok(x) => (x, "ok"),
                    Err(_) => (vec![], "panic"),
                };
                self.emit("compare", format!("\"i\":{i},\"k\":{k},\"out\":{}", jlist(out.iter().map(|x| x.to_string()))), st);
            }
            18 => {
                let b = self.slot[i].clone().unwrap();
                let keep = self.r.chance(1, 2);
                if !keep {
                    // the other thread has the last one
                    let c = b.to_vec();
                    self.slot[i] = None;
                    let out = std::thread::spawn(move || b.to_vec()).join().unwrap_or_default();
                    self.emit("drop", format!("\"i\":{i}"), if out == c { "ok" } else { "changed" });
                } else {
                    let out = std::thread::spawn(move || b.to_vec()).join().unwrap_or_default();
                    self.emit("send", format!("\"i\":{i},\"out\":{}", jbytes(&out)), "ok");
                }
            }
            _ => self.turn(),
        }
    }
    /// a blob that is possibly a copy is somewhere else now
    fn fresh(&mut self, j: usize) {
        self.at[j].1 = false;
        self.at[j].0 = -self.next;
        self.next += 1;
    }
    /// something happens to where blobs come from
    fn turn(&mut self) {
        let what = self.r.below(7);
        let r = catch_unwind(AssertUnwindSafe(|| -> anyhow::Result<()> {
            match what {
                0 => self.world.det = None,
                1 => self.world.att = None,
                2 => {
                    self.world.att = None;
                    self.world.mem = None
                }
                3 => self.world.file = None,
                4 => {
                    for _ in 0..3 {
                        let mut c = self.content();
                        c.truncate(40);
                        self.file()?.write(&c)?;
                    }
                }
                5 => {
                    let ks: Vec<Vec<u8>> = (0..4).map(|_| self.content()).collect();
                    if let Some(t) = &mut self.world.det {
                        for k in &ks {
                            t.insert(k, k);
                            t.remove_prefix(&k[..k.len() / 2]);
                        }
                    }
                    if let Some(t) = &mut self.world.att {
                        for k in &ks {
                            t.try_insert(k, k)?;
                        }
                        t.try_remove_prefix(&ks[0])?;
                    }
                }
                _ => {
                    self.world.iter = None;
                    // memory that was freed is used again
                    let v: Vec<Vec<u8>> = (0..64).map(|i| vec![0xEEu8; 8 + i * 3]).collect();
                    std::hint::black_box(&v);
                }
            }
            Ok(())
        }));
        let st = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        };
        self.emit("world", format!("\"what\":{what}"), st);
    }
}

/// a random program
pub fn generate(seed: u64, note: &mut dyn FnMut(&str)) -> String {
    let mut p = Prog::new(seed, note);
    let n = 8 + p.r.below(30);
    for _ in 0..n {
        p.step();
    }
    let parts = std::mem::take(&mut p.parts);
    format!("{{\"seed\":\"{seed}\",\"ev\":[{}]}}", parts.join(","))
}

/// all slices with bounds up to the length, of a blob and of one of its slices
fn grid(n: usize, first: Option<(Bd, Bd)>, how: usize) -> String {
    let mut ignore = |_: &str| {};
    let mut p = Prog::new(1, &mut ignore);
    let c: Vec<u8> = (0..n).map(|x| x as u8 + 1).collect();
    p.slot[1] = Some(B::copy_from_slice(&c));
    p.at[1] = (2, true);
    p.emit("make", format!("\"i\":1,\"kind\":4,\"m\":2,\"b\":{},\"s\":0,\"n\":{n}", jbytes(&c)), "ok");
    let mut i = 1;
    if let Some((lo, hi)) = first {
        p.slice(1, 2, lo, hi, 0);
        i = 2;
    }
    if p.slot[i].is_some() {
        for lo in bounds() {
            for hi in bounds() {
                p.slice(i, 3, lo, hi, how);
            }
        }
    }
    format!("{{\"seed\":\"0\",\"ev\":[{}]}}", p.parts.join(","))
}
fn bounds() -> Vec<Bd> {
    let mut v = vec![Bd("unb", 0)];
    for k in ["inc", "exc"] {
        v.extend([0, 1, 2, 3, 4, 5, MAX].iter().map(|x| Bd(k, *x)));
    }
    v
}

pub fn many(seed: u64, count: u64, seconds: u64, out: &str) {
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let w = Arc::new(crate::run::Watch::new(1));
    w.clone().guard(out.to_string(), 40);
    let status = std::fs::File::create(format!("{out}/current-0")).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/samples.ndjson")).unwrap());
    let start = std::time::Instant::now();
    let (mut traces, mut events) = (0, 0);
    for n in 0..=4 {
        for how in 0..2 {
            writeln!(f, "{}", grid(n, None, how)).unwrap();
            traces += 1;
        }
    }
    for lo in bounds() {
        for hi in bounds() {
            writeln!(f, "{}", grid(4, Some((lo, hi)), 0)).unwrap();
            traces += 1;
        }
    }
    let grids = traces;
    for i in 0..count {
        if start.elapsed().as_secs() >= seconds {
            break;
        }
        let s = crate::run::trace_seed(seed, i);
        w.enter(0, s);
        let _ = status.write_at(&s.to_le_bytes(), 0);
        let l = generate(s, &mut |_| events += 1);
        w.leave(0);
        writeln!(f, "{l}").unwrap();
        traces += 1;
    }
    let _ = status.write_at(&0u64.to_le_bytes(), 0);
    std::fs::write(format!("{out}/stats.json"), format!("{{\"traces\":{traces},\"grids\":{grids},\"events\":{events}}}")).unwrap();
}
