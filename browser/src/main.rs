//! Runs the file system of /repo/browser on a browser cache that is kept in memory, looks at what is in the cache after
//! every single change, and records everything for TLC (spec/TraceCache.tla, spec/TraceStore.tla).
mod paging;
use sample::{SimpleWebCacheFs, SyncDir, SyncFile, SyncFs};
use radixdb::store::BlobStore;
use serde_json::{json, Value};
use sqlite_vfs::Vfs;
use std::{
    collections::BTreeMap,
    fs::File,
    io::{BufWriter, Write},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};
use wasm_futures_executor::ThreadPool;
use web_sys::{Caches, HOST};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn host<T>(f: impl FnOnce(&mut web_sys::Host) -> T) -> T {
    f(&mut HOST.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn reset(caches: Caches) {
    host(|h| {
        h.caches = caches;
        h.deleted.clear();
        h.log.clear();
        h.budget = None;
        h.failed = false;
        h.fail = 0;
    })
}
pub fn fresh() -> SyncFs {
    SimpleWebCacheFs::new(ThreadPool)
}

/// progress, for the watchdog
static BEAT: AtomicU64 = AtomicU64::new(0);
static NOW: Mutex<(u64, Vec<Value>)> = Mutex::new((0, Vec::new()));
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}
pub fn begin(seed: u64) {
    *NOW.lock().unwrap() = (seed, vec![]);
}
pub fn about_to(ev: Value) {
    NOW.lock().unwrap().1.push(ev);
    beat();
}
pub fn finished(ev: &Value) {
    if let Some(x) = NOW.lock().unwrap().1.last_mut() {
        *x = ev.clone();
    }
    beat();
}

/// contents are sequences of tokens, every token a block of U bytes
pub fn block(tok: i64, u: usize) -> Vec<u8> {
    (0..u).map(|j| if tok == 0 { 0 } else { (tok as usize * 37 + j * 11 + (j >> 8) * 5) as u8 ^ if u > 1 { 0x80 } else { 0 } }).collect()
}
pub fn bytes(toks: &[i64], u: usize) -> Vec<u8> {
    if u == 0 {
        return toks.iter().map(|x| *x as u8).collect();
    }
    toks.iter().flat_map(|t| block(*t, u)).collect()
}
/// -2 is something that was never written
pub fn tokens(b: &[u8], u: usize, max: i64) -> Vec<i64> {
    if u == 0 {
        return b.iter().map(|x| *x as i64).collect();
    }
    b.chunks(u).map(|c| (0..=max).find(|t| block(*t, u) == c).unwrap_or(-2)).collect()
}

const PROBE: i64 = 6;
pub struct Unit {
    /// bytes per token; 0: tokens are bytes
    pub u: usize,
    pub max: i64,
}
impl Unit {
    fn len(&self) -> u64 {
        self.u.max(1) as u64
    }
    fn at(&self, n: u64) -> i64 {
        if n % self.len() == 0 {
            (n / self.len()) as i64
        } else {
            -2
        }
    }
    fn all(&self, f: &SyncFile) -> anyhow::Result<Vec<i64>> {
        let n = f.length()?;
        anyhow::ensure!(n < 1 << 24, "length {n}");
        let b = f.read(0..n)?;
        anyhow::ensure!(b.len() as u64 == n, "read is short");
        Ok(tokens(&b, self.u, self.max))
    }
}

type Name = (usize, usize);
pub struct World {
    pub dirs: Vec<&'static str>,
    pub names: Vec<&'static str>,
    pub unit: Unit,
}
fn answer(r: anyhow::Result<Vec<i64>>) -> Vec<i64> {
    r.unwrap_or_else(|_| vec![-9])
}
impl World {
    fn file(&self, fs: &SyncFs, f: Name) -> anyhow::Result<SyncFile> {
        fs.open_dir(self.dirs[f.0])?.open_file(self.names[f.1])
    }
    /// what the file f contains for someone who opens it in the given state of the cache; and, if asked, after something
    /// was appended to it; and the states of the cache on the way
    fn view(&self, caches: &Caches, f: Name, probe: bool) -> (Value, Vec<Caches>) {
        reset(caches.clone());
        let fs = fresh();
        let got = answer(self.file(&fs, f).and_then(|f| self.unit.all(&f)));
        let log = host(|h| std::mem::take(&mut h.log));
        let mut v = json!({"f": self.id(f), "got": got, "probed": probe, "then": []});
        if probe {
            let _ = self.file(&fs, f).and_then(|x| {
                let n = x.length()?;
                x.write(n, bytes(&[PROBE], self.unit.u))
            });
            fs.unmount();
            let fs = fresh();
            v["then"] = json!(answer(self.file(&fs, f).and_then(|f| self.unit.all(&f))));
            fs.unmount();
        } else {
            fs.unmount();
        }
        beat();
        (v, log)
    }
    fn id(&self, f: Name) -> usize {
        f.0 * self.names.len() + f.1 + 1
    }
}

pub struct Session<'w> {
    w: &'w World,
    fs: SyncFs,
    dirs: BTreeMap<usize, SyncDir>,
    files: BTreeMap<Name, SyncFile>,
    vfiles: BTreeMap<Name, Box<dyn sqlite_vfs::File>>,
    pub ev: Vec<Value>,
    pub views: usize,
    pub faults: usize,
    pub suspect: bool,
    /// there is no telling what state it is in
    pub over: bool,
    /// what is in the files, as far as it is known; only to find executions worth a closer look
    mirror: BTreeMap<Name, Vec<i64>>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Write(Name, u64, Vec<i64>, bool),
    Truncate(Name, u64, bool),
    Append(Name, Vec<i64>),
    Blob(Name, u64),
    Read(Name, u64, u64, bool),
    Length(Name, bool),
    Exists(Name, bool),
    Delete(Name, bool),
    DeleteDir(usize),
    Flush(Name),
    /// something with a file after its file system was shut down
    Closed(Name, usize),
    Reopen,
}
/// which calls to the host fail: after how many, and how many
pub type Fault = Option<(usize, usize)>;

impl<'w> Session<'w> {
    pub fn new(w: &'w World) -> Self {
        reset(Caches::new());
        Session { w, fs: fresh(), dirs: Default::default(), files: Default::default(), vfiles: Default::default(), ev: vec![], views: 0, faults: 0, suspect: false, over: false, mirror: Default::default() }
    }
    fn dir(&mut self, d: usize) -> anyhow::Result<&mut SyncDir> {
        if !self.dirs.contains_key(&d) {
            self.dirs.insert(d, self.fs.open_dir(self.w.dirs[d])?);
        }
        Ok(self.dirs.get_mut(&d).unwrap())
    }
    fn file(&mut self, f: Name) -> anyhow::Result<&SyncFile> {
        if !self.files.contains_key(&f) {
            let n = self.w.names[f.1];
            let x = self.dir(f.0)?.open_file(n)?;
            self.files.insert(f, x);
        }
        Ok(&self.files[&f])
    }
    fn vfile(&mut self, f: Name) -> anyhow::Result<&mut Box<dyn sqlite_vfs::File>> {
        if !self.vfiles.contains_key(&f) {
            let n = std::ffi::CString::new(self.w.names[f.1])?;
            let x = self.dir(f.0)?.open(&n, Default::default()).map_err(vfs)?;
            self.vfiles.insert(f, x);
        }
        Ok(self.vfiles.get_mut(&f).unwrap())
    }
    /// the result: a number and data
    fn exec(&mut self, op: &Op) -> anyhow::Result<(i64, Vec<i64>)> {
        let (u, max, len) = (self.w.unit.u, self.w.unit.max, self.w.unit.len());
        Ok(match op {
            Op::Write(f, off, data, false) => {
                self.file(*f)?.write(off * len, bytes(data, u))?;
                (0, vec![])
            }
            Op::Write(f, off, data, true) => {
                let b = bytes(data, u);
                let n = self.vfile(*f)?.write(off * len, &b).map_err(vfs)?;
                anyhow::ensure!(n == b.len(), "short write");
                (0, vec![])
            }
            Op::Truncate(f, n, false) => {
                self.file(*f)?.truncate(n * len)?;
                (0, vec![])
            }
            Op::Truncate(f, n, true) => {
                self.vfile(*f)?.truncate(n * len).map_err(vfs)?;
                (0, vec![])
            }
            Op::Append(f, data) => {
                let id = BlobStore::write(self.file(*f)?, &bytes(data, u))?;
                (u64::from_be_bytes(id[..].try_into()?).min(1 << 30) as i64, vec![])
            }
            Op::Blob(f, id) => {
                let b = BlobStore::read(self.file(*f)?, &id.to_be_bytes())?;
                (0, tokens(&b, u, max))
            }
            Op::Read(f, a, b, false) => {
                let d = self.file(*f)?.read(a * len..b * len)?;
                (0, tokens(&d, u, max))
            }
            Op::Read(f, a, b, true) => {
                let mut buf = vec![0u8; (b.saturating_sub(*a) * len) as usize];
                let n = self.vfile(*f)?.read(a * len, &mut buf).map_err(vfs)?;
                (0, tokens(&buf[..n], u, max))
            }
            Op::Length(f, false) => (self.w.unit.at(self.file(*f)?.length()?), vec![]),
            Op::Length(f, true) => (self.w.unit.at(self.vfile(*f)?.file_size().map_err(vfs)?), vec![]),
            Op::Exists(f, false) => {
                let n = self.w.names[f.1];
                (self.dir(f.0)?.file_exists(n)? as i64, vec![])
            }
            Op::Exists(f, true) => {
                let n = std::ffi::CString::new(self.w.names[f.1])?;
                (self.dir(f.0)?.exists(&n).map_err(vfs)? as i64, vec![])
            }
            Op::Delete(f, v) => {
                self.files.remove(f);
                self.vfiles.remove(f);
                let n = self.w.names[f.1];
                let d = self.dir(f.0)?;
                if *v {
                    d.delete(&std::ffi::CString::new(n)?).map_err(vfs)?;
                    (-1, vec![])
                } else {
                    (d.delete_file(n)? as i64, vec![])
                }
            }
            Op::DeleteDir(d) => {
                self.files.retain(|f, _| f.0 != *d);
                self.vfiles.retain(|f, _| f.0 != *d);
                self.dirs.remove(d);
                (self.fs.delete_dir(self.w.dirs[*d])? as i64, vec![])
            }
            Op::Flush(f) => {
                self.file(*f)?.sync()?;
                (0, vec![])
            }
            Op::Closed(f, how) => {
                self.file(*f)?;
                self.dir(f.0)?;
                self.fs.unmount();
                let (file, dir) = (&self.files[f], &self.dirs[&f.0]);
                let r = match how {
                    0 => file.write(0, vec![1]),
                    1 => file.read(0..0).map(|_| ()),
                    2 => file.length().map(|_| ()),
                    3 => file.truncate(0),
                    4 => BlobStore::write(file, b"x").map(|_| ()),
                    5 => dir.open_file("a").map(|_| ()),
                    6 => dir.delete_file(self.w.names[f.1]).map(|_| ()),
                    7 => self.fs.open_dir(self.w.dirs[f.0]).map(|_| ()),
                    8 => self.fs.delete_dir(self.w.dirs[f.0]).map(|_| ()),
                    _ => dir.file_exists(self.w.names[f.1]).map(|_| ()),
                };
                self.reopen();
                r?;
                (0, vec![])
            }
            Op::Reopen => {
                self.fs.unmount();
                self.reopen();
                (0, vec![])
            }
        })
    }
    fn reopen(&mut self) {
        self.files.clear();
        self.vfiles.clear();
        self.dirs.clear();
        self.fs = fresh();
    }
    fn event(&self, op: &Op) -> (Value, Option<Name>) {
        let id = |f: &Name| self.w.id(*f);
        let (k, f, a, b, data) = match op {
            Op::Write(f, off, data, _) => ("write", Some(*f), *off, 0, data.clone()),
            Op::Truncate(f, n, _) => ("truncate", Some(*f), *n, 0, vec![]),
            Op::Append(f, data) => ("append", Some(*f), 0, 0, data.clone()),
            Op::Blob(f, id) => ("blob", Some(*f), *id, 0, vec![]),
            Op::Read(f, a, b, false) => ("read", Some(*f), *a, *b, vec![]),
            Op::Read(f, a, b, true) => ("part", Some(*f), *a, *b, vec![]),
            Op::Length(f, _) => ("length", Some(*f), 0, 0, vec![]),
            Op::Exists(f, _) => ("exists", Some(*f), 0, 0, vec![]),
            Op::Delete(f, _) => ("delete", Some(*f), 0, 0, vec![]),
            Op::DeleteDir(d) => ("deletedir", None, 0, *d as u64, vec![]),
            Op::Flush(f) => ("flush", Some(*f), 0, 0, vec![]),
            Op::Closed(f, how) => ("closed", Some(*f), *how as u64, 0, vec![]),
            Op::Reopen => ("reopen", None, 0, 0, vec![]),
        };
        let files: Vec<usize> = match (op, &f) {
            (Op::DeleteDir(d), _) => (0..self.w.names.len()).map(|n| id(&(*d, n))).collect(),
            (_, Some(f)) => vec![id(f)],
            _ => vec![],
        };
        // numbers that TLC can hold
        (json!({"op": k, "files": files, "a": a.min(1 << 30), "b": b.min(1 << 30), "data": data}), f)
    }
    pub fn step(&mut self, op: &Op, fault: Fault, rng: &mut Rng, looks: bool) {
        if self.over {
            return;
        }
        let (mut e, f) = self.event(op);
        host(|h| {
            h.log.clear();
            h.failed = false;
            h.budget = fault.map(|x| x.0);
            h.fail = fault.map(|x| x.1).unwrap_or(0);
        });
        about_to(e.clone());
        let r = quiet(|| self.exec(op));
        let panic = matches!(&r, Err(e) if e.to_string() == "PANIC");
        let (failed, log, caches, deleted) = host(|h| {
            h.budget = None;
            (h.failed, std::mem::take(&mut h.log), h.caches.clone(), h.deleted.clone())
        });
        self.faults += failed as usize;
        e["fault"] = json!(failed);
        let ok = r.is_ok();
        e["st"] = json!(status(&r));
        e["why"] = json!(r.as_ref().err().map(|e| e.to_string()).unwrap_or_default());
        let (n, d) = r.unwrap_or((-1, vec![]));
        e["n"] = json!(n);
        e["got"] = json!(d);
        let mut views = vec![];
        // an operation that failed has happened or has not
        let mut now: Vec<(Name, Vec<i64>)> = vec![];
        if !ok && matches!(op, Op::Write(..) | Op::Truncate(..) | Op::Append(..) | Op::Delete(..) | Op::DeleteDir(..)) {
            let all = (0..self.w.names.len()).map(|n| if let Op::DeleteDir(d) = op { (*d, n) } else { f.unwrap() });
            for f in if f.is_some() { all.take(1).collect::<Vec<_>>() } else { all.collect() } {
                let (v, _) = self.w.view(&caches, f, false);
                now.push((f, serde_json::from_value(v["got"].clone()).unwrap()));
            }
        }
        e["now"] = json!(now.iter().map(|x| &x.1).collect::<Vec<_>>());
        if looks {
            let other = (rng.below(self.w.dirs.len()), rng.below(self.w.names.len()));
            let f = f.or(if let Op::DeleteDir(d) = op { Some((*d, other.1)) } else { None });
            for (i, c) in log.iter().enumerate() {
                if let Some(f) = f {
                    let (v, sub) = self.w.view(c, f, true);
                    views.push(v);
                    // the one who opens the file is interrupted, too
                    for c in sub.iter().take(sub.len().saturating_sub(1)) {
                        views.push(self.w.view(c, f, rng.one_in(4)).0);
                    }
                }
                if i + 1 == log.len() || rng.one_in(8) {
                    views.push(self.w.view(c, other, false).0);
                }
            }
            if log.is_empty() && rng.one_in(16) {
                views.push(self.w.view(&caches, f.unwrap_or(other), true).0);
            }
        }
        if !now.is_empty() || looks {
            reset(caches);
            host(|h| h.deleted = deleted);
        }
        self.views += views.len();
        self.check(op, ok, failed, n, &e["got"], &views, now);
        self.suspect |= panic;
        self.over |= panic;
        e["views"] = json!(views);
        finished(&e);
        self.ev.push(e);
    }
    /// a coarse copy of the specification
    fn check(&mut self, op: &Op, ok: bool, failed: bool, n: i64, got: &Value, views: &[Value], now: Vec<(Name, Vec<i64>)>) {
        let old = self.mirror.clone();
        let mut new = old.clone();
        let get = |f: &Name| old.get(f).cloned().unwrap_or_default();
        let mut good = true;
        let mut may_err = failed;
        match op {
            Op::Write(f, off, data, _) => {
                let mut c = get(f);
                let end = *off as usize + data.len();
                if !data.is_empty() {
                    c.resize(end.max(c.len()), 0);
                    c[*off as usize..end].copy_from_slice(data);
                }
                new.insert(*f, c);
            }
            Op::Truncate(f, n, _) => {
                let mut c = get(f);
                c.truncate(*n as usize);
                new.insert(*f, c);
            }
            Op::Append(f, data) => {
                let mut c = get(f);
                good &= !ok || n == c.len() as i64;
                c.extend((data.len() as u32).to_be_bytes().map(|x| x as i64));
                c.extend(data);
                new.insert(*f, c);
            }
            Op::Blob(f, id) => {
                let c = get(f);
                let v = (*id as usize).checked_add(4).filter(|s| *s <= c.len()).and_then(|s| {
                    let n = c[s - 4..s].iter().fold(0usize, |n, x| n << 8 | *x as usize);
                    c.get(s..s + n)
                });
                may_err |= v.is_none();
                good &= !ok || v.map(|v| json!(v)) == Some(got.clone());
            }
            Op::Read(f, a, b, part) => {
                let c = get(f);
                let e = if *part { (*b as usize).min(c.len()) } else { *b as usize };
                if e > c.len() {
                    may_err = true;
                    good &= !ok;
                } else {
                    good &= !ok || *got == json!(c.get(*a as usize..e).unwrap_or_default());
                }
            }
            Op::Length(f, _) => good &= !ok || n == get(f).len() as i64,
            Op::Exists(f, _) => good &= !ok || n == 1 || get(f).is_empty(),
            Op::Delete(f, _) => {
                new.remove(f);
            }
            Op::DeleteDir(d) => new.retain(|f, _| f.0 != *d),
            Op::Closed(..) => {
                may_err = true;
                good &= !ok;
            }
            _ => {}
        }
        good &= ok || may_err;
        for (f, c) in &now {
            good &= *c == get(f) || Some(c) == new.get(f) || c.is_empty() && !new.contains_key(f);
        }
        for v in views {
            let f = v["f"].as_u64().unwrap() as usize - 1;
            let f = (f / self.w.names.len(), f % self.w.names.len());
            let (a, b) = (get(&f), new.get(&f).cloned().unwrap_or_default());
            good &= v["got"] == json!(a) || v["got"] == json!(b);
            if v["probed"] == json!(true) {
                let mut t: Vec<Value> = v["got"].as_array().unwrap().clone();
                t.push(json!(PROBE));
                good &= v["then"] == json!(t);
            }
        }
        if ok {
            self.mirror = new;
        } else {
            self.mirror.extend(now);
        }
        self.suspect |= !good;
    }
    pub fn done(mut self) -> (Vec<Value>, bool) {
        self.fs.unmount();
        (std::mem::take(&mut self.ev), self.suspect)
    }
}
/// a panic is neither an answer nor an error
pub fn quiet<T>(f: impl FnOnce() -> anyhow::Result<T>) -> anyhow::Result<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| anyhow::bail!("PANIC"))
}
pub fn status<T>(r: &anyhow::Result<T>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(e) if e.to_string() == "PANIC" => "panic",
        Err(_) => "err",
    }
}
fn vfs(e: sqlite_vfs::VfsError) -> anyhow::Error {
    anyhow::anyhow!("vfs error {}", e.0)
}

const UNITS: &[usize] = &[1, 1, 1, 7, 64, 4096];
fn program(seed: u64, stats: &mut Stats) -> (Value, bool) {
    let mut rng = Rng(seed);
    let u = if rng.one_in(3) { 0 } else { *rng.pick(UNITS) };
    let mut names = vec!["a", "ab", "db/main.db3"];
    if rng.one_in(3) {
        // names that urls have another way of writing
        let all: [&[&str]; 24] = [
            &["a b", "a%20b", "a+b"], &["a\tb", "ab", "a%09b"], &["a\nb", "ab", "a\rb"], &["/a", "a", "//a"], &["a\\b", "a/b", "a%5Cb"],
            &["a//b", "a/b", "a/b/"], &["a/./b", "a/b", "a/%2e/b"], &["a/../b", "b", "a/b"], &["..", ".", "%2e"], &["./a", "a", "../a"],
            &["a/..", "a/.", "a/"], &["a/%2E%2e/b", "b", "a/.%2e/b"], &["A", "a", "a%"], &["a?b", "a", "a%3Fb"], &["a#b", "a", "a%23b"],
            &["a?0000-00000000-0001", "a", "?"], &["http://x/a", "a", "http:a"], &["ü", "%C3%BC", "u\u{308}"], &[" a", "a", "a "],
            &["a:b", "a;b", "a&b=c"], &["50%", "50%25", "50"], &["a/...", "a/..b", "a/.b"], &["\u{7f}", "\u{2}", "\u{1}"], &["a\"b", "a<b>", "a`{b}|^[c]~'"],
        ];
        names = rng.pick(&all).to_vec();
        names.sort();
        names.dedup();
    }
    let w = World {
        dirs: vec!["sync", "sqlite"],
        names: names.clone(),
        unit: Unit { u, max: 60 },
    };
    let mut s = Session::new(&w);
    let steps = 4 + rng.below(16);
    let (nd, nf) = (1 + rng.below(2), 1 + rng.below(names.len()));
    let mut tok = 0;
    let faults = rng.below(3);
    let looks = !rng.one_in(4);
    let mut ids: Vec<u64> = vec![];
    let big = 1 + rng.below(6);
    let mut again = false;
    for _ in 0..steps {
        let f = (rng.below(nd), rng.below(nf));
        let len = s.mirror.get(&f).map(|x| x.len()).unwrap_or(0) as u64;
        let via = rng.one_in(4);
        let mut data = |rng: &mut Rng, min: usize| -> Vec<i64> {
            (0..min + rng.below(big))
                .map(|_| {
                    tok += 1;
                    if u == 0 { rng.below(256) as i64 } else { 7 + tok % 50 }
                })
                .collect()
        };
        let within = |rng: &mut Rng| rng.below(len as usize + 1) as u64;
        let op = match rng.below(24) {
            0..=4 => Op::Write(f, len, data(&mut rng, 1), via),
            5..=7 => Op::Write(f, within(&mut rng), data(&mut rng, 1), via),
            8 => Op::Write(f, if rng.one_in(2) { len + rng.below(3) as u64 } else { within(&mut rng) }, data(&mut rng, 0), via),
            9..=12 => Op::Truncate(f, within(&mut rng) + rng.one_in(12) as u64, via),
            13..=15 if u == 0 => {
                ids.push(len);
                Op::Append(f, data(&mut rng, 0))
            }
            16..=17 if u == 0 => Op::Blob(f, match rng.below(8) {
                0 => u64::MAX - rng.below(5) as u64,
                1 => within(&mut rng) + rng.below(4) as u64,
                _ => ids.get(rng.below(ids.len())).copied().unwrap_or(0),
            }),
            13..=15 => {
                let (a, b) = (within(&mut rng), within(&mut rng) + rng.one_in(8) as u64);
                // sqlite reads behind the end, too
                let a = if via && rng.one_in(3) { len + rng.below(3) as u64 } else { a };
                Op::Read(f, a, b.max(a), via)
            }
            16..=17 => Op::Read(f, 0, len, via),
            18 => Op::Length(f, via),
            19 => Op::Exists(f, via),
            20 => if rng.one_in(2) { Op::Delete(f, via) } else { Op::Read(f, 0, len, via) },
            21 => if rng.one_in(4) { Op::DeleteDir(f.0) } else { Op::Flush(f) },
            _ if rng.one_in(4) => Op::Closed(f, rng.below(10)),
            _ => Op::Reopen,
        };
        // failures often come in a row
        let fault = if again && rng.one_in(2) {
            Some((rng.below(3), 1 + rng.below(2)))
        } else if faults > 0 && rng.one_in(4) { Some((rng.below(8), 1 + rng.below(2))) } else { None };
        let fault = if matches!(op, Op::Reopen) { None } else { fault };
        let before = s.faults;
        s.step(&op, fault, &mut rng, looks);
        again = s.faults > before;
        if fault.is_some() && rng.one_in(3) {
            s.step(&Op::Reopen, None, &mut rng, looks);
        }
    }
    for d in 0..nd {
        for n in 0..nf {
            let len = s.mirror.get(&(d, n)).map(|x| x.len()).unwrap_or(0) as u64;
            s.step(&Op::Read((d, n), 0, len, false), None, &mut rng, false);
        }
    }
    stats.add(&s);
    let (ev, suspect) = s.done();
    (json!({"seed": seed.to_string(), "u": u, "names": names, "per": names.len(), "ev": ev}), suspect)
}

#[derive(Default)]
pub struct Stats {
    traces: usize,
    planned: usize,
    events: usize,
    views: usize,
    faults: usize,
    suspects: usize,
}
impl Stats {
    fn add(&mut self, s: &Session) {
        self.traces += 1;
        self.events += s.ev.len();
        self.views += s.views;
        self.faults += s.faults;
    }
}

/// the sequences of operations that TLC wrote: [["write", off, [toks]], ["truncate", n, []], ...]
fn plan(ops: &[Value], seed: u64, stats: &mut Stats) -> (Value, bool) {
    let mut rng = Rng(seed);
    let u = *rng.pick(UNITS);
    let w = World { dirs: vec!["sync"], names: vec!["a"], unit: Unit { u, max: 60 } };
    let mut s = Session::new(&w);
    let row = rng.one_in(3);
    let brk = if rng.one_in(2) { rng.below(ops.len()) } else { usize::MAX };
    for (i, o) in ops.iter().enumerate() {
        let off = o[1].as_u64().unwrap();
        let via = rng.one_in(8);
        let op = match o[0].as_str().unwrap() {
            "write" => Op::Write((0, 0), off, o[2].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(), via),
            _ => Op::Truncate((0, 0), off, via),
        };
        let fault = if i == brk || row && i > brk && i < brk.saturating_add(3) { Some((rng.below(if i == brk { 8 } else { 3 }), 1)) } else { None };
        s.step(&op, fault, &mut rng, true);
        if rng.one_in(3) {
            s.step(&Op::Reopen, None, &mut rng, false);
        }
    }
    stats.add(&s);
    let (ev, suspect) = s.done();
    (json!({"seed": seed.to_string(), "u": u, "names": ["a"], "per": 1, "ev": ev, "plan": ops}), suspect)
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| arg(&args, k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let out = arg(&args, "--out").unwrap_or(".".into());
    std::panic::set_hook(Box::new(|_| {}));
    // an operation that does not return
    {
        let out = out.clone();
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let b = BEAT.load(Ordering::Relaxed);
                if b != last.0 {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(40) {
                    let now = NOW.lock().unwrap();
                    std::fs::write(format!("{out}/hang"), json!({"seed": now.0.to_string(), "ev": now.1}).to_string()).unwrap();
                    std::process::exit(4);
                }
            }
        });
    }
    let seed = num("--seed", 1);
    let deadline = Instant::now() + Duration::from_secs(num("--seconds", 3600));
    let mut stats = Stats::default();
    match args[1].as_str() {
        "one" => {
            let s = num("--traceseed", 1);
            begin(s);
            let (t, suspect) = match arg(&args, "--plan") {
                Some(p) => plan(serde_json::from_str::<Vec<Value>>(&p).unwrap().as_slice(), s, &mut stats),
                None if args.contains(&"--paging".into()) => paging::program(s, &mut stats),
                None => program(s, &mut stats),
            };
            for e in t["ev"].as_array().unwrap() {
                println!("{e}");
            }
            println!("suspect {suspect}");
        }
        "files" | "paging" => {
            let (count, sample) = (num("--count", 1000), num("--sample", 100));
            let mut suspects = BufWriter::new(File::create(format!("{out}/suspects.ndjson")).unwrap());
            let mut samples = BufWriter::new(File::create(format!("{out}/samples.ndjson")).unwrap());
            let plans: Option<Vec<Value>> = arg(&args, "--plans").map(|p| {
                std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
            });
            let count = plans.as_ref().map(|p| p.len() as u64).unwrap_or(count);
            stats.planned = if plans.is_some() { count as usize } else { 0 };
            let every = (count / sample.max(1)).max(1);
            let mut kept = 0;
            for i in 0..count {
                if Instant::now() > deadline {
                    break;
                }
                let s = Rng(seed.wrapping_mul(1 << 32).wrapping_add(i)).next();
                begin(s);
                // in an order that depends on the seed, in case there is not time for all of them
                let (t, suspect) = match &plans {
                    Some(p) => plan(p[(i as usize * 7919 + seed as usize) % p.len()].as_array().unwrap(), s, &mut stats),
                    None if args[1] == "paging" => paging::program(s, &mut stats),
                    None => program(s, &mut stats),
                };
                if suspect {
                    stats.suspects += 1;
                    if stats.suspects <= 50 {
                        writeln!(suspects, "{t}").unwrap();
                    }
                } else if i % every == 0 && kept < sample {
                    kept += 1;
                    writeln!(samples, "{t}").unwrap();
                }
            }
            let s = json!({"traces": stats.traces, "planned": stats.planned, "events": stats.events, "views": stats.views, "faults": stats.faults, "suspects": stats.suspects});
            std::fs::write(format!("{out}/stats.json"), s.to_string()).unwrap();
        }
        _ => std::process::exit(2),
    }
}
