//! Drives blob stores and records what they did: write, read, sync, reopen; crashes of the process before every
//! modification of the file, losses of power with arbitrary mixtures of unsynced modifications, failing file
//! operations. The events are those of the specification TraceStore.
use crate::sys;
use crate::util::*;
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs::{File, OpenOptions};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;

pub const SLOTS: usize = 3;
const NOT: i64 = -1;
const FOREIGN: i64 = -2;

#[derive(Clone, Debug)]
pub struct Kind {
    pub store: &'static str, // paged, dynpaged, mem, dynmem
    pub ps: u64,
    pub crash: bool,
    pub power: bool,
    pub fault: bool,
    pub short: bool,
    /// the file starts as the writing of so many bytes of empty blobs would have left it; ids count from there
    pub base: u64,
}
impl Kind {
    fn file(&self) -> bool {
        self.ps > 0
    }
}

#[derive(Clone)]
enum Store {
    Paged(PagedFileStore),
    Mem(MemStore),
    Dyn(DynBlobStore, Option<PagedFileStore>),
}
impl Store {
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        match self {
            Store::Paged(x) => x.read(id),
            Store::Mem(x) => x.read(id),
            Store::Dyn(x, _) => x.read(id),
        }
    }
    fn write(&self, d: &[u8]) -> anyhow::Result<Vec<u8>> {
        match self {
            Store::Paged(x) => x.write(d),
            Store::Mem(x) => x.write(d),
            Store::Dyn(x, _) => x.write(d),
        }
    }
    fn sync(&self) -> anyhow::Result<()> {
        match self {
            Store::Paged(x) => x.sync(),
            Store::Mem(x) => x.sync(),
            Store::Dyn(x, _) => x.sync(),
        }
    }
    fn last(&self, base: u64) -> Option<i64> {
        let p = match self {
            Store::Paged(x) => x,
            Store::Dyn(_, Some(x)) => x,
            _ => return None,
        };
        Some(p.last_id().map(|x| num(&x, base)).unwrap_or(0))
    }
}
/// ids of eight bytes as numbers; too large ones are cut off, and what is below the base is some number that is no id
fn num(id: &[u8], base: u64) -> i64 {
    let x = u64::from_be_bytes(id.try_into().unwrap_or([0xff; 8]));
    if x == 0 || x > base { (x.max(base) - base).min(i32::MAX as u64) as i64 } else { 1 }
}
/// makes a file as it is when `base` bytes of empty blobs and one more were written
pub fn high(f: &mut File, base: u64) -> std::io::Result<()> {
    use std::io::{Seek, SeekFrom, Write};
    f.set_len(4096 + base + 4)?;
    f.seek(SeekFrom::Start(16))?;
    f.write_all(&(base + 4).to_be_bytes())
}

/// what the specification knows, to screen executions
#[derive(Clone, Default)]
struct Contract {
    blobs: BTreeMap<i64, i64>,
    last: i64,
    durable: BTreeSet<i64>,
    maybe: BTreeSet<i64>,
    held: [i64; SLOTS],
}

#[derive(Clone)]
pub struct View {
    kind: char,
    st: &'static str,
    last: i64,
    reads: Vec<(i64, i64)>,
    probes: Vec<(&'static str, i64, i64)>,
    after: Vec<(i64, i64)>,
}
impl View {
    fn json(&self) -> String {
        let ps = |l: &[(i64, i64)]| jlist(l.iter().map(|(a, b)| format!("[{a},{b}]")));
        format!(
            "{{\"k\":\"{}\",\"st\":\"{}\",\"last\":{},\"reads\":{},\"probes\":{},\"after\":{}}}",
            self.kind,
            self.st,
            self.last,
            ps(&self.reads),
            jlist(self.probes.iter().map(|(s, i, t)| format!("[\"{s}\",{i},{t}]"))),
            ps(&self.after)
        )
    }
    fn ok(&self, c: &Contract, tok: Option<i64>) -> bool {
        let claimed: BTreeMap<i64, i64> =
            if self.kind == 'p' { c.blobs.iter().filter(|x| c.durable.contains(x.0)).map(|x| (*x.0, *x.1)).collect() } else { c.blobs.clone() };
        let get = |l: &[(i64, i64)], id: i64| l.iter().find(|x| x.0 == id).map(|x| x.1).unwrap_or(NOT);
        let mut claimed = claimed;
        if self.st != "ok" {
            return false;
        }
        if self.kind == 'c' && self.last != c.last {
            if c.blobs.contains_key(&self.last) {
                return false;
            }
            let t = get(&self.reads, self.last);
            if !(c.maybe.contains(&t) || tok == Some(t)) {
                return false;
            }
            claimed.insert(self.last, t);
        }
        for (id, t) in &claimed {
            if get(&self.reads, *id) != *t {
                return false;
            }
        }
        for (s, id, t) in &self.probes {
            if *s != "ok" || claimed.get(id).map(|x| x != t).unwrap_or(false) {
                return false;
            }
            claimed.insert(*id, *t);
        }
        claimed.iter().all(|(id, t)| get(&self.after, *id) == *t)
    }
}

pub struct Run {
    pub kind: Kind,
    dir: Scratch,
    nfile: usize,
    path: PathBuf,
    store: Option<Store>,
    others: Vec<Store>,
    contents: Vec<Vec<u8>>,
    tokens: HashMap<Vec<u8>, i64>,
    held: [Option<Blob<'static>>; SLOTS],
    c: Contract,
    rng: Rng,
    pub events: Vec<String>,
    pub suspect: bool,
    pub faults: usize,
    pub views: usize,
    since: Vec<Vec<u8>>,
    /// ids as predicted by the model of the file layout
    pub drift: usize,
    pub model_pos: Option<u64>,
    /// descriptor the store was opened with
    opened: i32,
}

fn st_of<T>(r: &std::thread::Result<anyhow::Result<T>>) -> &'static str {
    match r {
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    }
}

impl Run {
    pub fn new(kind: Kind, seed: u64) -> Run {
        let dir = Scratch::new("fs");
        let path = dir.0.join("f0");
        let mut tokens = HashMap::new();
        tokens.insert(vec![], 0);
        let mut r = Run {
            kind,
            dir,
            nfile: 0,
            path,
            store: None,
            others: vec![],
            contents: vec![vec![]],
            tokens,
            held: [None, None, None],
            c: Contract { held: [-3; SLOTS], ..Default::default() },
            rng: Rng::new(seed),
            events: vec![],
            suspect: false,
            faults: 0,
            views: 0,
            since: vec![],
            drift: 0,
            model_pos: Some(0),
            opened: -1,
        };
        r.reset_watch();
        r.since = vec![vec![]];
        if r.kind.base > 0 {
            match high(&mut Self::open_file(&r.path), r.kind.base) {
                Ok(()) => {
                    r.c.blobs.insert(4, 0);
                    r.c.last = 4;
                    r.model_pos = Some(4);
                    r.event("{\"op\":\"write\",\"st\":\"ok\",\"fault\":false,\"size\":\"fits\",\"tok\":0,\"id\":4,\"idlen\":8,\"n\":0}".into());
                }
                Err(_) => {
                    let _ = std::fs::remove_file(&r.path);
                    r.kind.base = 0;
                }
            }
        }
        if !r.kind.file() {
            let m = MemStore::default();
            r.store = Some(if r.kind.store == "mem" { Store::Mem(m) } else { Store::Dyn(Arc::new(m), None) });
        }
        r
    }
    fn reset_watch(&self) {
        sys::watch(-1);
        sys::with(|w| *w = sys::Watch::default());
    }
    /// starts watching the file of the store
    fn begin(&mut self, fd: i32, fault: Option<usize>, snapshots: bool) {
        let (short, partial) = (self.kind.short && self.rng.chance(1, 2), self.rng.below(1 + self.kind.ps.min(64) as usize));
        let sticky = self.rng.chance(1, 4);
        let fail_mut = self.rng.chance(1, 2);
        let errno = if self.rng.chance(1, 2) { libc::EIO } else { libc::ENOSPC };
        let since = std::mem::take(&mut self.since);
        sys::with(|w| {
            *w = sys::Watch { since_sync: since, fail_in: fault, fail_mut, partial, sticky, errno, short, snapshots, ..Default::default() }
        });
        sys::watch(fd);
    }
    fn end(&mut self) -> sys::Watch {
        sys::watch(-1);
        let mut w = sys::with(std::mem::take);
        self.since = std::mem::take(&mut w.since_sync);
        self.faults += (w.hit > 0) as usize;
        w
    }
    /// the file as it is now
    fn now(&self) -> Vec<u8> {
        if !(self.kind.crash || self.kind.power) {
            return vec![];
        }
        std::fs::read(&self.path).unwrap_or_default()
    }
    fn content(&mut self, n: usize) -> i64 {
        if n == 0 {
            return 0;
        }
        let t = self.contents.len() as i64;
        let mut d = self.rng.bytes(n);
        match self.rng.below(6) {
            // content that looks like lengths or padding
            0 => d.iter_mut().for_each(|x| *x = 0),
            1 => d.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 4 == 3 { 4 } else { 0 }),
            2 => d.iter_mut().for_each(|x| *x = 0xff),
            _ => {}
        }
        if n >= 3 {
            d[n / 2] = t as u8;
            d[n / 2 + 1] = (t >> 8) as u8;
        }
        if let Some(t) = self.tokens.get(&d) {
            return *t;
        }
        self.tokens.insert(d.clone(), t);
        self.contents.push(d);
        t
    }
    fn tok(&self, b: &[u8]) -> i64 {
        self.tokens.get(b).copied().unwrap_or(FOREIGN)
    }
    fn any(&mut self) -> Store {
        if self.others.len() < 3 && self.rng.chance(1, 4) {
            self.others.push(self.store.clone().unwrap());
        }
        if !self.others.is_empty() && self.rng.chance(1, 2) {
            let i = self.rng.below(self.others.len());
            return self.others[i].clone();
        }
        self.store.clone().unwrap()
    }
    fn open_file(path: &PathBuf) -> File {
        OpenOptions::new().read(true).write(true).create(true).open(path).unwrap()
    }
    fn mk(&self, f: File) -> anyhow::Result<Store> {
        let p = PagedFileStore::new(f, self.kind.ps)?;
        Ok(if self.kind.store == "paged" { Store::Paged(p) } else { Store::Dyn(Arc::new(p.clone()), Some(p)) })
    }
    fn bytes(&self, id: i64) -> [u8; 8] {
        (id as u64 + self.kind.base).to_be_bytes()
    }
    fn get(&self, s: &Store, id: i64) -> i64 {
        match catch_unwind(AssertUnwindSafe(|| s.read(&self.bytes(id)))) {
            Ok(Ok(b)) => self.tok(&b),
            Ok(Err(_)) => NOT,
            Err(_) => -9,
        }
    }
    /// opens a state of the file with the code, reads everything, writes, and reads again
    fn view(&mut self, kind: char, img: &[u8]) -> View {
        self.views += 1;
        let path = self.dir.0.join("v");
        std::fs::write(&path, img).unwrap();
        let mut v = View { kind, st: "ok", last: 0, reads: vec![], probes: vec![], after: vec![] };
        let f = Self::open_file(&path);
        let r = catch_unwind(AssertUnwindSafe(|| self.mk(f)));
        v.st = st_of(&r);
        if let Ok(Ok(s)) = r {
            v.last = s.last(self.kind.base).unwrap();
            let mut ids: Vec<i64> = self.c.blobs.keys().cloned().collect();
            if v.last != 0 && !ids.contains(&v.last) {
                ids.push(v.last);
            }
            for id in &ids {
                let t = self.get(&s, *id);
                v.reads.push((*id, t));
            }
            for _ in 0..1 + self.rng.below(2) {
                let n = self.pick_len();
                let n = n.min(self.kind.ps as usize - 8);
                let t = self.content(n);
                let d = self.contents[t as usize].clone();
                let r = catch_unwind(AssertUnwindSafe(|| s.write(&d)));
                let st = st_of(&r);
                let id = match r {
                    Ok(Ok(id)) => num(&id, self.kind.base),
                    _ => NOT,
                };
                if id != NOT {
                    ids.push(id);
                }
                v.probes.push((st, id, t));
            }
            if self.rng.chance(1, 2) {
                drop(s);
                let r = catch_unwind(AssertUnwindSafe(|| self.mk(Self::open_file(&path))));
                if let Ok(Ok(s)) = r {
                    for id in &ids {
                        let t = self.get(&s, *id);
                        v.after.push((*id, t));
                    }
                }
            } else {
                for id in &ids {
                    let t = self.get(&s, *id);
                    v.after.push((*id, t));
                }
            }
        }
        let _ = std::fs::remove_file(&path);
        v
    }
    /// a state of the disk after a loss of power: any mixture of the states since the last sync
    fn mixture(&mut self, states: &[Vec<u8>]) -> Vec<u8> {
        let n = states.len();
        let pick = |r: &mut Rng, mode: usize| match mode {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        let (mh, ms, md) = (self.rng.below(4), self.rng.below(4), self.rng.below(5));
        let size = states[pick(&mut self.rng, ms)].len();
        let mut img = vec![0u8; size];
        let g = *self.rng.pick(&[512usize, 512, 64, 8, 1]);
        let single = self.rng.below(8);
        let mut at = 0;
        let mut nth = 0;
        while at < size {
            // a sector of the header is written as a whole
            let step = if at < 4096 { 512 } else { g };
            let end = (at + step).min(size);
            let s = if at < 4096 {
                pick(&mut self.rng, mh)
            } else {
                match md {
                    // only one piece has been written, or has not
                    3 => if nth == single { n - 1 } else { 0 },
                    4 => if nth == single { 0 } else { n - 1 },
                    m => pick(&mut self.rng, m),
                }
            };
            for i in at..end {
                img[i] = states[s].get(i).copied().unwrap_or(0);
            }
            if at >= 4096 {
                nth += 1;
            }
            at = end;
        }
        img
    }
    /// the states an operation went through, as seen after a crash or a loss of power
    fn views(&mut self, w: &sys::Watch, tok: Option<i64>, c: &Contract) -> String {
        if !self.kind.file() || !(self.kind.crash || self.kind.power) {
            return String::new();
        }
        let mut vs = vec![];
        // the contract before the operation
        let after = std::mem::replace(&mut self.c, c.clone());
        if self.kind.crash {
            let mut done: Vec<Vec<u8>> = vec![];
            for img in w.before.iter() {
                if done.contains(img) {
                    continue;
                }
                vs.push(self.view('c', img));
                done.push(img.clone());
                if done.len() >= 8 {
                    break;
                }
            }
        }
        if self.kind.power {
            // what was the state of the disk before the operation or in the middle of it
            let states = if w.syncs == 0 { self.since.clone() } else { vec![] };
            if !states.is_empty() {
                for _ in 0..3 {
                    let img = self.mixture(&states);
                    vs.push(self.view('p', &img));
                }
            }
        }
        for v in &vs {
            if !v.ok(&self.c, tok) {
                self.suspect = true;
            }
        }
        self.c = after;
        format!(",\"views\":{}", jlist(vs.iter().map(|v| v.json())))
    }
    fn event(&mut self, e: String) {
        self.events.push(e);
    }
    pub fn pick_len(&mut self) -> usize {
        let ps = if self.kind.file() { self.kind.ps as usize } else { 4096 };
        let max = ps - 8;
        let pos = (self.c.last.max(0) as usize) % ps;
        let rem = ps - pos;
        let n = match self.rng.below(12) {
            0 => 0,
            1 => 1,
            2 => rem.saturating_sub(5),
            3 => rem.saturating_sub(4),
            4 => rem.saturating_sub(3),
            5 => rem.saturating_sub(6 + self.rng.below(8)),
            6 => max,
            7 => max.saturating_sub(1),
            8 => rem + self.rng.below(8),
            _ => self.rng.below(max + 1),
        };
        n.min(max)
    }
    fn predict(&mut self, n: usize) -> Option<i64> {
        let p = self.model_pos?;
        let ps = self.kind.ps;
        let end = p + n as u64 + 4;
        let start = if end / ps != p / ps { (p / ps + 1) * ps } else { p };
        Some((start + n as u64 + 4) as i64)
    }
    pub fn open(&mut self, fault: Option<usize>) {
        self.store = None;
        self.others.clear();
        let f = Self::open_file(&self.path);
        let fd = f.as_raw_fd();
        self.opened = fd;
        let c0 = self.c.clone();
        self.begin(fd, fault, self.kind.crash || self.kind.power);
        let r = catch_unwind(AssertUnwindSafe(|| self.mk(f)));
        let w = self.end();
        let st = st_of(&r);
        let mut last = NOT;
        if let Ok(Ok(s)) = r {
            last = s.last(self.kind.base).unwrap();
            self.store = Some(s);
        }
        let now = self.now();
        self.since_push(now);
        self.suspect |= st == "panic" || (st == "err" && w.hit == 0);
        let found = if last != NOT { self.reopened(last) } else { NOT };
        let views = self.views(&w, None, &c0);
        self.event(format!("{{\"op\":\"open\",\"st\":\"{st}\",\"fault\":{},\"last\":{last},\"found\":{found}{views}}}", w.hit > 0));
    }
    fn since_push(&mut self, img: Vec<u8>) {
        if self.since.last() != Some(&img) {
            self.since.push(img);
        }
    }
    /// what the contract says about reopening; returns the content of the last blob if it is new
    fn reopened(&mut self, last: i64) -> i64 {
        let mut found = NOT;
        if last != self.c.last {
            found = self.get(&self.store.clone().unwrap(), last);
            if self.c.blobs.contains_key(&last) || !self.c.maybe.contains(&found) {
                self.suspect = true;
            }
            self.c.blobs.insert(last, found);
        }
        self.c.last = last;
        self.c.maybe.clear();
        self.model_pos = Some(last as u64);
        found
    }
    pub fn write(&mut self, n: usize, fault: Option<usize>) {
        let t = self.content(n);
        let d = self.contents[t as usize].clone();
        let s = self.any();
        let fd = self.fd();
        let predicted = if self.kind.file() { self.predict(n) } else { None };
        let c0 = self.c.clone();
        self.begin(fd, fault, self.kind.crash || self.kind.power);
        let r = catch_unwind(AssertUnwindSafe(|| s.write(&d)));
        let w = self.end();
        let st = st_of(&r);
        let mut id = NOT;
        let mut idlen = 0;
        if let Ok(Ok(i)) = r {
            idlen = i.len();
            id = num(&i, self.kind.base);
        }
        if self.kind.file() {
            let now = self.now();
            self.since_push(now);
        }
        let size = if !self.kind.file() || n + 8 <= self.kind.ps as usize { "fits" } else if n + 4 <= self.kind.ps as usize { "edge" } else { "big" };
        match st {
            "ok" => {
                self.suspect |= size == "big" || self.c.blobs.get(&id).map(|x| *x != t).unwrap_or(false);
                self.c.blobs.insert(id, t);
                self.c.last = id;
                self.c.maybe.clear();
                if predicted != Some(id) && self.kind.file() && self.model_pos.is_some() {
                    self.drift += 1;
                }
                self.model_pos = Some(id as u64);
            }
            "err" if w.hit > 0 => {
                self.c.maybe.insert(t);
                self.model_pos = None;
            }
            "err" => self.suspect |= size == "fits",
            _ => self.suspect = true,
        }
        let views = if size == "fits" { self.views(&w, Some(t), &c0) } else { String::new() };
        self.event(format!(
            "{{\"op\":\"write\",\"st\":\"{st}\",\"fault\":{},\"size\":\"{size}\",\"tok\":{t},\"id\":{id},\"idlen\":{idlen},\"n\":{n}{views}}}",
            w.hit > 0
        ));
    }
    fn fd(&self) -> i32 {
        // the descriptor of the store's file: the one whose link points to the path
        if !self.kind.file() {
            return -1;
        }
        self.fd_of_path()
    }
    fn fd_of_path(&self) -> i32 {
        use std::os::unix::fs::MetadataExt;
        let Ok(m) = std::fs::metadata(&self.path) else { return -1 };
        for fd in std::iter::once(self.opened).chain(3..1024) {
            let mut st: libc::stat = unsafe { std::mem::zeroed() };
            if unsafe { libc::fstat(fd, &mut st) } == 0 && st.st_ino == m.ino() && st.st_dev == m.dev() {
                return fd;
            }
        }
        -1
    }
    pub fn read(&mut self, id: i64, slot: Option<usize>, fault: Option<usize>) {
        let s = self.any();
        let fd = self.fd();
        self.begin(fd, fault, false);
        let r = catch_unwind(AssertUnwindSafe(|| s.read(&self.bytes(id))));
        let w = self.end();
        let st = st_of(&r);
        let mut tok = NOT;
        if let Ok(Ok(b)) = r {
            tok = self.tok(&b);
            if let Some(i) = slot {
                self.held[i] = Some(b);
                self.c.held[i] = *self.c.blobs.get(&id).unwrap_or(&-4);
            }
        }
        match st {
            "ok" => self.suspect |= self.c.blobs.get(&id) != Some(&tok),
            "err" => self.suspect |= w.hit == 0,
            _ => self.suspect = true,
        }
        let slot = if st == "ok" { slot.map(|x| x as i64 + 1).unwrap_or(0) } else { 0 };
        self.event(format!("{{\"op\":\"read\",\"st\":\"{st}\",\"fault\":{},\"id\":{id},\"tok\":{tok},\"slot\":{slot}}}", w.hit > 0));
    }
    pub fn badread(&mut self) {
        let last = self.c.last as u64 + self.kind.base;
        let id: Vec<u8> = match self.rng.below(8) {
            0 => {
                let n = *self.rng.pick(&[0usize, 1, 4, 7, 9, 10, 12, 16]);
                let mut id = self.rng.bytes(n);
                // perhaps with a part of a real id
                let ids: Vec<i64> = self.c.blobs.keys().cloned().collect();
                if !ids.is_empty() {
                    let real = *self.rng.pick(&ids);
                    let real = self.bytes(real);
                    match self.rng.below(3) {
                        0 if n > 8 => id[..8].copy_from_slice(&real),
                        1 if n > 8 => id[n - 8..].copy_from_slice(&real),
                        0 | 1 => id.copy_from_slice(&real[8 - n..]),
                        _ => {}
                    }
                    if n > 8 && self.rng.chance(1, 2) {
                        let at = if id[..8] == real { 8 } else { 0 };
                        id[at..at + n - 8].iter_mut().for_each(|x| *x = 0);
                    }
                }
                id
            }
            1 => 0u64.to_be_bytes().to_vec(),
            2 => (last + 1).to_be_bytes().to_vec(),
            3 => (last + 4 + self.rng.below(5000) as u64).to_be_bytes().to_vec(),
            4 => (u64::MAX - self.rng.below(5000) as u64).to_be_bytes().to_vec(),
            5 => (1u64 << (31 + self.rng.below(33))).wrapping_add(self.rng.below(100) as u64).to_be_bytes().to_vec(),
            _ if self.kind.base > 0 => (last - self.rng.below(self.c.last as usize + 4) as u64).to_be_bytes().to_vec(),
            _ => (self.rng.below(last as usize + 1) as u64).to_be_bytes().to_vec(),
        };
        let n = if id.len() == 8 { num(&id, self.kind.base) } else { 0 };
        if id.len() == 8 && self.c.blobs.contains_key(&n) {
            return;
        }
        let s = self.any();
        let r = catch_unwind(AssertUnwindSafe(|| s.read(&id)));
        let st = st_of(&r);
        self.suspect |= st == "panic" || (st == "ok" && (id.len() != 8 || n == 0 || n > self.c.last));
        self.event(format!("{{\"op\":\"badread\",\"st\":\"{st}\",\"idlen\":{},\"id\":{n}}}", id.len()));
    }
    /// opens a file that is no store, or with a page size that there is not
    pub fn tryopen(&mut self) {
        let path = self.dir.0.join("t");
        let n = match self.rng.below(4) {
            0 => 0,
            1 => 4096,
            2 => 1 + self.rng.below(4095),
            _ => *self.rng.pick(&[1, 8, 16, 23, 24, 25, 4095]),
        };
        // 4096 bytes of header: nothing was written yet
        let img = if n == 4096 { vec![0u8; n] } else { self.rng.bytes(n) };
        std::fs::write(&path, &img).unwrap();
        let ps = match self.rng.below(3) {
            0 => self.kind.ps,
            1 => *self.rng.pick(&[0u64, 1, 4, 7, 9, 12, 20, 63, 65, 1023, 4097, 4100]),
            _ => self.rng.below(200) as u64,
        };
        let f = Self::open_file(&path);
        let r = catch_unwind(AssertUnwindSafe(|| PagedFileStore::new(f, ps)));
        let st = st_of(&r);
        drop(r);
        let same = std::fs::read(&path).unwrap() == img;
        let _ = std::fs::remove_file(&path);
        let sound = ps > 0 && ps % 8 == 0 && (n == 0 || n >= 4096);
        self.suspect |= if sound { st != "ok" } else { st != "err" || !same };
        self.event(format!("{{\"op\":\"tryopen\",\"st\":\"{st}\",\"ps\":{ps},\"len\":{n},\"same\":{same}}}"));
    }
    pub fn sync(&mut self, fault: Option<usize>) {
        let s = self.any();
        let fd = self.fd();
        let c0 = self.c.clone();
        let snaps = self.kind.crash || self.kind.power;
        // what a sync that does not sync would leave behind
        self.begin(fd, fault, snaps);
        let r = catch_unwind(AssertUnwindSafe(|| s.sync()));
        let w = self.end();
        let st = st_of(&r);
        match st {
            "ok" => self.c.durable = self.c.blobs.keys().cloned().collect(),
            "err" => self.suspect |= w.hit == 0,
            _ => self.suspect = true,
        }
        if self.kind.file() {
            let now = self.now();
            self.since_push(now);
        }
        let mut views = self.views(&w, None, &c0);
        if self.kind.power && st == "ok" {
            // the power goes right after the sync has returned
            views.clear();
            let states = self.since.clone();
            let mut vs = vec![];
            for _ in 0..4 {
                let img = self.mixture(&states);
                let v = self.view('p', &img);
                self.suspect |= !v.ok(&self.c, None);
                vs.push(v);
            }
            self.event(format!("{{\"op\":\"sync\",\"st\":\"{st}\",\"fault\":{}}}", w.hit > 0));
            self.event(format!("{{\"op\":\"look\",\"st\":\"ok\",\"views\":{}}}", jlist(vs.iter().map(|v| v.json()))));
            return;
        }
        self.event(format!("{{\"op\":\"sync\",\"st\":\"{st}\",\"fault\":{}{views}}}", w.hit > 0));
    }
    pub fn last(&mut self) {
        let Some(l) = self.store.clone().unwrap().last(self.kind.base) else { return };
        self.suspect |= l != self.c.last && (self.c.maybe.is_empty() || self.c.blobs.contains_key(&l));
        self.event(format!("{{\"op\":\"last\",\"st\":\"ok\",\"id\":{l}}}"));
    }
    pub fn held(&mut self, i: usize) {
        let Some(b) = &self.held[i] else { return };
        let t = self.tok(b);
        self.suspect |= t != self.c.held[i];
        self.event(format!("{{\"op\":\"held\",\"st\":\"ok\",\"slot\":{},\"tok\":{t}}}", i + 1));
    }
    /// the process ends while a blob of n bytes is written, or the power goes
    pub fn crash(&mut self, n: Option<usize>, power: bool, fault: Option<usize>) {
        let c0 = self.c.clone();
        let mut tok = NOT;
        let mut states = vec![self.now()];
        if let Some(n) = n {
            let t = self.content(n);
            tok = t;
            let d = self.contents[t as usize].clone();
            let s = self.any();
            let fd = self.fd();
            self.begin(fd, fault, true);
            let _ = catch_unwind(AssertUnwindSafe(|| s.write(&d)));
            let w = self.end();
            states = w.before.clone();
            states.push(self.now());
        }
        let i = self.rng.below(states.len());
        self.store = None;
        self.others.clear();
        let img = if power {
            // up to the moment i, forget what came later
            let cut = self.since.iter().rposition(|x| *x == states[i]).unwrap_or(self.since.len());
            self.since.truncate(cut);
            self.since_push(states[i].clone());
            let s = self.since.clone();
            self.mixture(&s)
        } else {
            let cut = self.since.iter().rposition(|x| *x == states[i]).unwrap_or(self.since.len());
            self.since.truncate(cut);
            self.since_push(states[i].clone());
            states[i].clone()
        };
        if power {
            self.since = vec![img.clone()];
        }
        self.nfile += 1;
        // held blobs keep the old file mapped
        let _ = std::fs::remove_file(&self.path);
        self.path = self.dir.0.join(format!("f{}", self.nfile));
        std::fs::write(&self.path, &img).unwrap();
        self.c = c0;
        let f = Self::open_file(&self.path);
        let fd = f.as_raw_fd();
        self.opened = fd;
        self.begin(fd, None, true);
        let r = catch_unwind(AssertUnwindSafe(|| self.mk(f)));
        self.end();
        let now = self.now();
        self.since_push(now);
        let st = st_of(&r);
        let mut last = NOT;
        let mut found = NOT;
        if let Ok(Ok(s)) = r {
            last = s.last(self.kind.base).unwrap();
            self.store = Some(s);
        } else {
            self.suspect = true;
        }
        if power {
            let d = self.c.durable.clone();
            self.c.blobs.retain(|id, _| d.contains(id));
            self.c.last = last;
            self.c.maybe.clear();
            self.model_pos = Some(last.max(0) as u64);
            self.event(format!("{{\"op\":\"power\",\"st\":\"{st}\",\"last\":{last}}}"));
        } else {
            if tok != NOT {
                self.c.maybe.insert(tok);
            }
            if last != NOT {
                found = self.reopened(last);
            }
            self.event(format!("{{\"op\":\"crash\",\"st\":\"{st}\",\"tok\":{tok},\"last\":{last},\"found\":{found}}}"));
        }
    }
    /// reads everything the specification knows
    pub fn all(&mut self) {
        let ids: Vec<i64> = self.c.blobs.keys().cloned().collect();
        for id in ids {
            self.read(id, None, None);
        }
        for i in 0..SLOTS {
            self.held(i);
        }
    }
    pub fn ready(&self) -> bool {
        self.store.is_some()
    }
    /// one random operation
    pub fn step(&mut self) {
        let k = self.kind.clone();
        if !self.ready() {
            let f = if k.fault && self.rng.chance(1, 4) { Some(self.rng.below(6)) } else { None };
            return self.open(f);
        }
        let fault = if k.fault && self.rng.chance(1, 3) { Some(self.rng.below(14)) } else { None };
        match self.rng.below(20) {
            0..=7 => {
                let mut n = self.pick_len();
                if self.rng.chance(1, 12) {
                    n = if k.file() { k.ps as usize - 8 + self.rng.below(12) } else { 100_000 };
                }
                self.write(n, fault)
            }
            8..=11 => {
                let ids: Vec<i64> = self.c.blobs.keys().cloned().collect();
                if !ids.is_empty() {
                    let id = if self.rng.chance(1, 3) { *ids.last().unwrap() } else { *self.rng.pick(&ids) };
                    let slot = if self.rng.chance(1, 2) { Some(self.rng.below(SLOTS)) } else { None };
                    self.read(id, slot, fault.map(|x| x / 3))
                }
            }
            12 => {
                if k.file() && self.rng.chance(1, 3) {
                    return self.tryopen();
                }
                self.badread()
            }
            13 => self.last(),
            14 => {
                let i = self.rng.below(SLOTS);
                self.held(i)
            }
            15 | 16 => {
                if k.power || self.rng.chance(1, 3) {
                    self.sync(fault.map(|_| 0))
                }
            }
            17 => {
                if k.file() {
                    self.store = None;
                    self.others.clear();
                    if self.rng.chance(1, 2) {
                        for i in 0..SLOTS {
                            self.held(i);
                        }
                    }
                    self.open(fault.map(|x| x / 2))
                }
            }
            18 => {
                if k.crash {
                    let n = if self.rng.chance(3, 4) { Some(self.pick_len()) } else { None };
                    self.crash(n, false, fault)
                }
            }
            _ => {
                if k.power {
                    let n = if self.rng.chance(1, 2) { Some(self.pick_len()) } else { None };
                    self.crash(n, true, fault)
                }
            }
        }
    }
}

pub fn kind_for(profile: &str, rng: &mut Rng) -> Kind {
    let ps = *rng.pick(&[8u64, 16, 16, 24, 24, 32, 48, 64, 64, 128, 512, 1024, 1032, 2048, 4096, 8192]);
    let mut k = Kind { store: if rng.chance(1, 4) { "dynpaged" } else { "paged" }, ps, crash: false, power: false, fault: false, short: false, base: 0 };
    match profile {
        "C12" => {
            k.ps = *rng.pick(&[k.ps, k.ps, k.ps, k.ps, k.ps, 16384, 65536, 1 << 20]);
            k.short = rng.chance(1, 4);
            if rng.chance(1, 6) {
                // where numbers of 31 and 32 bits end
                let at = *rng.pick(&[1u64 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 40]) - rng.below(3 * k.ps as usize) as u64;
                k.base = at / k.ps * k.ps;
            }
            if rng.chance(1, 4) {
                k.store = if rng.chance(1, 2) { "mem" } else { "dynmem" };
                (k.ps, k.base) = (0, 0);
            }
        }
        "C13" => {
            k.crash = true;
            k.fault = rng.chance(1, 2);
            k.short = rng.chance(1, 4);
        }
        "C14" => {
            k.power = true;
            k.crash = rng.chance(1, 4);
            k.fault = rng.chance(1, 4);
        }
        x => panic!("profile {x}"),
    }
    k
}

pub struct Done {
    pub line: String,
    pub suspect: bool,
    pub faults: usize,
    pub views: usize,
    pub drift: usize,
    pub events: usize,
}

fn finish(mut r: Run, profile: &str, seed: u64) -> Done {
    if !r.suspect && r.ready() {
        r.all();
    }
    Done {
        line: format!(
            "{{\"profile\":\"{profile}\",\"seed\":\"{seed}\",\"store\":\"{}\",\"ps\":{},\"base\":\"{}\",\"ev\":{}}}",
            r.kind.store,
            r.kind.ps,
            r.kind.base,
            jlist(r.events.iter().cloned())
        ),
        suspect: r.suspect,
        faults: r.faults,
        views: r.views,
        drift: r.drift,
        events: r.events.len(),
    }
}

/// one generated execution
pub fn generate(profile: &str, seed: u64, tell: &mut dyn FnMut(&str)) -> Done {
    let mut rng = Rng::new(seed);
    let kind = kind_for(profile, &mut rng);
    let n = 4 + rng.below(22);
    let mut r = Run::new(kind, rng.next());
    let mut told = 0;
    for _ in 0..n {
        tell(&format!("{{\"profile\":\"{profile}\",\"seed\":\"{seed}\",\"ps\":{},\"store\":\"{}\"}}", r.kind.ps, r.kind.store));
        r.step();
        for e in &r.events[told..] {
            tell(e);
        }
        told = r.events.len();
        if r.suspect {
            break;
        }
    }
    finish(r, profile, seed)
}

/// a blob whose length does not fit into 32 bits, in a store with pages of 8 GB: written or rejected, but not cut off
pub fn giant() -> String {
    const PS: u64 = 1 << 33;
    const NAME: i64 = 1 << 30;
    let n = (1usize << 32) + 1;
    let big: &mut [u8] = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            return String::new();
        }
        std::slice::from_raw_parts_mut(p as *mut u8, n)
    };
    big[0] = 1;
    big[n - 1] = 2;
    let small: [&[u8]; 2] = [b"before", b"after it"];
    let dir = Scratch::new("fs");
    let path = dir.0.join("f");
    let mut ev = vec![];
    let tok = |b: &[u8]| if b == small[0] { 1 } else if b == small[1] { 2 } else if b == &*big { 3 } else { FOREIGN };
    let mut ids: Vec<(i64, Vec<u8>)> = vec![];
    let mut open = |ev: &mut Vec<String>, ids: &[(i64, Vec<u8>)]| {
        let r = catch_unwind(AssertUnwindSafe(|| PagedFileStore::new(Run::open_file(&path), PS)));
        let st = st_of(&r);
        let s = r.ok().and_then(|x| x.ok());
        let last = s.as_ref().map(|s| s.last_id().map(|i| ids.iter().find(|x| x.1 == i).map(|x| x.0).unwrap_or(FOREIGN)).unwrap_or(0)).unwrap_or(NOT);
        ev.push(format!("{{\"op\":\"open\",\"st\":\"{st}\",\"fault\":false,\"last\":{last},\"found\":{NOT}}}"));
        s
    };
    let Some(s) = open(&mut ev, &ids) else { return format!("{{\"ev\":{}}}", jlist(ev.into_iter())) };
    for (t, d) in [(1, small[0]), (3, &*big), (2, small[1])] {
        let r = catch_unwind(AssertUnwindSafe(|| s.write(d)));
        let st = st_of(&r);
        let (mut id, mut len) = (NOT, 0);
        if let Ok(Ok(i)) = r {
            id = NAME + t;
            len = i.len();
            ids.push((id, i));
        }
        let size = if t == 3 { "edge" } else { "fits" };
        ev.push(format!("{{\"op\":\"write\",\"st\":\"{st}\",\"fault\":false,\"size\":\"{size}\",\"tok\":{t},\"id\":{id},\"idlen\":{len},\"n\":0}}"));
    }
    drop(s);
    if let Some(s) = open(&mut ev, &ids) {
        for (id, i) in &ids {
            let r = catch_unwind(AssertUnwindSafe(|| s.read(i)));
            let st = st_of(&r);
            let t = r.ok().and_then(|x| x.ok()).map(|b| tok(&b)).unwrap_or(NOT);
            ev.push(format!("{{\"op\":\"read\",\"st\":\"{st}\",\"fault\":false,\"id\":{id},\"tok\":{t},\"slot\":0}}"));
        }
    }
    format!("{{\"ev\":{}}}", jlist(ev.into_iter()))
}

/// a plan of the specification: lengths to write, -1 to reopen; with the ids that the model of the file predicts
pub fn plan(profile: &str, ps: u64, ops: &[i64], ids: &[i64], seed: u64) -> Done {
    let mut rng = Rng::new(seed);
    let mut k = kind_for(profile, &mut rng);
    k.ps = ps;
    k.store = "paged";
    k.fault = false;
    k.base = 0;
    let mut r = Run::new(k, rng.next());
    r.open(None);
    let mut drift = 0;
    for (o, id) in ops.iter().zip(ids) {
        if *o < 0 {
            r.open(None);
        } else {
            r.write(*o as usize, None);
            drift += (*id >= 0 && r.c.last != *id) as usize;
            if r.kind.power && r.rng.chance(1, 3) {
                r.sync(None);
            }
        }
        if r.suspect {
            break;
        }
    }
    let mut d = finish(r, profile, seed);
    d.drift = drift;
    d
}

/// many generated executions, or all plans of a file, in parallel
pub fn many(profile: &str, seed: u64, count: u64, seconds: u64, sample: u64, plans: Option<(String, u64)>, out: &str) {
    use std::io::Write;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
    use std::sync::Mutex;
    let threads = 8;
    let plans: Option<(Vec<(Vec<i64>, Vec<i64>)>, u64)> = plans.map(|(f, ps)| {
        let l = std::fs::read_to_string(f).unwrap();
        let ints = |x: &serde_json::Value| x.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<i64>>();
        (
            l.lines()
                .map(|l| {
                    let j: serde_json::Value = serde_json::from_str(l).unwrap();
                    (ints(&j["ops"]), ints(&j["ids"]))
                })
                .collect(),
            ps,
        )
    });
    let count = plans.as_ref().map(|p| p.0.len() as u64).unwrap_or(count);
    let every = (count / sample.max(1)).max(1);
    let w = Arc::new(crate::run::Watch::new(threads));
    w.clone().guard(out.to_string(), 30);
    let status: Vec<File> = (0..threads).map(|i| File::create(format!("{out}/current-{i}")).unwrap()).collect();
    let next = AtomicU64::new(0);
    let (events, faults, views, drift, runs, nsuspects) =
        (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let samples = Mutex::new(vec![]);
    let suspects = Mutex::new(vec![]);
    let start = std::time::Instant::now();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (w, status, next, plans) = (&w, &status, &next, &plans);
            let (events, faults, views, drift, runs, nsuspects, samples, suspects) =
                (&events, &faults, &views, &drift, &runs, &nsuspects, &samples, &suspects);
            sc.spawn(move || {
                use std::os::unix::fs::FileExt;
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= count || start.elapsed().as_secs() >= seconds || nsuspects.load(SeqCst) >= 20 {
                        break;
                    }
                    let s = crate::run::trace_seed(seed, i);
                    w.enter(t, s);
                    let _ = status[t].write_at(&s.to_le_bytes(), 0);
                    let _ = status[t].write_at(&i.to_le_bytes(), 8);
                    let d = match plans {
                        Some((l, ps)) => {
                            let (ops, ids) = &l[i as usize];
                            plan(profile, *ps, ops, ids, s)
                        }
                        None => generate(profile, s, &mut |_| {}),
                    };
                    w.leave(t);
                    runs.fetch_add(1, SeqCst);
                    events.fetch_add(d.events, SeqCst);
                    faults.fetch_add(d.faults, SeqCst);
                    views.fetch_add(d.views, SeqCst);
                    drift.fetch_add(d.drift, SeqCst);
                    if d.suspect {
                        nsuspects.fetch_add(1, SeqCst);
                        suspects.lock().unwrap().push((d.line.len(), d.line));
                    } else if (plans.is_none() && i < sample) || (plans.is_some() && i % every == seed % every) {
                        samples.lock().unwrap().push((i as usize, d.line));
                    }
                }
                let _ = status[t].write_at(&0u64.to_le_bytes(), 0);
            });
        }
    });
    for (name, l) in [("samples", samples), ("suspects", suspects)] {
        let mut l = l.into_inner().unwrap();
        l.sort();
        let mut f = std::io::BufWriter::new(File::create(format!("{out}/{name}.ndjson")).unwrap());
        for (_, x) in l.into_iter() {
            writeln!(f, "{x}").unwrap();
        }
    }
    std::fs::write(
        format!("{out}/stats.json"),
        format!(
            "{{\"traces\":{},\"planned\":{},\"events\":{},\"faults\":{},\"views\":{},\"id_drift\":{},\"suspects\":{}}}",
            runs.into_inner(),
            count,
            events.into_inner(),
            faults.into_inner(),
            views.into_inner(),
            drift.into_inner(),
            nsuspects.into_inner()
        ),
    )
    .unwrap();
}
