//! The store the harness attaches trees to: counts and records calls, injects faults, and delegates to one of
//! several implementations.
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use crate::util::Scratch;

#[derive(Clone, Debug)]
pub struct TS(pub Arc<Shared>);

#[derive(Default, Debug, Clone)]
pub struct Stat {
    pub reads: Vec<Vec<u8>>,
    pub writes: Vec<(Vec<u8>, Vec<u8>)>,
    /// fail the call when this counts down to zero; further calls as well if `sticky`
    pub fail_in: Option<usize>,
    pub sticky: bool,
    pub hit: usize,
    pub calls: usize,
}

pub struct Shared {
    inner: DynBlobStore,
    pub stat: Mutex<Stat>,
    _dir: Option<Scratch>,
}
impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TS")
    }
}

/// A store with ids of a fixed length, or content addressed ids
#[derive(Debug)]
struct IdStore {
    len: Option<usize>,
    data: Mutex<(u64, HashMap<Vec<u8>, Arc<Vec<u8>>>)>,
}
impl BlobStore for IdStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        match self.data.lock().unwrap().1.get(id) {
            Some(x) => Ok(Blob::from_arc_vec(x.clone())),
            None => anyhow::bail!("no such id"),
        }
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut d = self.data.lock().unwrap();
        let id = match self.len {
            Some(n) => {
                d.0 += 1;
                let c = d.0.to_be_bytes();
                let mut id = vec![0xA5u8; n.saturating_sub(8)];
                id.extend_from_slice(&c[8 - n.min(8)..]);
                id
            }
            None => {
                let mut id = Vec::new();
                for s in 0..4u64 {
                    let mut h = 0xcbf29ce484222325u64 ^ (s.wrapping_mul(0x9E3779B97F4A7C15));
                    for b in data {
                        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                        h ^= h >> 29;
                    }
                    id.extend_from_slice(&h.to_be_bytes());
                }
                id
            }
        };
        d.1.insert(id.clone(), Arc::new(data.to_vec()));
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

pub const KINDS: &[&str] = &["mem", "id2", "id4", "id7", "id8", "id9", "id16", "id33", "id64", "id126", "hash", "page8192", "page65536", "high8192"];

impl TS {
    pub fn new(kind: &str) -> Self {
        let mut dir = None;
        let inner: DynBlobStore = if kind == "mem" {
            Arc::new(MemStore::default())
        } else if kind == "hash" {
            Arc::new(IdStore { len: None, data: Default::default() })
        } else if let Some(n) = kind.strip_prefix("id") {
            Arc::new(IdStore { len: Some(n.parse().unwrap()), data: Default::default() })
        } else if let Some(n) = kind.strip_prefix("page").or(kind.strip_prefix("high")) {
            let d = Scratch::new("st");
            let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(d.0.join("f")).unwrap();
            dir = Some(d);
            if kind.starts_with("high") && crate::filestore::high(&mut file, (1 << 32) - 2 * 8192).is_err() {
                file.set_len(0).unwrap();
            }
            Arc::new(PagedFileStore::new(file, n.parse().unwrap()).unwrap())
        } else {
            panic!("store kind")
        };
        TS(Arc::new(Shared { inner, stat: Default::default(), _dir: dir }))
    }
    /// a store with given blobs; new ids have the given length
    pub fn preloaded(blobs: &[(Vec<u8>, Vec<u8>)], len: usize) -> Self {
        let d = blobs.iter().map(|(id, b)| (id.clone(), Arc::new(b.clone()))).collect();
        Self::wrap(Arc::new(IdStore { len: Some(len), data: Mutex::new((0, d)) }))
    }
    pub fn wrap(inner: DynBlobStore) -> Self {
        TS(Arc::new(Shared { inner, stat: Default::default(), _dir: None }))
    }
    pub fn reset(&self) {
        *self.0.stat.lock().unwrap() = Stat::default();
    }
    pub fn stat(&self) -> Stat {
        self.0.stat.lock().unwrap().clone()
    }
    fn fault(&self) -> anyhow::Result<()> {
        let mut s = self.0.stat.lock().unwrap();
        s.calls += 1;
        if let Some(n) = s.fail_in {
            if n == 0 {
                s.hit += 1;
                if !s.sticky {
                    s.fail_in = None;
                }
                anyhow::bail!("injected store failure");
            }
            s.fail_in = Some(n - 1);
        }
        Ok(())
    }
    /// bypasses recording and faults
    pub fn raw_read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        self.0.inner.read(id)
    }
    pub fn raw_write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.0.inner.write(data)
    }
}

impl BlobStore for TS {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        self.fault()?;
        self.0.stat.lock().unwrap().reads.push(id.to_vec());
        self.0.inner.read(id)
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.fault()?;
        let id = self.0.inner.write(data)?;
        self.0.stat.lock().unwrap().writes.push((id.clone(), data.to_vec()));
        Ok(id)
    }
    fn sync(&self) -> anyhow::Result<()> {
        self.0.inner.sync()
    }
}
