//! Stand-in for the parts of the browser the file system uses: the cache storage, kept in memory, with a log of the
//! changes made to it and a budget of calls after which every call fails
use js_sys::{ArrayBuffer, Promise};
use std::{collections::BTreeMap, sync::{Arc, Mutex}};
use wasm_bindgen::{JsValue, V};

/// one cache: urls and contents, in the order of their insertion
pub type Content = Vec<(String, Arc<Vec<u8>>)>;
/// all caches of the origin, with a number that tells a cache from another one that had the name before
pub type Caches = BTreeMap<String, (u64, Content)>;

#[derive(Default)]
pub struct Host {
    pub caches: Caches,
    /// caches that were deleted: they live on for those who have them open
    pub deleted: BTreeMap<u64, Content>,
    pub opened: u64,
    /// the state after every change since the log was last taken
    pub log: Vec<Caches>,
    /// number of calls that still succeed
    pub budget: Option<usize>,
    /// a call failed because the budget was used up
    pub failed: bool,
    /// only this many calls fail, then the host works again
    pub fail: usize,
    pub calls: usize,
}
pub static HOST: Mutex<Host> = Mutex::new(Host {
    caches: BTreeMap::new(),
    deleted: BTreeMap::new(),
    opened: 0,
    log: Vec::new(),
    budget: None,
    failed: false,
    fail: 0,
    calls: 0,
});

pub const ORIGIN: &str = "http://localhost:8080/";

fn resolve(r: &str) -> Result<String, JsValue> {
    let base = url::Url::parse(ORIGIN).unwrap();
    match base.join(r) {
        Ok(mut u) => {
            u.set_fragment(None);
            Ok(u.into())
        }
        Err(_) => Err("TypeError".into()),
    }
}
fn no_search(u: &str) -> String {
    let mut u = url::Url::parse(u).unwrap();
    u.set_query(None);
    u.into()
}

/// runs one call to the host; `f` says if it changed anything
fn call(f: impl FnOnce(&mut Host) -> Result<(JsValue, bool), JsValue>) -> Promise {
    let mut host = HOST.lock().unwrap_or_else(|e| e.into_inner());
    host.calls += 1;
    if let Some(b) = host.budget {
        if b == 0 {
            host.failed = true;
            if host.fail > 0 {
                host.fail -= 1;
                if host.fail == 0 {
                    host.budget = None;
                }
            }
            return Promise(Err("QuotaExceededError".into()));
        }
        host.budget = Some(b - 1);
    }
    match f(&mut host) {
        Ok((v, changed)) => {
            if changed {
                let c = host.caches.clone();
                host.log.push(c);
            }
            Promise(Ok(v))
        }
        Err(e) => Promise(Err(e)),
    }
}

#[derive(Debug, Clone)]
pub struct Cache(String, u64);
impl From<JsValue> for Cache {
    fn from(v: JsValue) -> Self {
        match v.0 {
            V::Cache(n, i) => Cache(n, i),
            v => panic!("not a cache: {v:?}"),
        }
    }
}
impl Cache {
    /// the content, and if it can still be found
    fn content<'a>(&self, h: &'a mut Host) -> (&'a mut Content, bool) {
        match h.caches.get_mut(&self.0) {
            Some((i, c)) if *i == self.1 => (c, true),
            _ => (h.deleted.entry(self.1).or_default(), false),
        }
    }
    fn remove(&self, r: &str, ignore_search: bool) -> Promise {
        call(|h| {
            let r = resolve(r)?;
            let (c, visible) = self.content(h);
            let n = c.len();
            c.retain(|(k, _)| if ignore_search { no_search(k) != no_search(&r) } else { *k != r });
            let hit = c.len() < n;
            Ok((hit.into(), hit && visible))
        })
    }
    pub fn delete_with_str(&self, r: &str) -> Promise {
        self.remove(r, false)
    }
    pub fn delete_with_str_and_options(&self, r: &str, o: &CacheQueryOptions) -> Promise {
        self.remove(r, o.search)
    }
    pub fn put_with_str(&self, r: &str, v: &Response) -> Promise {
        let V::Bytes(data) = v.0 .0.clone() else { return Promise(Err("TypeError".into())) };
        call(|h| {
            let r = resolve(r)?;
            let (c, visible) = self.content(h);
            c.retain(|(k, _)| *k != r);
            c.push((r, data));
            Ok((JsValue::UNDEFINED, visible))
        })
    }
    pub fn match_with_str(&self, r: &str) -> Promise {
        call(|h| {
            let r = resolve(r)?;
            let v = self.content(h).0.iter().find(|(k, _)| *k == r);
            Ok((v.map(|(_, d)| JsValue(V::Bytes(d.clone()))).unwrap_or(JsValue::UNDEFINED), false))
        })
    }
    pub fn keys(&self) -> Promise {
        call(|h| {
            let v = self.content(h).0.iter().map(|(k, _)| JsValue(V::Request(k.clone()))).collect();
            Ok((JsValue(V::Array(v)), false))
        })
    }
}
#[derive(Debug, Clone)]
pub struct CacheStorage;
impl CacheStorage {
    pub fn open(&self, name: &str) -> Promise {
        call(|h| {
            let new = !h.caches.contains_key(name);
            if new {
                h.opened += 1;
                h.caches.insert(name.into(), (h.opened, vec![]));
            }
            Ok((JsValue(V::Cache(name.into(), h.caches[name].0)), new))
        })
    }
    pub fn delete(&self, name: &str) -> Promise {
        call(|h| {
            let old = h.caches.remove(name);
            let hit = old.is_some();
            h.deleted.extend(old);
            Ok((hit.into(), hit))
        })
    }
    pub fn has(&self, name: &str) -> Promise {
        call(|h| Ok((h.caches.contains_key(name).into(), false)))
    }
}
#[derive(Debug, Clone, Default)]
pub struct CacheQueryOptions {
    search: bool,
}
impl CacheQueryOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn ignore_method(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn ignore_search(&mut self, v: bool) -> &mut Self {
        self.search = v;
        self
    }
}
#[derive(Debug, Clone)]
pub struct Response(JsValue);
impl From<JsValue> for Response {
    fn from(v: JsValue) -> Self {
        Response(v)
    }
}
impl Response {
    pub fn new_with_opt_u8_array(d: Option<&mut [u8]>) -> Result<Response, JsValue> {
        Ok(Response(JsValue(V::Bytes(Arc::new(d.map(|d| d.to_vec()).unwrap_or_default())))))
    }
    fn bytes(&self) -> Result<Promise, JsValue> {
        match &self.0 .0 {
            V::Bytes(_) => Ok(call(|_| Ok((self.0.clone(), false)))),
            _ => Err("TypeError".into()),
        }
    }
    pub fn blob(&self) -> Result<Promise, JsValue> {
        self.bytes()
    }
    pub fn array_buffer(&self) -> Result<Promise, JsValue> {
        self.bytes()
    }
}
#[derive(Debug, Clone)]
pub struct Blob(JsValue);
impl From<JsValue> for Blob {
    fn from(v: JsValue) -> Self {
        Blob(v)
    }
}
impl Blob {
    fn data(&self) -> Arc<Vec<u8>> {
        match &self.0 .0 {
            V::Bytes(b) => b.clone(),
            v => panic!("not a blob: {v:?}"),
        }
    }
    pub fn size(&self) -> f64 {
        self.data().len() as f64
    }
    /// negative bounds count from the end, all bounds are clamped
    pub fn slice_with_i32_and_i32(&self, a: i32, b: i32) -> Result<Blob, JsValue> {
        let d = self.data();
        let at = |i: i32| if i < 0 { d.len().saturating_sub(i.unsigned_abs() as usize) } else { (i as usize).min(d.len()) };
        let (a, b) = (at(a), at(b));
        Ok(Blob(JsValue(V::Bytes(Arc::new(d[a..b.max(a)].to_vec())))))
    }
    pub fn array_buffer(&self) -> Promise {
        call(|_| Ok((self.0.clone(), false)))
    }
}
#[allow(unused)]
fn _unused(_: ArrayBuffer) {}
#[derive(Debug, Clone)]
pub struct Request(String);
impl From<JsValue> for Request {
    fn from(v: JsValue) -> Self {
        match v.0 {
            V::Request(u) => Request(u),
            v => panic!("not a request: {v:?}"),
        }
    }
}
impl Request {
    pub fn url(&self) -> String {
        self.0.clone()
    }
}
#[derive(Debug, Clone)]
pub struct DedicatedWorkerGlobalScope;
impl From<JsValue> for DedicatedWorkerGlobalScope {
    fn from(_: JsValue) -> Self {
        DedicatedWorkerGlobalScope
    }
}
pub struct WorkerLocation;
impl WorkerLocation {
    pub fn origin(&self) -> String {
        ORIGIN.trim_end_matches('/').into()
    }
}
impl DedicatedWorkerGlobalScope {
    pub fn caches(&self) -> Result<CacheStorage, JsValue> {
        Ok(CacheStorage)
    }
    pub fn location(&self) -> WorkerLocation {
        WorkerLocation
    }
}
