//! One tree on one store, recorded with every call it makes to the store; keys and values are bytes.
use crate::store::TS;
use crate::util::*;
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, TreeNodeRef, Value, ValueRef};
use radixdb::store::Detached;
use radixdb::RadixTree;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R<T> = anyhow::Result<T>;
type Pair = (Vec<u8>, Vec<u8>);

pub fn jb(b: &[u8]) -> String {
    jlist(b.iter().map(|x| x.to_string()))
}
fn jps(ps: &[Pair]) -> String {
    jlist(ps.iter().map(|(k, v)| format!("[{},{}]", jb(k), jb(v))))
}

pub struct Done {
    pub line: String,
    pub events: usize,
    pub ops: BTreeMap<String, usize>,
}

struct Run<'a> {
    store: TS,
    tree: Option<RadixTree<TS>>,
    /// persisted versions
    roots: Vec<(Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>)>,
    /// keys that may be there; only to choose interesting operations
    model: BTreeMap<Vec<u8>, Vec<u8>>,
    ev: Vec<String>,
    ops: BTreeMap<String, usize>,
    tell: &'a mut dyn FnMut(&str, &str),
    dead: bool,
}

impl<'a> Run<'a> {
    /// runs `f`, which returns the result as JSON
    fn event(&mut self, op: &str, args: String, f: impl FnOnce(&mut Run<'a>) -> R<String>) {
        if self.dead {
            return;
        }
        self.store.reset();
        *self.ops.entry(op.to_string()).or_default() += 1;
        (self.tell)("begin", &format!("\"op\":\"{op}\"{args}"));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        let s = self.store.stat();
        let (st, res, msg) = match r {
            Ok(Ok(res)) => ("ok", res, String::new()),
            Ok(Err(e)) => ("err", "\"res\":[]".to_string(), format!("{e:#}")),
            Err(p) => (
                "panic",
                "\"res\":[]".to_string(),
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(),
            ),
        };
        if st != "ok" && op != "badopen" {
            self.dead = true;
        }
        let e = format!(
            "{{\"op\":\"{op}\"{args},\"st\":\"{st}\",{res},\"reads\":{},\"writes\":{}{}}}",
            jlist(s.reads.iter().map(|x| jb(x))),
            jps(&s.writes),
            if msg.is_empty() { String::new() } else { format!(",\"msg\":{}", jstr(&msg)) }
        );
        (self.tell)("end", &e);
        self.ev.push(e);
    }
    fn t(&self) -> &RadixTree<TS> {
        self.tree.as_ref().unwrap()
    }
    fn load(&self, v: &Value<TS>) -> R<Vec<u8>> {
        Ok(v.load(&self.store)?.to_vec())
    }
    fn persist(&mut self) {
        // the id is only known afterwards
        let mut id = vec![];
        self.event("persist", String::new(), |r| {
            let i = r.tree.as_mut().unwrap().try_reattach()?;
            id = i.clone();
            let o = format!("\"id\":{}", jb(&i));
            let m = r.model.clone();
            r.roots.push((i, m));
            Ok(o)
        });
    }
    fn open(&mut self, back: usize) {
        if let Some((id, m)) = self.roots.iter().rev().nth(back).or(self.roots.last()).cloned() {
            self.model = m;
            self.event("open", format!(",\"id\":{}", jb(&id)), |r| {
                r.tree = Some(RadixTree::try_load(r.store.clone(), Some(&id))?);
                Ok("\"res\":[]".into())
            });
        }
    }
    fn list<K: AsRef<[u8]>>(&self, it: impl Iterator<Item = Result<(K, Value<TS>), anyhow::Error>>) -> R<String> {
        let mut ps = vec![];
        for x in it {
            let (k, v) = x?;
            ps.push((k.as_ref().to_vec(), self.load(&v)?));
        }
        Ok(format!("\"res\":{}", jps(&ps)))
    }
    fn read(&mut self, op: &str, k: &[u8], n: usize) {
        let a = match op {
            "iter" => format!(",\"n\":{n}"),
            "get" | "contains" | "hasprefix" | "scan" => format!(",\"k\":{}", jb(k)),
            _ => String::new(),
        };
        self.event(op, a, |r| {
            let t = r.t();
            Ok(match op {
                "get" => match t.try_get(k)? {
                    Some(v) => format!("\"res\":[{}]", jb(&r.load(&v)?)),
                    None => "\"res\":[]".into(),
                },
                "contains" => format!("\"res\":{}", t.try_contains_key(k)?),
                "hasprefix" => format!("\"res\":{}", t.try_has_prefix(k)?),
                "scan" => r.list(t.try_scan_prefix(k)?)?,
                "iter" => r.list(t.try_iter().take(n))?,
                "firstentry" | "lastentry" => {
                    let e = if op == "firstentry" { t.try_first_entry(vec![])? } else { t.try_last_entry(vec![])? };
                    r.list(e.into_iter().map(Ok))?
                }
                "firstvalue" | "lastvalue" => match if op == "firstvalue" { t.try_first_value()? } else { t.try_last_value()? } {
                    Some(v) => format!("\"res\":[{}]", jb(&r.load(&v)?)),
                    None => "\"res\":[]".into(),
                },
                "detach" => {
                    let d = t.try_detached()?;
                    let ps: Vec<Pair> = d.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
                    format!("\"res\":{}", jps(&ps))
                }
                x => panic!("harness {x}"),
            })
        });
    }
    /// operations that only read, in bulk
    fn readonly(&mut self, which: usize, b: &BTreeMap<Vec<u8>, Vec<u8>>, k: &[u8]) {
        let other: RadixTree = b.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        self.event("readonly", format!(",\"which\":{which}"), |r| {
            let t = r.t();
            let f = |_: &ValueRef<TS>, y: &ValueRef| -> R<Option<Value>> { Ok(Some(y.to_owned())) };
            match which {
                0 => drop(t.try_outer_combine::<Detached, anyhow::Error, _>(&other, f)?),
                1 => drop(t.try_inner_combine::<Detached, anyhow::Error, _>(&other, f)?),
                2 => drop(t.try_left_combine::<Detached, anyhow::Error, _>(&other, f)?),
                3 => drop(t.try_inner_combine_pred::<Detached, anyhow::Error, _>(&other, |_, _| Ok(true))?),
                4 => drop(t.try_left_combine_pred::<Detached, anyhow::Error, _>(&other, |_, _| Ok(false))?),
                5 => {
                    for g in t.try_group_by(|p: &[u8], _: &TreeNodeRef<TS>| Ok(p.len() < k.len() + 1)) {
                        let g = g?;
                        for x in g.try_values() {
                            r.load(&x?)?;
                        }
                    }
                }
                6 => {
                    let f = t.try_filter_prefix(k, b"zz")?;
                    r.list(f.try_iter())?;
                }
                7 => {
                    for v in t.try_values() {
                        r.load(&v?)?;
                    }
                }
                _ => {
                    let c = t.clone();
                    r.list(c.try_iter())?;
                    drop(c.try_detached()?);
                }
            }
            Ok("\"res\":[]".into())
        });
    }
    fn edit(&mut self, op: &str, k: &[u8], v: &[u8]) {
        match op {
            "insert" => drop(self.model.insert(k.to_vec(), v.to_vec())),
            "remove" => drop(self.model.remove(k)),
            _ => self.model.retain(|x, _| !x.starts_with(k)),
        }
        let a = if op == "insert" { format!(",\"k\":{},\"v\":{}", jb(k), jb(v)) } else { format!(",\"k\":{}", jb(k)) };
        self.event(op, a, |r| {
            let t = r.tree.as_mut().unwrap();
            match op {
                "insert" => t.try_insert(k, v)?,
                "remove" => t.try_remove(k)?,
                _ => t.try_remove_prefix(k)?,
            }
            Ok("\"res\":[]".into())
        });
    }
    fn bulk(&mut self, op: &str, f: &'static str, b: &BTreeMap<Vec<u8>, Vec<u8>>, how: usize) {
        let det: RadixTree = b.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let ps: Vec<Pair> = b.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let args = format!(",\"f\":\"{f}\",\"b\":{}", jps(&ps));
        let mut att = None;
        if how >= 2 {
            // the other tree is in the same store
            self.event("side", format!(",\"b\":{}", jps(&ps)), |r| {
                let mut t = det.try_attached(r.store.clone())?;
                let id = t.try_reattach()?;
                att = Some(t);
                Ok(format!("\"id\":{}", jb(&id)))
            });
            if let (Some(t), 4) = (&mut att, how) {
                // and partly loaded
                if let Some((k, v)) = ps.get(ps.len() / 2) {
                    let _ = t.try_insert(k, v);
                }
            }
        }
        match op {
            "retain" | "removewith" => {
                let under = |k: &Vec<u8>| b.keys().any(|p| k.starts_with(p));
                self.model.retain(|k, _| under(k) == (op == "retain"));
            }
            _ => {
                let old = std::mem::take(&mut self.model);
                for (k, v) in &old {
                    match b.get(k) {
                        Some(w) if f != "drop" => drop(self.model.insert(k.clone(), if f == "left" { v.clone() } else { w.clone() })),
                        Some(_) => {}
                        None if op != "innerwith" => drop(self.model.insert(k.clone(), v.clone())),
                        None => {}
                    }
                }
                if op == "outerwith" {
                    for (k, v) in b {
                        if !old.contains_key(k) {
                            self.model.insert(k.clone(), v.clone());
                        }
                    }
                }
            }
        }
        self.event(op, args, |r| {
            let t = r.tree.as_mut().unwrap();
            macro_rules! go {
                ($b:expr, $conv:expr, $set:expr) => {{
                    match op {
                        "outerwith" => t.try_outer_combine_with($b, $conv, $set)?,
                        "innerwith" => t.try_inner_combine_with($b, $conv, $set)?,
                        _ => t.try_left_combine_with($b, $conv, $set)?,
                    }
                }};
            }
            match (op, &att) {
                ("retain", None) => t.try_retain_prefix_with(&det, |_| Ok(true))?,
                ("retain", Some(b)) => t.try_retain_prefix_with(b, |_| Ok(true))?,
                ("removewith", None) => t.try_remove_prefix_with(&det, |_| Ok(true))?,
                ("removewith", Some(b)) => t.try_remove_prefix_with(b, |_| Ok(true))?,
                (_, None) => {
                    let set = |x: &mut Value<TS>, y: &ValueRef| -> R<()> {
                        match f {
                            "left" => {}
                            "right" => x.set(Some(y.downcast())),
                            _ => x.set(None),
                        }
                        Ok(())
                    };
                    if how == 0 {
                        go!(&det, DowncastConverter, set)
                    } else {
                        go!(&det, DetachConverter, set)
                    }
                }
                (_, Some(b)) => {
                    let set = |x: &mut Value<TS>, y: &ValueRef<TS>| -> R<()> {
                        match f {
                            "left" => {}
                            "right" => x.set(Some(y)),
                            _ => x.set(None),
                        }
                        Ok(())
                    };
                    go!(b, IdentityConverter, set)
                }
            }
            Ok("\"res\":[]".into())
        });
    }
    fn done(self, profile: &str, seed: u64) -> Done {
        Done {
            line: format!("{{\"profile\":\"{profile}\",\"seed\":\"{seed}\",\"ev\":{}}}", jlist(self.ev.iter().cloned())),
            events: self.ev.len(),
            ops: self.ops,
        }
    }
}

const LONG: &[usize] = &[126, 127, 128, 129, 254, 255, 256, 258];

struct Words {
    segs: Vec<Vec<u8>>,
    vlens: Vec<usize>,
}
impl Words {
    fn new(r: &mut Rng) -> Self {
        let n = 2 + r.below(4);
        let mut segs = vec![];
        let long = r.chance(2, 5);
        for i in 0..n {
            let len = if long && i == 0 {
                *r.pick(LONG)
            } else if r.chance(1, 4) {
                *r.pick(&[2usize, 3, 7, 8, 9, 30])
            } else {
                1
            };
            let mut s = r.bytes(len);
            if r.chance(1, 4) {
                s[0] = *r.pick(&[0, 1, 127, 128, 129, 255]);
            }
            segs.push(s);
        }
        if r.chance(1, 4) {
            // two that share all but the last byte
            let mut s = segs[0].clone();
            let l = s.len() - 1;
            s[l] = s[l].wrapping_add(1);
            segs.push(s);
        }
        let vlens = match r.below(5) {
            0 => vec![0],
            1 => vec![*r.pick(&[1usize, 5, 100])],
            2 => vec![*r.pick(&[126usize, 127, 128, 129])],
            3 => vec![0, 1, 127, 128],
            _ => vec![0, 1, 1, 1, 5, 250, 256],
        };
        Words { segs, vlens }
    }
    fn key(&self, r: &mut Rng) -> Vec<u8> {
        let n = r.below(5);
        let mut k = vec![];
        for _ in 0..n {
            k.extend_from_slice(r.pick(&self.segs));
            if k.len() > 300 {
                break;
            }
        }
        k
    }
    fn value(&self, r: &mut Rng) -> Vec<u8> {
        let n = *r.pick(&self.vlens);
        r.bytes(n)
    }
    /// mostly a key that is there, or near one
    fn some(&self, r: &mut Rng, m: &BTreeMap<Vec<u8>, Vec<u8>>) -> Vec<u8> {
        if m.is_empty() || r.chance(1, 4) {
            return self.key(r);
        }
        let ks: Vec<&Vec<u8>> = m.keys().collect();
        near(r, r_pick(r, &ks))
    }
}
fn r_pick<'x>(r: &Rng, ks: &[&'x Vec<u8>]) -> &'x Vec<u8> {
    // does not advance r, so that the borrow is short
    let mut c = Rng::new(r.peek());
    ks[c.below(ks.len())]
}
fn near(r: &mut Rng, k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    match r.below(8) {
        0 => {
            let n = r.below(k.len() + 1);
            k.truncate(n);
        }
        1 => {
            k.pop();
        }
        2 => k.push(r.next() as u8),
        3 if !k.is_empty() => {
            let i = r.below(k.len());
            k[i] ^= 1 << r.below(8);
        }
        _ => {}
    }
    k
}

pub const STORES: &[&str] = &["mem", "id2", "id7", "id8", "id9", "id33", "id126", "page8192", "high8192"];

fn reads(run: &mut Run, r: &mut Rng, w: &Words, all: bool) {
    let ops: &[&str] = &["get", "get", "contains", "hasprefix", "scan", "iter", "iter", "firstentry", "lastentry", "firstvalue", "lastvalue", "detach"];
    if all {
        let mut ks: BTreeSet<Vec<u8>> = run.model.keys().cloned().collect();
        for k in run.model.keys().cloned().collect::<Vec<_>>() {
            ks.insert(near(r, &k));
            if !k.is_empty() {
                ks.insert(k[..k.len() - 1].to_vec());
            }
        }
        ks.insert(vec![]);
        for k in &ks {
            let op = *r.pick(&["get", "get", "contains", "hasprefix", "scan"]);
            run.read(op, k, 0);
        }
        run.read("iter", &[], 1000);
        run.read("detach", &[], 0);
        for op in ["firstentry", "lastentry", "firstvalue", "lastvalue"] {
            if r.chance(1, 2) {
                run.read(op, &[], 0);
            }
        }
        return;
    }
    let op = *r.pick(ops);
    let k = w.some(r, &run.model);
    let n = r.below(run.model.len() + 2);
    run.read(op, &k, n);
}

fn edits(run: &mut Run, r: &mut Rng, w: &Words, bulk: bool) {
    match r.below(if bulk { 14 } else { 9 }) {
        0..=4 => {
            let (k, v) = (w.some(r, &run.model), w.value(r));
            run.edit("insert", &k, &v);
        }
        5..=7 => {
            let k = w.some(r, &run.model);
            run.edit("remove", &k, &[]);
        }
        8 => {
            let k = w.some(r, &run.model);
            if r.chance(1, 3) || k.len() > 1 {
                run.edit("removeprefix", &k, &[]);
            }
        }
        _ => {
            let op = *r.pick(&["outerwith", "outerwith", "outerwith", "leftwith", "leftwith", "innerwith", "retain", "removewith"]);
            let mut b = BTreeMap::new();
            for _ in 0..r.below(6) {
                let k = if r.chance(1, 2) { w.some(r, &run.model) } else { w.key(r) };
                b.insert(k, w.value(r));
            }
            let f = *r.pick(&["left", "right", "drop"]);
            let how = r.below(5);
            run.bulk(op, f, &b, how);
        }
    }
}

fn new_run<'a>(store: TS, tell: &'a mut dyn FnMut(&str, &str)) -> Run<'a> {
    let tree = Some(RadixTree::empty(store.clone()));
    Run { store, tree, roots: vec![], model: Default::default(), ev: vec![], ops: Default::default(), tell, dead: false }
}

pub fn generate(profile: &str, seed: u64, tell: &mut dyn FnMut(&str, &str)) -> Done {
    let mut r = Rng::new(seed);
    let store = TS::new(r.pick(STORES));
    let mut run = new_run(store, tell);
    let w = Words::new(&mut r);
    if profile == "C12" {
        bad(&mut run, &mut r, &w);
        return run.done(profile, seed);
    }
    let c17 = profile == "C17";
    // something to begin with
    for _ in 0..r.below(14) {
        let (k, v) = (w.key(&mut r), w.value(&mut r));
        run.edit("insert", &k, &v);
    }
    for _ in 0..1 + r.below(4) {
        run.persist();
        for _ in 0..1 + r.below(3) {
            if r.chance(1, 2) {
                let back = if r.chance(1, 4) { r.below(4) } else { 0 };
                run.open(back);
            }
            if c17 && r.chance(1, 3) {
                run.persist();
            }
            for _ in 0..r.below(if c17 { 7 } else { 3 }) {
                if c17 && r.chance(1, 6) {
                    let which = r.below(9);
                    let mut b = BTreeMap::new();
                    for _ in 0..r.below(4) {
                        b.insert(w.some(&mut r, &run.model), w.value(&mut r));
                    }
                    let k = w.some(&mut r, &run.model);
                    run.readonly(which, &b, &k);
                } else {
                    reads(&mut run, &mut r, &w, false);
                }
            }
            let few = r.chance(1, 2);
            for _ in 0..if few { 1 } else { r.below(6) } {
                edits(&mut run, &mut r, &w, true);
            }
        }
    }
    run.persist();
    if r.chance(1, 2) {
        run.open(0);
        run.read("iter", &[], 1000);
    }
    run.done(profile, seed)
}

/// an encoding the specification wrote
pub fn plan(profile: &str, seed: u64, p: &serde_json::Value, tell: &mut dyn FnMut(&str, &str)) -> Done {
    let bytes = |x: &serde_json::Value| -> Vec<u8> { x.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
    let pairs = |x: &serde_json::Value| -> Vec<Pair> { x.as_array().unwrap().iter().map(|x| (bytes(&x[0]), bytes(&x[1]))).collect() };
    let mut r = Rng::new(seed);
    let blobs = pairs(&p["blobs"]);
    let store = TS::preloaded(&blobs, 9);
    let mut run = new_run(store, tell);
    let w = Words::new(&mut r);
    let id = bytes(&p["root"]);
    run.event("preload", format!(",\"id\":{},\"blobs\":{}", jb(&id), jps(&blobs)), |_| Ok("\"res\":[]".into()));
    run.roots.push((id, pairs(&p["map"]).into_iter().collect()));
    run.open(0);
    reads(&mut run, &mut r, &w, true);
    if p["canonical"].as_bool().unwrap() {
        for _ in 0..1 + r.below(3) {
            edits(&mut run, &mut r, &w, true);
        }
        run.read("iter", &[], 1000);
        run.persist();
        run.open(0);
        run.read("iter", &[], 1000);
    }
    run.done(profile, seed)
}

/// tries to open what is not a tree
fn bad(run: &mut Run, r: &mut Rng, w: &Words) {
    let mut roots: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        let n = r.below(6);
        let t: RadixTree = (0..n).map(|_| (w.key(r), w.value(r))).collect();
        let s = run.store.clone();
        if let Ok(mut t) = t.try_attached(s) {
            if let Ok(id) = t.try_reattach() {
                roots.push(run.store.raw_read(&id).unwrap().to_vec());
            }
        }
    }
    roots.push(vec![0, 0, 128]);
    for _ in 0..24 {
        let mut b = r.pick(&roots).clone();
        for _ in 0..1 + r.below(2) {
            match r.below(9) {
                0 => b.truncate(r.below(b.len() + 1)),
                1 => drop(b.pop()),
                2 => b.push(r.next() as u8),
                3 => {
                    let n = r.below(5);
                    b = r.bytes(n);
                }
                4 => b = vec![*r.pick(&[0u8, 1, 127, 128, 129, 255]); r.below(260)],
                5 if !b.is_empty() => b[0] = *r.pick(&[128u8, 0, 127, 255, 129]),
                6 => {
                    let l = b.len();
                    if l > 0 {
                        b[l - 1] = *r.pick(&[0u8, 1, 127, 128, 129, 255]);
                    }
                }
                _ if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = if r.chance(1, 2) { r.next() as u8 } else { *r.pick(&[0u8, 1, 127, 128, 129, 255]) };
                }
                _ => {}
            }
        }
        let id = match run.store.raw_write(&b) {
            Ok(id) => id,
            Err(_) => continue,
        };
        run.event("badopen", format!(",\"bytes\":{}", jb(&b)), |r| {
            RadixTree::try_load(r.store.clone(), Some(&id))?;
            Ok("\"res\":[]".into())
        });
    }
}

pub fn many(profile: &str, seed: u64, count: u64, seconds: u64, plans: Option<String>, out: &str) {
    use std::io::Write;
    let plans: Option<Vec<serde_json::Value>> =
        plans.map(|f| std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    let count = plans.as_ref().map(|p| p.len() as u64).unwrap_or(count);
    let l = crate::run::parallel(seed, count, seconds, 30, out, |i, s| match &plans {
        Some(p) => plan(profile, s, &p[i as usize], &mut |_, _| {}),
        None => generate(profile, s, &mut |_, _| {}),
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/samples.ndjson")).unwrap());
    let mut ops: BTreeMap<String, usize> = Default::default();
    let (n, mut events) = (l.len(), 0);
    for d in l {
        writeln!(f, "{}", d.line).unwrap();
        events += d.events;
        for (k, v) in d.ops {
            *ops.entry(k).or_default() += v;
        }
    }
    std::fs::write(
        format!("{out}/stats.json"),
        format!("{{\"traces\":{n},\"planned\":{count},\"events\":{events},\"ops\":{}}}", serde_json::to_string(&ops).unwrap()),
    )
    .unwrap();
}
