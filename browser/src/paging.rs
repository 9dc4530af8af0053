//! The paging file on top of the files: a blob store that is durable at sync
use crate::*;
use radixdb::store::OwnedBlob;
use sample::PagingFile;

fn data(tok: i64, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (tok as usize * 31 + i * 7) as u8).collect();
    for (i, b) in (tok as u32).to_be_bytes().iter().enumerate() {
        if i < v.len() {
            v[i] = *b;
        }
    }
    v
}
fn open(page: u64) -> anyhow::Result<(SyncFs, PagingFile)> {
    let fs = fresh();
    let f = fs.open_dir("d").and_then(|d| d.open_file("f")).and_then(|f| PagingFile::new(f, page));
    match f {
        Ok(f) => Ok((fs, f)),
        Err(e) => {
            fs.unmount();
            Err(e)
        }
    }
}
fn read(f: &PagingFile, id: i64) -> anyhow::Result<Vec<u8>> {
    quiet(|| f.read(&(id as u64).to_be_bytes())).map(|b| b.to_vec())
}
struct Toks(Vec<usize>);
impl Toks {
    fn of(&self, b: &[u8]) -> i64 {
        self.0.iter().enumerate().find(|(t, n)| **n == b.len() && data(*t as i64, **n) == b).map(|x| x.0 as i64).unwrap_or(-2)
    }
    fn new(&mut self, n: usize) -> i64 {
        self.0.push(n);
        self.0.len() as i64 - 1
    }
}

pub fn program(seed: u64, stats: &mut Stats) -> (Value, bool) {
    let mut rng = Rng(seed);
    let page = *rng.pick(&[32u64, 64, 64, 128, 1024]);
    reset(Caches::new());
    let mut ev = vec![];
    let mut suspect = false;
    let mut toks = Toks(vec![]);
    // tokens of equal content are the same token: short blobs are not told apart by their content
    let mut ids: Vec<i64> = vec![];
    let mut known: BTreeMap<i64, i64> = Default::default();
    let mut durable: BTreeMap<i64, i64> = Default::default();
    let (mut fs, mut f) = open(page).expect("an empty file opens");
    let faults = rng.one_in(2);
    let (mut views_n, mut faults_n) = (0, 0);
    let mut again = false;
    let mut held: BTreeMap<i64, (OwnedBlob, i64)> = Default::default();
    toks.new(0);
    for _ in 0..3 + rng.below(20) {
        let fault = if again && rng.one_in(2) {
            Some(rng.below(2))
        } else if faults && rng.one_in(5) {
            Some(rng.below(6))
        } else {
            None
        };
        host(|h| {
            h.log.clear();
            h.failed = false;
            h.budget = fault;
            h.fail = 1;
        });
        let max = page as usize - 12;
        let mut synced = false;
        let k = rng.below(13);
        let mut e;
        match k {
            0..=5 => {
                let n = match rng.below(6) {
                    0 => max - rng.below(3).min(max),
                    1 => max + 1 + rng.below(14),
                    2 => 4 + rng.below(8),
                    3 if rng.one_in(2) => 0,
                    _ => 4 + rng.below(max - 3),
                };
                let tok = if n == 0 { 0 } else { toks.new(n) };
                about_to(json!({"op": "write", "tok": tok, "n": n}));
                let r = quiet(|| f.write(&data(tok, n)));
                let failed = host(|h| h.failed);
                let id = r.as_ref().ok().and_then(|i| i[..].try_into().ok()).map(|i| u64::from_be_bytes(i) as i64).unwrap_or(-1);
                // between these two the file may take it or not
                let size = if n <= max { "fits" } else if n > page as usize { "big" } else { "may" };
                e = json!({"op": "write", "st": status(&r), "id": id, "idlen": 8, "tok": tok, "size": size, "fault": failed, "n": n});
                if r.is_ok() {
                    suspect |= known.contains_key(&id);
                    ids.push(id);
                    known.insert(id, tok);
                } else {
                    suspect |= !failed && size == "fits";
                }
                suspect |= status(&r) == "panic";
            }
            6..=7 if !ids.is_empty() => {
                let id = *rng.pick(&ids);
                if !known.contains_key(&id) {
                    continue;
                }
                let slot = rng.below(4) as i64;
                about_to(json!({"op": "read", "id": id}));
                let r = quiet(|| f.read(&(id as u64).to_be_bytes()));
                if let (Ok(b), true) = (&r, slot > 0) {
                    held.insert(slot, (b.clone(), toks.of(b)));
                }
                let failed = host(|h| h.failed);
                let tok = r.as_ref().map(|b| toks.of(b)).unwrap_or(-1);
                suspect |= known.get(&id) != Some(&tok) && !failed || status(&r) == "panic";
                e = json!({"op": "read", "st": status(&r), "id": id, "slot": slot, "tok": tok, "fault": failed});
            }
            8..=9 => {
                about_to(json!({"op": "sync"}));
                let r = quiet(|| f.sync());
                let failed = host(|h| h.failed);
                suspect |= r.is_err() && !failed;
                synced = r.is_ok();
                e = json!({"op": "sync", "st": status(&r), "fault": failed});
            }
            10 => {
                // ids that mean nothing
                let top = known.keys().last().copied().unwrap_or(0) as usize;
                let id: Vec<u8> = match rng.below(6) {
                    // in the middle of something: no way to tell
                    3 | 4 if top > 0 => (rng.below(top + 1) as u64).to_be_bytes().to_vec(),
                    5 => {
                        let mut b = (top as u64).to_be_bytes().to_vec();
                        b.extend(vec![0; 1 + rng.below(9)]);
                        b
                    }
                    0 => (u64::MAX - rng.below(9) as u64).to_be_bytes().to_vec(),
                    1 => vec![0; rng.below(8)],
                    _ => (1u64 << 30).to_be_bytes().to_vec(),
                };
                about_to(json!({"op": "badread"}));
                let r = quiet(|| f.read(&id));
                let n = if id.len() == 8 { (u64::from_be_bytes(id[..].try_into().unwrap())).min(1 << 30) as i64 } else { 0 };
                // ids begin at 4; what is before it is not outside
                let n = if n <= top as i64 { n.max((top > 0) as i64) } else { n };
                suspect |= r.is_ok() && (n > top as i64 || n == 0 || id.len() != 8) || status(&r) == "panic";
                e = json!({"op": "badread", "st": status(&r), "id": n, "idlen": id.len(), "fault": host(|h| h.failed)});
            }
            11 if !held.is_empty() => {
                let slot = *rng.pick(&held.keys().copied().collect::<Vec<_>>());
                let (b, t) = &held[&slot];
                suspect |= toks.of(b) != *t;
                e = json!({"op": "held", "st": "ok", "slot": slot, "tok": toks.of(b), "fault": false});
            }
            _ => {
                host(|h| h.budget = None);
                about_to(json!({"op": "power"}));
                fs.unmount();
                let r = quiet(|| open(page));
                let st = status(&r);
                match r {
                    Ok(r) => (fs, f) = r,
                    Err(_) => {
                        ev.push(json!({"op": "open", "st": st, "last": 0, "fault": false}));
                        suspect = true;
                        break;
                    }
                }
                known = durable.clone();
                e = json!({"op": "power", "st": "ok", "last": known.keys().last().copied().unwrap_or(0), "fault": false});
            }
        }
        let mut log = host(|h| {
            h.budget = None;
            std::mem::take(&mut h.log)
        });
        faults_n += (e["fault"] == json!(true)) as usize;
        let caches = host(|h| h.caches.clone());
        if synced {
            log.push(caches.clone());
        }
        let n = log.len();
        let mut views = vec![];
        for (i, c) in log.into_iter().enumerate() {
            if synced && i + 1 == n {
                // what is there once the sync has returned
                durable = known.clone();
                if !views.is_empty() {
                    e["views"] = json!(std::mem::take(&mut views));
                }
                finished(&e);
                ev.push(e);
                e = json!({"op": "look", "fault": false});
            }
            reset(c);
            let mut v = json!({"k": "p", "st": "err", "last": 0, "reads": [], "probes": [], "after": []});
            let r = quiet(|| open(page));
            if let Ok((fs, f)) = r {
                v["st"] = json!("ok");
                // what has to be there
                let mut all = durable.clone();
                let look = |f: &PagingFile, all: &BTreeMap<i64, i64>, toks: &Toks| -> Vec<Value> {
                    all.keys().map(|id| json!([id, read(f, *id).map(|b| toks.of(&b)).unwrap_or(-1)])).collect()
                };
                let reads = look(&f, &all, &toks);
                suspect |= reads != all.iter().map(|(i, t)| json!([i, t])).collect::<Vec<_>>();
                v["reads"] = json!(reads);
                let n = 4 + rng.below(max - 3);
                let tok = toks.new(n);
                let r = quiet(|| f.write(&data(tok, n)));
                let s = quiet(|| f.sync());
                let id = r.as_ref().ok().and_then(|i| i[..].try_into().ok()).map(|i| u64::from_be_bytes(i) as i64).unwrap_or(-1);
                let good = r.is_ok() && s.is_ok();
                v["probes"] = json!([[if good { "ok" } else { "err" }, id, tok]]);
                suspect |= !good || all.get(&id).map(|t| *t != tok).unwrap_or(false);
                all.insert(id, tok);
                fs.unmount();
                match quiet(|| open(page)) {
                    Ok((fs, f)) => {
                        let after = look(&f, &all, &toks);
                        suspect |= after != all.iter().map(|(i, t)| json!([i, t])).collect::<Vec<_>>();
                        v["after"] = json!(after);
                        fs.unmount();
                    }
                    Err(_) => suspect = true,
                }
                toks.0.pop();
            } else {
                suspect = true;
            }
            beat();
            views.push(v);
            views_n += 1;
        }
        if !views.is_empty() {
            e["views"] = json!(views);
            let deleted = host(|h| h.deleted.clone());
            reset(caches);
            host(|h| h.deleted = deleted);
        }
        again = e["fault"] == json!(true);
        finished(&e);
        ev.push(e);
    }
    for (slot, (b, t)) in &held {
        suspect |= toks.of(b) != *t;
        ev.push(json!({"op": "held", "st": "ok", "slot": slot, "tok": toks.of(b), "fault": false}));
    }
    fs.unmount();
    stats.traces += 1;
    stats.events += ev.len();
    stats.views += views_n;
    stats.faults += faults_n;
    (json!({"seed": seed.to_string(), "page": page, "ev": ev}), suspect)
}
