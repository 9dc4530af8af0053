//! Replays the results that TLC computed from the specification (spec/Vectors.tla) on the real code.
use crate::codec::*;
use crate::gen::Setup;
use crate::interp::*;
use crate::op::*;
use crate::store::*;
use crate::util::*;
use radixdb::RadixTree;
use serde_json::Value as J;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub const REPS: usize = 7;
fn jkeyv(j: &J) -> Key {
    j.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn jentriesv(j: &J) -> Vec<Entry> {
    j.as_array().unwrap().iter().map(|e| (jkeyv(&e[0]), e[1].as_i64().unwrap())).collect()
}

/// maps in several representations
struct Forms {
    det: Tree,
    att: Vec<Tree>,
}

struct Ctx {
    setup: Setup,
    c: Codec,
    stores: Vec<TS>,
    cache: std::collections::HashMap<(u8, u64), Forms>,
}

fn build(c: &Codec, es: &[Entry], stores: &[TS], r: &mut Rng) -> R<Forms> {
    let mut ps = es.to_vec();
    for i in (1..ps.len()).rev() {
        ps.swap(i, r.below(i + 1));
    }
    let det: RadixTree = ps.iter().map(|(k, v)| (c.key(k), c.val(*v))).collect();
    let mut att = vec![];
    for (i, s) in stores.iter().enumerate() {
        let a = det.try_attached(s.clone())?;
        let mut b = a.clone();
        let id = b.try_reattach()?;
        let l = RadixTree::try_load(s.clone(), Some(&id))?;
        // partially loaded
        let mut p = l.clone();
        if let Some((k, v)) = es.get(r.below(es.len().max(1))) {
            p.try_insert(c.key(k), c.val(*v))?;
        }
        // persisted again after a modification
        let mut q = p.clone();
        let id = q.try_reattach()?;
        let q = if r.chance(1, 2) { RadixTree::try_load(s.clone(), Some(&id))? } else { q };
        for t in [a, b, l, p, q] {
            att.push(Tree::Att(t, i + 1));
        }
    }
    Ok(Forms { det: Tree::Det(det), att })
}

impl Forms {
    /// representation r: 0 detached, others attached to one of the stores
    fn get(&self, r: usize) -> Tree {
        if r == 0 {
            self.det.clone()
        } else {
            self.att[(r - 1) % self.att.len()].clone()
        }
    }
    fn count(&self) -> usize {
        1 + self.att.len()
    }
}

struct Case {
    op: Op,
    a: Vec<Entry>,
    b: Option<Vec<Entry>>,
    content: Option<Vec<Entry>>,
    /// handle that has the content
    target: usize,
    res: Option<Res>,
    calls: Option<Vec<(i64, i64)>>,
}

fn cases(kind: &str, j: &J, u: &[Key], eq: bool) -> Vec<Case> {
    let val = |which: u8, i: usize| -> i64 {
        match which {
            b'a' => (i % 3) as i64,
            b'b' => ((i / 2) % 3) as i64,
            _ => i as i64,
        }
    };
    let map = |which: u8, s: u64| -> Vec<Entry> {
        let mut m: Vec<Entry> =
            u.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(i, k)| (k.clone(), val(which, i + 1))).collect();
        m.sort();
        m
    };
    let vec = |j: &J| -> Vec<Entry> {
        let mut m: Vec<Entry> = j
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .filter(|(_, v)| v.as_i64() != Some(-1))
            .map(|(i, v)| (u[i].clone(), v.as_i64().unwrap()))
            .collect();
        m.sort();
        m
    };
    let a = j["a"].as_u64().unwrap();
    let mut r = vec![];
    match kind {
        "combine" => {
            let (ma, mb) = (map(b'a', a), map(b'b', j["b"].as_u64().unwrap()));
            let calls: Vec<(i64, i64)> =
                j["calls"].as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect();
            for n in ["outer", "inner", "left"] {
                for (i, f) in COMBINERS.iter().enumerate() {
                    let content = vec(&j[n][i]);
                    for name in [n.to_string(), format!("{n}with")] {
                        r.push(Case {
                            op: Op { name: intern(&name), h: 1, h2: 2, g: 3, f, ..Default::default() },
                            a: ma.clone(),
                            b: Some(mb.clone()),
                            content: Some(content.clone()),
                            target: if name == n { 3 } else { 1 },
                            res: None,
                            calls: Some(calls.clone()),
                        });
                    }
                }
            }
        }
        "pred" => {
            let (ma, mb) = (map(b'a', a), map(b'b', j["b"].as_u64().unwrap()));
            for n in ["inner", "left"] {
                for (i, f) in PRED2.iter().enumerate() {
                    r.push(Case {
                        op: Op { name: intern(&format!("{n}pred")), h: 1, h2: 2, f, ..Default::default() },
                        a: ma.clone(),
                        b: Some(mb.clone()),
                        content: None,
                        target: 1,
                        res: Some(Res::Bool(j[n][i].as_i64() == Some(1))),
                        calls: None,
                    });
                }
            }
        }
        "prune" => {
            let (ma, mb) = (map(b'a', a), map(b'b', j["b"].as_u64().unwrap()));
            for (n, name) in [("retain", "retain"), ("remove", "removewith")] {
                for (i, f) in PRED1.iter().enumerate() {
                    r.push(Case {
                        op: Op { name, h: 1, h2: 2, f, ..Default::default() },
                        a: ma.clone(),
                        b: Some(mb.clone()),
                        content: Some(vec(&j[n][i])),
                        target: 1,
                        res: None,
                        calls: None,
                    });
                }
            }
        }
        "table" => {
            let (ma, mb) = (map(b'i', a), map(b'i', j["b"].as_u64().unwrap()));
            for x in j["acc"].as_array().unwrap() {
                let acc = x["u"].as_u64().unwrap();
                let ps: Vec<Entry> = map(b'i', acc);
                let kept = vec(&x["retain"]);
                let rest: Vec<Entry> = ma.iter().filter(|e| !kept.contains(e)).cloned().collect();
                for (name, content) in [("retain", kept), ("removewith", rest)] {
                    r.push(Case {
                        op: Op { name, h: 1, h2: 2, f: "table", ps: ps.clone(), ..Default::default() },
                        a: ma.clone(),
                        b: Some(mb.clone()),
                        content: Some(content),
                        target: 1,
                        res: None,
                        calls: None,
                    });
                }
            }
        }
        "group" => {
            let ma = map(b'i', a);
            let paths: Vec<Key> = j["paths"].as_array().unwrap().iter().map(jkeyv).collect();
            for x in j["g"].as_array().unwrap() {
                let ps: Vec<Entry> = x["d"].as_array().unwrap().iter().map(|k| (jkeyv(k), 1)).collect();
                let gs: Vec<Vec<Entry>> = x["r"].as_array().unwrap().iter().map(vec).collect();
                r.push(Case {
                    op: Op { name: "groupby", h: 1, f: "table", ps, ..Default::default() },
                    a: ma.clone(),
                    b: None,
                    content: Some(ma.clone()),
                    target: 1,
                    res: Some(Res::Groups(gs, paths.clone())),
                    calls: None,
                });
            }
        }
        "edit" | "query" => {
            let ma = map(b'a', a);
            let mut push = |op: Op, content: Option<Vec<Entry>>, target: usize, res: Option<Res>| {
                r.push(Case { op, a: ma.clone(), b: None, content, target, res, calls: None })
            };
            for (i, k) in j["args"].as_array().unwrap().iter().enumerate() {
                let k = jkeyv(k);
                let o = |name: &'static str| Op { name, h: 1, k: k.clone(), ..Default::default() };
                if kind == "edit" {
                    for (f, name, v) in [("insert", "insert", 5), ("clear", "insert", 0), ("remove", "remove", 0), ("removeprefix", "removeprefix", 0)] {
                        push(Op { v, ..o(name) }, Some(jentriesv(&j[f][i])), 1, None);
                    }
                    let g = j["get"][i].as_i64().unwrap();
                    push(o("get"), None, 1, Some(Res::Int(g)));
                    push(o("contains"), None, 1, Some(Res::Bool(g != -1)));
                } else {
                    push(o("hasprefix"), None, 1, Some(Res::Bool(j["has"][i].as_i64() == Some(1))));
                    push(o("scan"), None, 1, Some(Res::Entries(jentriesv(&j["scan"][i]))));
                    for (n, s) in j["subst"].as_array().unwrap().iter().enumerate() {
                        let op = Op { g: 3, sub: jkeyv(s), ..o("filter") };
                        push(op, Some(jentriesv(&j["filter"][i][n])), 3, None);
                    }
                }
            }
            let o = |name: &'static str| Op { name, h: 1, ..Default::default() };
            if kind == "edit" {
                push(o("isempty"), None, 1, Some(Res::Bool(ma.is_empty())));
                push(o("iterate"), None, 1, Some(Res::Entries(ma.clone())));
                push(o("values"), None, 1, Some(Res::Values(ma.iter().map(|x| x.1).collect())));
                if eq {
                    let s = &j["shape"];
                    push(o("shape"), None, 1, Some(Res::Shape(s[0].as_i64() == Some(1), jkeyv(&s[1]), s[2].as_i64().unwrap())));
                }
            } else {
                for (f, name) in [("firstentry", "firstentry"), ("lastentry", "lastentry")] {
                    push(Op { k: vec![1], ..o(name) }, None, 1, Some(Res::Entries(jentriesv(&j[f]))));
                }
                for name in ["firstvalue", "lastvalue"] {
                    push(o(name), None, 1, Some(Res::Int(j[name].as_i64().unwrap())));
                }
            }
        }
        x => panic!("kind {x}"),
    }
    r
}

/// executes a case in one representation; None if it conforms
fn run_case(case: &Case, ta: Tree, tb: Option<Tree>, cx: &Ctx, how: u64, eq: bool) -> Option<String> {
    let mut it = Interp::new(&cx.c, cx.stores.clone(), 3, 1, 1);
    it.asked &= case.op.name == "groupby";
    it.tree[1] = ta;
    if let Some(b) = tb {
        it.tree[2] = b;
    }
    let o = Op { how, ..case.op.clone() };
    let out = it.exec(&o);
    if out.st != "ok" {
        return Some(format!("{}: {}", out.st, out.msg));
    }
    if let Some(r) = &case.res {
        let ok = match (r, &out.res) {
            (Res::Groups(g, a), Res::Groups(h, b)) => {
                let h: Vec<_> = h.iter().filter(|x| !x.is_empty()).collect();
                g.iter().collect::<Vec<_>>() == h && (a.is_empty() || b.iter().all(|x| a.contains(x)))
            }
            (a, b) => a == b,
        };
        if !ok {
            return Some(format!("result {} expected {}", out.res.json(), r.json()));
        }
    }
    if let Some(c) = &case.calls {
        let (mut c, Res::Calls(mut d)) = (c.clone(), out.res) else { unreachable!() };
        c.sort();
        d.sort();
        if c != d {
            return Some(format!("calls {d:?} expected {c:?}"));
        }
    }
    if !out.calls.is_empty() {
        let b = case.b.as_ref().unwrap();
        for (x, y) in &out.calls {
            if !case.a.iter().any(|(k, v)| v == x && b.iter().any(|(l, w)| l == k && w == y)) {
                return Some(format!("called with {x} {y}, which are not the values of a common key"));
            }
        }
    }
    let look = |t: &Tree, want: &Vec<Entry>, what: &str| -> Option<String> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(t, &cx.c))) {
            Ok((e, Ok(()))) if e == *want => None,
            Ok((e, Ok(()))) => Some(format!("{what} {} expected {}", jentries(&e), jentries(want))),
            Ok((_, Err(e))) => Some(format!("{what}: error {e:#}")),
            Err(_) => Some(format!("{what}: panic")),
        }
    };
    if let Some(want) = &case.content {
        if let Some(x) = look(&it.tree[case.target], want, "content") {
            return Some(x);
        }
        if eq {
            // the result must be equal to the same content built from scratch, and of the same shape
            let t = match &it.tree[case.target] {
                Tree::Det(t) => t.clone(),
                Tree::Att(t, _) => match t.try_detached() {
                    Ok(t) => t,
                    Err(e) => return Some(format!("detach: {e:#}")),
                },
                Tree::None => unreachable!(),
            };
            let u: RadixTree = want.iter().map(|(k, v)| (cx.c.key(k), cx.c.val(*v))).collect();
            if t != u || u != t {
                return Some(format!("not equal to a tree with the same content {}", jentries(want)));
            }
            if t.is_leaf() != u.is_leaf()
                || t.prefix().data() != u.prefix().data()
                || t.value().map(|x| x.data().map(|x| x.to_vec())) != u.value().map(|x| x.data().map(|x| x.to_vec()))
            {
                return Some("shape differs from a tree with the same content".into());
            }
            // and different from a different content
            if let Some((k, v)) = want.first() {
                let mut w = u.clone();
                w.insert(cx.c.key(k), cx.c.val((v + 1) % 16));
                if t == w {
                    return Some("equal to a tree with another value".into());
                }
                let mut w = u.clone();
                w.remove(cx.c.key(k));
                if t == w {
                    return Some("equal to a tree with fewer keys".into());
                }
            }
        }
    }
    if let Some(b) = &case.b {
        if let Some(x) = look(&it.tree[2], b, "operand") {
            return Some(x);
        }
    }
    if case.target != 1 {
        if let Some(x) = look(&it.tree[1], &case.a, "receiver") {
            return Some(x);
        }
    }
    None
}

pub struct Args {
    pub kind: String,
    pub file: String,
    pub universe: String,
    pub seed: u64,
    pub reps: usize,
    pub eq: bool,
    pub det_only: bool,
    pub att_only: bool,
    pub out: String,
}

pub fn replay(a: &Args) {
    let u: Vec<Key> = serde_json::from_str::<J>(&std::fs::read_to_string(&a.universe).unwrap()).unwrap().as_array().unwrap().iter().map(jkeyv).collect();
    let nsyms = 1 + u.iter().flatten().max().cloned().unwrap_or(0).max(2) as usize;
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&a.file).unwrap()).lines().map(|x| x.unwrap()).collect();
    let threads = 8;
    let next = AtomicU64::new(0);
    let nops = AtomicU64::new(0);
    let fails: Mutex<Vec<String>> = Default::default();
    let status: Vec<std::fs::File> = (0..threads).map(|i| std::fs::File::create(format!("{}/current-{i}", a.out)).unwrap()).collect();
    let chunk = 64;
    let chunks = (lines.len() + chunk - 1) / chunk;
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    let live = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        {
            let (beat, live) = (&beat, &live);
            sc.spawn(move || {
                while live.load(SeqCst) > 0 {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    if beat.iter().any(|b| b.load(SeqCst) != 0 && now() > b.load(SeqCst) + 40) {
                        eprintln!("hang");
                        std::process::exit(4);
                    }
                }
            });
        }
        for t in 0..threads {
            let (next, nops, fails, status, lines, u, beat, live) = (&next, &nops, &fails, &status, &lines, &u, &beat, &live);
            sc.spawn(move || {
                use std::os::unix::fs::FileExt;
                // a context per thread and chunk group, so that codecs vary
                let mut cx: Option<Ctx> = None;
                let mut r = Rng::new(a.seed.wrapping_mul(977).wrapping_add(t as u64));
                loop {
                    let ch = next.fetch_add(1, SeqCst) as usize;
                    if ch >= chunks || fails.lock().unwrap().len() >= 20 {
                        break;
                    }
                    if cx.is_none() || r.chance(1, 6) {
                        let class = if a.kind == "group" || r.chance(2, 3) { Class::Distinct } else { Class::Shared };
                        let class = if a.eq { Class::Distinct } else { class };
                        let setup = Setup {
                            codec_seed: r.next(),
                            nsyms,
                            class,
                            short: r.chance(1, 3),
                            kinds: (0..2)
                                .map(|_| *r.pick(&["mem", "id4", "id8", "id9", "id33", "id126", "hash", "page8192", "high8192"]))
                                .collect(),
                            fault: false,
                        };
                        let stores = setup.kinds.iter().map(|k| TS::new(k)).collect();
                        let c = setup.codec();
                        cx = Some(Ctx { c, setup, stores, cache: Default::default() });
                    }
                    let cx = cx.as_mut().unwrap();
                    for i in ch * chunk..((ch + 1) * chunk).min(lines.len()) {
                        beat[t].store(now(), SeqCst);
                        let _ = status[t].write_at(format!("{i:>12}").as_bytes(), 0);
                        let j: J = serde_json::from_str(&lines[i]).unwrap();
                        let cs = cases(&a.kind, &j, u, a.eq);
                        let mut n = 0;
                        for (ci, case) in cs.iter().enumerate() {
                            // representations of the operands
                            let wa = if matches!(a.kind.as_str(), "table" | "group") { b'i' } else { b'a' };
                            let wb = if a.kind == "table" { b'i' } else { b'b' };
                            let mut need = vec![(wa, j["a"].as_u64().unwrap(), &case.a)];
                            if let Some(b) = &case.b {
                                need.push((wb, j["b"].as_u64().unwrap(), b));
                            }
                            let mut bad = None;
                            for (w, s, es) in &need {
                                if !cx.cache.contains_key(&(*w, *s)) {
                                    let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(&cx.c, es, &cx.stores, &mut r)));
                                    match f {
                                        Ok(Ok(f)) => {
                                            cx.cache.insert((*w, *s), f);
                                        }
                                        Ok(Err(e)) => bad = Some(format!("building {}: {e:#}", jentries(es))),
                                        Err(_) => bad = Some(format!("building {}: panic", jentries(es))),
                                    }
                                }
                            }
                            let mut reps = vec![];
                            if bad.is_none() {
                                let f = &cx.cache[&(need[0].0, need[0].1)];
                                if !a.att_only {
                                    reps.push((0, 0));
                                }
                                if !a.det_only {
                                    for _ in 0..a.reps {
                                        let x = r.below(f.count());
                                        let y = r.below(f.count());
                                        if a.att_only && x == 0 && y == 0 {
                                            reps.push((1, 1));
                                        } else {
                                            reps.push((x, y));
                                        }
                                    }
                                }
                            }
                            for (x, y) in reps {
                                let ta = cx.cache[&(need[0].0, need[0].1)].get(x);
                                let tb = need.get(1).map(|n| cx.cache[&(n.0, n.1)].get(y));
                                n += 1;
                                let how = r.next() >> 32;
                                if let Some(m) = run_case(case, ta, tb, cx, how, a.eq) {
                                    bad = Some(format!("left in form {x}, right in form {y}, variant {how}: {m}"));
                                    break;
                                }
                            }
                            if let Some(m) = bad {
                                fails.lock().unwrap().push(format!(
                                    "{{\"vector\":{},\"case\":{ci},\"op\":{},\"a\":{},\"b\":{},\"setup\":{},\"what\":{}}}",
                                    i,
                                    jstr(&if case.op.f == "table" { format!("{} with predicate {:?}", case.op.name, case.op.ps) } else { case.op.args() }),
                                    jentries(&case.a),
                                    case.b.as_ref().map(|b| jentries(b)).unwrap_or("null".into()),
                                    cx.setup.json(),
                                    jstr(&m)
                                ));
                                break;
                            }
                        }
                        nops.fetch_add(n, SeqCst);
                    }
                    // everything that was built still has its content
                    for ((w, s), f) in &cx.cache {
                        if r.chance(1, 4) {
                            let want: Vec<Entry> = {
                                let mut m: Vec<Entry> = u
                                    .iter()
                                    .enumerate()
                                    .filter(|(i, _)| s >> i & 1 == 1)
                                    .map(|(i, k)| {
                                        let i = i + 1;
                                        (k.clone(), match w { b'a' => i % 3, b'b' => (i / 2) % 3, _ => i } as i64)
                                    })
                                    .collect();
                                m.sort();
                                m
                            };
                            for x in 0..f.count() {
                                let t = f.get(x);
                                let ok = matches!(
                                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(&t, &cx.c))),
                                    Ok((e, Ok(()))) if e == want
                                );
                                if !ok {
                                    fails.lock().unwrap().push(format!(
                                        "{{\"vector\":-1,\"a\":{},\"setup\":{},\"what\":\"a tree (form {x}) changed while clones of it were used\"}}",
                                        jentries(&want),
                                        cx.setup.json()
                                    ));
                                    break;
                                }
                            }
                        }
                    }
                    if cx.cache.len() > 600 {
                        cx.cache.clear();
                    }
                }
                beat[t].store(0, SeqCst);
                live.fetch_sub(1, SeqCst);
            });
        }
    });
    let fails = fails.into_inner().unwrap();
    let mut f = std::fs::File::create(format!("{}/fails.ndjson", a.out)).unwrap();
    for x in &fails {
        writeln!(f, "{x}").unwrap();
    }
    std::fs::write(
        format!("{}/vstats.json", a.out),
        format!("{{\"vectors\":{},\"operations\":{},\"fails\":{}}}", lines.len(), nops.into_inner(), fails.len()),
    )
    .unwrap();
}
