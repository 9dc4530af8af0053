//! A mirror of the specification RadixMap in Rust. It is used to generate sensible operations, and to select the
//! executions that TLC has to look at; it convicts nothing by itself.
use crate::op::*;
use crate::util::*;
use std::collections::BTreeMap;

pub type Map = BTreeMap<Key, i64>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Kind {
    #[default]
    None,
    Det,
    Att,
}
#[derive(Clone, Debug, Default)]
pub struct MTree {
    pub kind: Kind,
    pub st: usize,
    pub map: Map,
}
#[derive(Clone, Debug)]
pub struct Mirror {
    pub tree: Vec<MTree>,
    pub iter: Vec<Option<(Vec<Entry>, bool)>>,
    pub val: Vec<Option<i64>>,
    pub ver: Vec<(usize, Map)>,
}

pub fn pref(p: &[i64], k: &[i64]) -> bool {
    k.starts_with(p)
}
pub fn lcp(a: &[i64], b: &[i64]) -> Key {
    a.iter().zip(b).take_while(|(a, b)| a == b).map(|(a, _)| *a).collect()
}
pub fn combiner(f: &str, x: i64, y: i64) -> Option<i64> {
    match f {
        "left" => Some(x),
        "right" => Some(y),
        "none" => None,
        "sum" => Some((x + y) % 16),
        "diff" => (x != y).then_some(x),
        "odd" => ((x + y) % 2 != 1).then_some(y),
        "zero" => Some(0),
        _ => panic!(),
    }
}
pub fn pred1(p: &str, y: i64) -> bool {
    match p {
        "true" => true,
        "false" => false,
        "odd" => y % 2 == 1,
        "even" => y % 2 == 0,
        _ => panic!(),
    }
}
pub fn pred2(p: &str, x: i64, y: i64) -> bool {
    match p {
        "true" => true,
        "false" => false,
        "eq" => x == y,
        "ne" => x != y,
        "lt" => x < y,
        _ => panic!(),
    }
}
pub fn descend(d: &str, p: &[i64]) -> bool {
    match d {
        "always" => true,
        "never" => false,
        "short" => p.len() < 2,
        "even" => p.len() % 2 == 0,
        "lastodd" => p.last().map(|x| x % 2 == 1).unwrap_or(true),
        _ => panic!(),
    }
}
/// "table": the predicate is given by the pairs of the operation
pub fn descend_op(o: &Op, p: &[i64]) -> bool {
    if o.f == "table" {
        o.ps.iter().any(|x| x.0 == p)
    } else {
        descend(o.f, p)
    }
}
pub fn pred1_op(o: &Op, y: i64) -> bool {
    if o.f == "table" {
        o.ps.iter().any(|x| x.1 == y)
    } else {
        pred1(o.f, y)
    }
}
pub fn entries(m: &Map) -> Vec<Entry> {
    m.iter().map(|(k, v)| (k.clone(), *v)).collect()
}
fn scan(m: &Map, p: &[i64]) -> Vec<Entry> {
    m.iter().filter(|(k, _)| pref(p, k)).map(|(k, v)| (k.clone(), *v)).collect()
}
pub fn node_paths(m: &Map) -> Vec<Key> {
    let mut r: Vec<Key> = m.keys().cloned().collect();
    let ks: Vec<&Key> = m.keys().collect();
    // branch points are common prefixes of neighbours
    for w in ks.windows(2) {
        r.push(lcp(w[0], w[1]));
    }
    r.sort();
    r.dedup();
    r
}
pub fn groups(m: &Map, d: &str) -> (Vec<Map>, Vec<Key>) {
    let n = node_paths(m);
    let reached: Vec<Key> =
        n.iter().filter(|x| n.iter().all(|q| !(q.len() < x.len() && pref(q, x)) || descend(d, q))).cloned().collect();
    let heads = reached.iter().filter(|x| !descend(d, x) || m.contains_key(*x));
    let gs = heads
        .map(|h| {
            if descend(d, h) {
                Map::from([(h.clone(), m[h])])
            } else {
                m.iter().filter(|(k, _)| pref(h, k)).map(|(k, v)| (k.clone(), *v)).collect()
            }
        })
        .collect();
    (gs, reached)
}
fn calls(a: &Map, b: &Map) -> Vec<(i64, i64)> {
    a.iter().filter_map(|(k, v)| b.get(k).map(|w| (*v, *w))).collect()
}
fn covered(b: &Map, p: &str, k: &[i64]) -> bool {
    b.iter().any(|(q, y)| pref(q, k) && pred1(p, *y))
}

impl Mirror {
    pub fn new(handles: usize, iters: usize, vals: usize) -> Self {
        Mirror { tree: vec![MTree::default(); handles + 1], iter: vec![None; iters + 1], val: vec![None; vals + 1], ver: vec![] }
    }
    fn bind(&mut self, g: usize, kind: Kind, st: usize, map: Map) -> Res {
        self.tree[g] = MTree { kind, st, map };
        Res::Unit
    }
    pub fn apply(&mut self, o: &Op) -> Res {
        let (h, g, h2) = (o.h, o.g, o.h2);
        let m = self.tree.get(h).map(|x| x.map.clone()).unwrap_or_default();
        let (kind, st) = self.tree.get(h).map(|x| (x.kind, x.st)).unwrap_or_default();
        let m2 = self.tree.get(h2).map(|x| x.map.clone()).unwrap_or_default();
        match o.name {
            "new" => self.bind(g, Kind::Det, 0, Map::new()),
            "newatt" => self.bind(g, Kind::Att, o.s, Map::new()),
            "single" => self.bind(g, Kind::Det, 0, Map::from([(o.k.clone(), o.v)])),
            "collect" => self.bind(g, Kind::Det, 0, o.ps.iter().cloned().collect()),
            "clone" => self.bind(g, kind, st, m),
            "drop" => self.bind(h, Kind::None, 0, Map::new()),
            "insert" => {
                self.tree[h].map.insert(o.k.clone(), o.v);
                Res::Unit
            }
            "remove" => {
                self.tree[h].map.remove(&o.k);
                Res::Unit
            }
            "removeprefix" => {
                self.tree[h].map.retain(|k, _| !pref(&o.k, k));
                Res::Unit
            }
            "show" => Res::Unit,
            "get" => Res::Int(m.get(&o.k).cloned().unwrap_or(-1)),
            "contains" => Res::Bool(m.contains_key(&o.k)),
            "isempty" => Res::Bool(m.is_empty()),
            "iterate" => Res::Entries(entries(&m)),
            "values" => Res::Values(m.values().cloned().collect()),
            "hasprefix" => Res::Bool(m.keys().any(|k| pref(&o.k, k))),
            "scan" => Res::Entries(scan(&m, &o.k)),
            "filter" => {
                let r = scan(&m, &o.k).into_iter().map(|(k, v)| ([&o.sub[..], &k[o.k.len()..]].concat(), v)).collect();
                self.bind(g, kind, st, r)
            }
            "firstentry" => Res::Entries(m.iter().take(1).map(|(k, v)| ([&o.k[..], &k[..]].concat(), *v)).collect()),
            "lastentry" => Res::Entries(m.iter().rev().take(1).map(|(k, v)| ([&o.k[..], &k[..]].concat(), *v)).collect()),
            "firstvalue" => Res::Int(m.values().next().cloned().unwrap_or(-1)),
            "lastvalue" => Res::Int(m.values().next_back().cloned().unwrap_or(-1)),
            "groupby" => {
                let (g, a) = groups(&m, o.f);
                Res::Groups(g.iter().map(entries).collect(), a)
            }
            "grouptake" => {
                let (mut gs, _) = groups(&m, o.f);
                let r = gs.swap_remove(o.i - 1);
                self.bind(g, kind, st, r)
            }
            "outer" | "outerwith" => {
                let mut r = m2.clone();
                for (k, x) in &m {
                    match m2.get(k) {
                        Some(y) => match combiner(o.f, *x, *y) {
                            Some(z) => r.insert(k.clone(), z),
                            None => r.remove(k),
                        },
                        None => r.insert(k.clone(), *x),
                    };
                }
                if o.name == "outer" {
                    self.bind(g, Kind::Det, 0, r);
                } else {
                    self.tree[h].map = r;
                }
                Res::Calls(calls(&m, &m2))
            }
            "inner" | "innerwith" => {
                let r = m.iter().filter_map(|(k, x)| m2.get(k).and_then(|y| combiner(o.f, *x, *y)).map(|z| (k.clone(), z))).collect();
                if o.name == "inner" {
                    self.bind(g, Kind::Det, 0, r);
                } else {
                    self.tree[h].map = r;
                }
                Res::Calls(calls(&m, &m2))
            }
            "left" | "leftwith" => {
                let r = m
                    .iter()
                    .filter_map(|(k, x)| match m2.get(k) {
                        Some(y) => combiner(o.f, *x, *y).map(|z| (k.clone(), z)),
                        None => Some((k.clone(), *x)),
                    })
                    .collect();
                if o.name == "left" {
                    self.bind(g, Kind::Det, 0, r);
                } else {
                    self.tree[h].map = r;
                }
                Res::Calls(calls(&m, &m2))
            }
            "innerpred" => Res::Bool(calls(&m, &m2).iter().any(|(x, y)| pred2(o.f, *x, *y))),
            "leftpred" => Res::Bool(m.iter().any(|(k, x)| m2.get(k).map(|y| pred2(o.f, *x, *y)).unwrap_or(true))),
            "retain" => {
                self.tree[h].map.retain(|k, _| covered(&m2, o.f, k));
                Res::Unit
            }
            "removewith" => {
                self.tree[h].map.retain(|k, _| !covered(&m2, o.f, k));
                Res::Unit
            }
            "equal" => Res::Bool(m == m2),
            "shape" => {
                let root = match (m.keys().next(), m.keys().next_back()) {
                    (Some(a), Some(b)) => lcp(a, b),
                    _ => vec![],
                };
                let v = m.get(&root).cloned().unwrap_or(-1);
                Res::Shape(m.len() <= 1, root, v)
            }
            "attach" => self.bind(g, Kind::Att, o.s, m),
            "detach" => self.bind(g, Kind::Det, 0, m),
            "reattach" => {
                self.ver.push((st, m));
                Res::Int(self.ver.len() as i64)
            }
            "load" => {
                let (s, m) = self.ver[o.i - 1].clone();
                self.bind(g, Kind::Att, s, m)
            }
            "iternew" | "viternew" => {
                self.iter[o.i] = Some((scan(&m, &o.k), o.name == "viternew"));
                Res::Unit
            }
            "iternext" | "viternext" => {
                let (e, _) = self.iter[o.i].as_mut().unwrap();
                let r: Vec<Entry> = e.drain(..o.n.min(e.len())).collect();
                if o.name == "iternext" {
                    Res::Entries(r)
                } else {
                    Res::Values(r.into_iter().map(|x| x.1).collect())
                }
            }
            "valtake" => {
                self.val[o.i] = Some(m.get(&o.k).cloned().unwrap_or(-1));
                Res::Unit
            }
            "valread" => Res::Int(self.val[o.i].unwrap()),
            x => panic!("{x}"),
        }
    }
    /// agreement of a result with the specification
    pub fn agrees(&self, o: &Op, expected: &Res, got: &Res) -> bool {
        match (expected, got) {
            (Res::Calls(a), Res::Calls(b)) => {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.sort();
                b.sort();
                a == b
            }
            (Res::Groups(g, a), Res::Groups(h, b)) => {
                let h: Vec<_> = h.iter().filter(|x| !x.is_empty()).collect();
                g.iter().collect::<Vec<_>>() == h && (a.is_empty() || b.iter().all(|x| a.contains(x)))
            }
            _ => {
                let _ = o;
                expected == got
            }
        }
    }
    pub fn calls_ok(&self, o: &Op, c: &[(i64, i64)]) -> bool {
        c.is_empty() || {
            let cs = calls(&self.tree[o.h].map, &self.tree[o.h2].map);
            c.iter().all(|x| cs.contains(x))
        }
    }
    /// content after a failed operation: for every key the old or the new value
    pub fn may_follow(old: &Map, new: &Map, obs: &[Entry]) -> bool {
        let m: Map = obs.iter().cloned().collect();
        let sorted = obs.windows(2).all(|w| w[0].0 < w[1].0);
        sorted && old.keys().chain(new.keys()).chain(m.keys()).all(|k| {
            let x = m.get(k);
            x == old.get(k) || x == new.get(k)
        })
    }
}
