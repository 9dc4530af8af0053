//! Generates executions: sequences of operations with arguments that are likely to interact.
use crate::codec::*;
use crate::mirror::*;
use crate::op::*;
use crate::store::KINDS;
use crate::util::*;

pub const HANDLES: usize = 6;
pub const ITERS: usize = 3;
pub const VALS: usize = 3;

pub struct Setup {
    pub codec_seed: u64,
    pub nsyms: usize,
    pub class: Class,
    pub short: bool,
    pub kinds: Vec<&'static str>,
    pub fault: bool,
}
impl Setup {
    pub fn codec(&self) -> Codec {
        Codec::random(&mut Rng::new(self.codec_seed), self.nsyms, self.class, self.short)
    }
    pub fn json(&self) -> String {
        format!(
            "{{\"codec_seed\":{},\"nsyms\":{},\"distinct\":{},\"short\":{},\"kinds\":[{}],\"fault\":{}}}",
            self.codec_seed,
            self.nsyms,
            self.class == Class::Distinct,
            self.short,
            self.kinds.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(","),
            self.fault
        )
    }
    pub fn parse(j: &serde_json::Value) -> Setup {
        Setup {
            codec_seed: j["codec_seed"].as_u64().unwrap(),
            nsyms: j["nsyms"].as_u64().unwrap() as usize,
            class: if j["distinct"].as_bool().unwrap() { Class::Distinct } else { Class::Shared },
            short: j["short"].as_bool().unwrap(),
            fault: j["fault"].as_bool().unwrap_or(false),
            kinds: j["kinds"]
                .as_array()
                .unwrap()
                .iter()
                .map(|k| *KINDS.iter().find(|x| **x == k.as_str().unwrap()).unwrap())
                .collect(),
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub setup: Setup,
    weights: Vec<(&'static str, usize)>,
    universe: Vec<Key>,
    alphabet: usize,
    wide: bool,
    pub fault: bool,
    /// percentage of bound trees that get attached
    att: usize,
    pub len: usize,
    queue: Vec<Op>,
}

const MUT: &[(&str, usize)] = &[("insert", 8), ("remove", 8), ("removeprefix", 3), ("collect", 2), ("single", 1), ("new", 1)];
const STORE: &[(&str, usize)] = &[("attach", 3), ("reattach", 4), ("load", 4), ("detach", 2), ("newatt", 1)];
const READ: &[(&str, usize)] = &[("get", 4), ("contains", 2), ("isempty", 1), ("iterate", 1), ("values", 2), ("show", 1)];
const PREFIX: &[(&str, usize)] =
    &[("hasprefix", 4), ("scan", 5), ("filter", 5), ("firstentry", 2), ("lastentry", 2), ("firstvalue", 1), ("lastvalue", 1)];
const GROUP: &[(&str, usize)] = &[("groupby", 6), ("grouptake", 2)];
const COMB: &[(&str, usize)] = &[("outer", 3), ("inner", 3), ("left", 3), ("outerwith", 4), ("innerwith", 4), ("leftwith", 4)];
const PREDS: &[(&str, usize)] = &[("innerpred", 5), ("leftpred", 5)];
const PRUNE: &[(&str, usize)] = &[("retain", 5), ("removewith", 5)];
const EQ: &[(&str, usize)] = &[("equal", 5), ("shape", 4)];
const SHARE: &[(&str, usize)] = &[("clone", 8), ("drop", 2), ("show", 1)];
const ITER: &[(&str, usize)] = &[("iternew", 4), ("viternew", 2), ("iternext", 8), ("valtake", 4), ("valread", 4)];

/// weights (of groups of operations), percentage attached, faults
fn profile(id: &str) -> (Vec<(&'static [(&'static str, usize)], usize)>, usize) {
    match id {
        "C01" => (vec![(MUT, 6), (READ, 6), (STORE, 1), (SHARE, 1)], 30),
        "C02" => (vec![(MUT, 3), (PREFIX, 10), (STORE, 1), (SHARE, 1)], 40),
        "C03" => (vec![(MUT, 2), (GROUP, 10), (STORE, 1), (SHARE, 1), (PREFIX, 1)], 40),
        "C04" => (vec![(MUT, 2), (COMB, 10), (STORE, 2), (SHARE, 1), (PREFIX, 1)], 40),
        "C05" => (vec![(MUT, 4), (PREDS, 10), (STORE, 2), (SHARE, 1), (COMB, 1)], 40),
        "C06" => (vec![(MUT, 2), (PRUNE, 10), (STORE, 2), (SHARE, 1), (PREFIX, 1)], 40),
        "C07" => (vec![(MUT, 4), (EQ, 8), (COMB, 3), (PRUNE, 3), (PREFIX, 3), (GROUP, 2), (STORE, 2), (SHARE, 1)], 20),
        "C08" => (vec![(MUT, 5), (SHARE, 3), (ITER, 8), (COMB, 2), (PRUNE, 2), (PREFIX, 2), (GROUP, 1), (STORE, 2)], 40),
        "C09" => (vec![(MUT, 4), (STORE, 10), (COMB, 2), (PRUNE, 2), (PREFIX, 2), (GROUP, 1), (SHARE, 1), (READ, 1)], 90),
        "C10" => (
            vec![(MUT, 3), (STORE, 4), (READ, 4), (PREFIX, 4), (GROUP, 3), (COMB, 5), (PREDS, 3), (PRUNE, 4), (EQ, 1), (SHARE, 2), (ITER, 2)],
            90,
        ),
        "C15" => (
            vec![(MUT, 5), (STORE, 4), (READ, 3), (PREFIX, 3), (GROUP, 2), (COMB, 6), (PREDS, 2), (PRUNE, 5), (SHARE, 1), (ITER, 2)],
            95,
        ),
        "C16" => (vec![(MUT, 5), (STORE, 4), (READ, 4), (PREFIX, 2), (COMB, 2), (PRUNE, 1), (SHARE, 1), (ITER, 2)], 80),
        x => panic!("profile {x}"),
    }
}

pub fn universe(r: &mut Rng, alphabet: usize, size: usize, depth: usize) -> Vec<Key> {
    let mut u: Vec<Key> = vec![];
    if r.chance(1, 2) {
        u.push(vec![]);
    }
    let sym = |r: &mut Rng| r.below(alphabet) as i64;
    let mut tries = 0;
    while u.len() < size && tries < 1000 {
        tries += 1;
        let k: Key = if u.is_empty() || r.chance(1, 4) {
            let n = r.below(depth + 1);
            (0..n).map(|_| sym(r)).collect()
        } else {
            let mut k = r.pick(&u).clone();
            match r.below(4) {
                0 => k.push(sym(r)),
                1 => {
                    k.pop();
                    k.push(sym(r))
                }
                2 => k.truncate(r.below(k.len() + 1)),
                _ => {
                    k.push(sym(r));
                    k.push(sym(r))
                }
            }
            k.truncate(depth);
            k
        };
        if !u.contains(&k) {
            u.push(k);
        }
    }
    u
}

/// the prefixes of a long key, and some branches beside it
fn chain(r: &mut Rng, alphabet: usize, size: usize) -> Vec<Key> {
    let long: Key = (0..size).map(|_| r.below(alphabet) as i64).collect();
    let mut u: Vec<Key> = (0..=size).map(|n| long[..n].to_vec()).collect();
    for _ in 0..size / 4 {
        let mut k = r.pick(&u).clone();
        k.push(r.below(alphabet) as i64);
        u.push(k);
    }
    u
}

impl Gen {
    pub fn new(id: &str, seed: u64) -> Gen {
        let mut r = Rng::new(seed);
        let (ws, att) = profile(id);
        let mut weights = vec![];
        for (g, w) in ws {
            // vary the emphasis between executions
            let w = w * (1 + r.below(3)) * if r.chance(1, 8) { 0 } else { 1 };
            weights.extend(g.iter().map(|(n, x)| (*n, *x * w)));
        }
        if weights.iter().all(|x| x.1 == 0) {
            weights = MUT.to_vec();
        }
        // scenario: small keys spaces (many coincidences), wider nodes
        let scenario = r.below(10);
        let (alphabet, size, depth, wide) = match scenario {
            0 => (2, 5, 2, false),
            1 | 2 => (2, 8, 4, false),
            3 | 4 => (3, 8, 3, false),
            5 => (2, 12, 6, false),
            6 => (4, 12, 3, false),
            7 => (5, 14, 4, false),
            8 => (8, 20, 2, false),
            _ => {
                if r.chance(1, 10) {
                    (*r.pick(&[40, 200, 254, 256, 256, 256]), 60, 1, true)
                } else if r.chance(1, 10) {
                    // nodes below each other
                    (2, *r.pick(&[20, 40, 70]), 0, false)
                } else {
                    (12, 14, 2, false)
                }
            }
        };
        let universe = if depth == 0 { chain(&mut r, alphabet, size) } else { universe(&mut r, alphabet, size, depth) };
        let class = if wide || r.chance(7, 10) { Class::Distinct } else { Class::Shared };
        let setup = Setup {
            codec_seed: r.next(),
            nsyms: alphabet,
            class,
            short: alphabet > 12 || depth == 0 || r.chance(1, 3),
            fault: id == "C15",
            kinds: (0..2)
                .map(|_| loop {
                    let k = *r.pick(KINDS);
                    // file stores cost time
                    if (k.starts_with("page") || k.starts_with("high")) && (wide || r.chance(1, 2)) {
                        continue;
                    }
                    break k;
                })
                .collect(),
        };
        let len = if wide { 14 } else { 10 + r.below(30) };
        Gen { r, setup, weights, universe, alphabet, wide, fault: id == "C15", att, len, queue: vec![] }
    }

    /// goes on differently, in the same world
    pub fn reseed(&mut self, setup: &Setup, seed: u64) {
        self.setup = Setup::parse(&serde_json::from_str(&setup.json()).unwrap());
        self.r = Rng::new(seed);
    }

    fn key(&mut self) -> Key {
        let mut k = self.r.pick(&self.universe).clone();
        match self.r.below(20) {
            0 | 1 => k.truncate(self.r.below(k.len() + 1)),
            2 => k.push(self.r.below(self.alphabet) as i64),
            3 => {
                k.pop();
                k.push(self.r.below(self.alphabet) as i64)
            }
            _ => {}
        }
        k
    }
    fn prefix(&mut self) -> Key {
        let mut k = self.key();
        if self.r.chance(1, 2) {
            k.truncate(self.r.below(k.len() + 1));
        }
        k
    }
    fn value(&mut self) -> i64 {
        if self.r.chance(1, 3) {
            self.r.below(3) as i64
        } else {
            self.r.below(TOKENS) as i64
        }
    }
    fn live(&mut self, m: &Mirror, f: impl Fn(&MTree) -> bool) -> Option<usize> {
        let c: Vec<usize> = (1..m.tree.len()).filter(|h| f(&m.tree[*h])).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.r.pick(&c))
        }
    }
    fn slot(&mut self, m: &Mirror) -> usize {
        // prefer free slots
        if let Some(h) = self.live(m, |t| t.kind == Kind::None) {
            if self.r.chance(2, 3) {
                return h;
            }
        }
        1 + self.r.below(HANDLES)
    }
    fn pairs(&mut self) -> Vec<Entry> {
        let mut ps = self.some_pairs();
        // records of the same size
        if self.r.chance(if self.wide { 4 } else { 1 }, 6) {
            let v = self.value();
            for p in ps.iter_mut() {
                p.1 = v;
            }
        }
        ps
    }
    fn some_pairs(&mut self) -> Vec<Entry> {
        if self.wide && self.r.chance(2, 3) {
            // every symbol, or all but a few
            let mut ks: Vec<usize> = (0..self.alphabet).collect();
            for _ in 0..*self.r.pick(&[0usize, 0, 1, 1, 2, 3]) {
                let i = if self.r.chance(1, 3) { 0 } else { self.r.below(ks.len()) };
                ks.remove(i);
            }
            return ks.into_iter().map(|k| (vec![k as i64], self.value())).collect();
        }
        if self.wide {
            let n = *self.r.pick(&[30usize, 70, 130, 260]);
            return (0..n)
                .map(|i| {
                    let k = if self.r.chance(1, 4) { self.r.below(self.alphabet) } else { i % self.alphabet };
                    (vec![k as i64], self.value())
                })
                .collect();
        }
        let n = if self.r.chance(1, 5) { self.r.below(3) } else { self.r.below(self.universe.len() + 4) };
        (0..n).map(|_| (self.key(), self.value())).collect()
    }

    /// the initial trees
    pub fn setup_ops(&mut self) -> Vec<Op> {
        let mut ops = vec![];
        let mut nver = 0;
        for g in 1..=2 + self.r.below(2) {
            ops.push(Op { name: "collect", g, ps: self.pairs(), ..Default::default() });
            if self.r.chance(self.att, 100) {
                let s = 1 + self.r.below(2);
                ops.push(Op { name: "attach", h: g, g, s, ..Default::default() });
                if self.r.chance(3, 4) {
                    ops.push(Op { name: "reattach", h: g, ..Default::default() });
                    nver += 1;
                    if self.r.chance(2, 3) {
                        ops.push(Op { name: "load", i: nver, g, ..Default::default() });
                    }
                    if self.r.chance(1, 2) {
                        // partially loaded
                        ops.push(Op { name: "insert", h: g, k: self.key(), v: self.value(), ..Default::default() });
                    }
                }
            }
        }
        for o in &mut ops {
            let t = if o.g != 0 { o.g } else { o.h };
            o.obs = vec![t];
            o.how = self.r.next() >> 32;
        }
        ops
    }

    pub fn next(&mut self, m: &Mirror) -> Option<Op> {
        if let Some(o) = self.queue.pop() {
            if valid(&o, m) {
                return Some(o);
            }
        }
        for _ in 0..50 {
            let total: usize = self.weights.iter().map(|x| x.1).sum();
            let mut x = self.r.below(total);
            let mut name = "";
            for (n, w) in &self.weights {
                if x < *w {
                    name = n;
                    break;
                }
                x -= *w;
            }
            if let Some(mut o) = self.build(name, m) {
                if !valid(&o, m) {
                    continue;
                }
                o.how = self.r.next() >> 32;
                self.observe(&mut o, m);
                if self.fault {
                    self.inject(&mut o, m);
                }
                return Some(o);
            }
        }
        None
    }

    fn inject(&mut self, o: &mut Op, m: &Mirror) {
        // a detached receiver has no way to report an error of the operand
        let h_det = m.tree.get(o.h).map(|t| t.kind == Kind::Det).unwrap_or(false);
        let inplace = matches!(o.name, "outerwith" | "innerwith" | "leftwith" | "retain" | "removewith");
        if h_det && inplace || self.r.chance(1, 3) {
            return;
        }
        let n = *self.r.pick(&[0usize, 0, 0, 1, 1, 2, 3, 4, 6, 9, 14]);
        o.fault = Some(n);
        o.sticky = self.r.chance(1, 4);
        o.obs = (1..m.tree.len()).filter(|h| m.tree[*h].kind != Kind::None || *h == o.g).collect();
        if self.r.chance(1, 2) {
            let mut again = o.clone();
            again.fault = None;
            self.queue.push(again);
        }
    }

    fn observe(&mut self, o: &mut Op, m: &Mirror) {
        let f = fields(o.name);
        let mut obs = vec![];
        if f.contains(&"g") {
            obs.push(o.g);
        } else if matches!(
            o.name,
            "insert" | "remove" | "removeprefix" | "outerwith" | "innerwith" | "leftwith" | "retain" | "removewith" | "reattach"
        ) {
            obs.push(o.h);
        }
        if self.r.chance(1, 4) {
            for h in 1..m.tree.len() {
                if (m.tree[h].kind != Kind::None && !(o.name == "drop" && o.h == h)) && !obs.contains(&h) {
                    obs.push(h);
                }
            }
        }
        o.obs = obs;
    }

    /// observes everything
    pub fn finish(&mut self, m: &Mirror) -> Vec<Op> {
        let mut r = vec![];
        for (i, it) in m.iter.iter().enumerate() {
            if let Some((_, v)) = it {
                r.push(Op { name: if *v { "viternext" } else { "iternext" }, i, n: 1000, ..Default::default() });
            }
        }
        for (i, v) in m.val.iter().enumerate() {
            if v.is_some() {
                r.push(Op { name: "valread", i, ..Default::default() });
            }
        }
        let n = m.ver.len();
        for i in 1..=n {
            if n <= 4 || self.r.chance(4, n) {
                r.push(Op { name: "load", i, g: 6, obs: vec![6], ..Default::default() });
            }
        }
        if let Some(h) = self.live(m, |t| t.kind != Kind::None) {
            let obs = (1..m.tree.len()).filter(|h| *h == 6 && n > 0 || m.tree[*h].kind != Kind::None).collect();
            if !(n > 0 && h == 6) {
                r.push(Op { name: "isempty", h, obs, ..Default::default() });
            }
        }
        r.retain(|o| o.name != "isempty" || o.h != 0);
        r
    }

    fn build(&mut self, name: &'static str, m: &Mirror) -> Option<Op> {
        if name == "shape" && self.setup.class == Class::Shared {
            return None;
        }
        let mut o = Op { name, ..Default::default() };
        let any = |t: &MTree| t.kind != Kind::None;
        for f in fields(name) {
            match *f {
                "h" => {
                    o.h = match name {
                        "attach" => self.live(m, |t| t.kind == Kind::Det)?,
                        "reattach" => self.live(m, |t| t.kind == Kind::Att)?,
                        "equal" => self.live(m, |t| t.kind == Kind::Det)?,
                        "drop" => {
                            if m.tree.iter().filter(|t| any(t)).count() < 3 {
                                return None;
                            }
                            self.live(m, any)?
                        }
                        _ => self.live(m, any)?,
                    }
                }
                "h2" => {
                    o.h2 = if name == "equal" { self.live(m, |t| t.kind == Kind::Det)? } else { self.live(m, any)? };
                    if o.h2 == o.h && self.r.chance(3, 4) {
                        return None;
                    }
                }
                "g" => {
                    o.g = self.slot(m);
                    // constructing into a used slot loses trees that took work to build
                    if matches!(name, "new" | "newatt" | "single") && any(&m.tree[o.g]) && self.r.chance(3, 4) {
                        return None;
                    }
                }
                "k" => {
                    o.k = match name {
                        "viternew" => vec![],
                        "removeprefix" | "hasprefix" | "scan" | "filter" | "firstentry" | "lastentry" | "iternew" => self.prefix(),
                        _ => self.key(),
                    };
                    if (name == "remove" || name == "get" || name == "valtake") && self.r.chance(1, 2) {
                        let ks: Vec<&Key> = m.tree[o.h].map.keys().collect();
                        if !ks.is_empty() {
                            o.k = (*self.r.pick(&ks)).clone();
                        }
                    }
                    if name == "removeprefix" && o.k.len() < 2 && self.r.chance(1, 2) {
                        o.k = self.key();
                    }
                }
                "sub" => o.sub = self.prefix(),
                "v" => o.v = self.value(),
                "st_" => o.s = 1 + self.r.below(2),
                "f" => o.f = *self.r.pick(COMBINERS),
                "p" => o.f = if matches!(name, "retain" | "removewith") { *self.r.pick(PRED1) } else { *self.r.pick(PRED2) },
                "d" => {
                    o.f = if self.fault || self.setup.class == Class::Shared { *self.r.pick(&["always", "never"]) } else { *self.r.pick(DESCEND) }
                }
                "ps" => o.ps = self.pairs(),
                "n" => o.n = self.r.below(5),
                "i" => match name {
                    "load" => {
                        if m.ver.is_empty() {
                            return None;
                        }
                        o.i = 1 + self.r.below(m.ver.len());
                    }
                    "grouptake" => {
                        let n = groups(&m.tree[o.h].map, o.f).0.len();
                        if n == 0 {
                            return None;
                        }
                        o.i = 1 + self.r.below(n);
                    }
                    "iternew" | "viternew" => o.i = 1 + self.r.below(ITERS),
                    "iternext" => {
                        o.i = 1 + self.r.below(ITERS);
                        if let Some((_, true)) = m.iter[o.i] {
                            o.name = "viternext";
                        }
                    }
                    _ => o.i = 1 + self.r.below(VALS),
                },
                _ => unreachable!(),
            }
        }
        if name == "equal" && self.r.chance(2, 3) {
            // the same content, built in another way
            let mut ps = entries(&m.tree[o.h].map);
            for i in (1..ps.len()).rev() {
                let j = self.r.below(i + 1);
                ps.swap(i, j);
            }
            if self.r.chance(1, 4) && !ps.is_empty() {
                let i = self.r.below(ps.len());
                ps[i].1 = self.value();
            }
            let g = self.slot(m);
            if g != o.h {
                self.queue.push(Op { name: "equal", h: o.h, h2: g, ..Default::default() });
                return Some(Op { name: "collect", g, ps, ..Default::default() });
            }
        }
        Some(o)
    }
}

/// the operation can be executed in this state
pub fn valid(o: &Op, m: &Mirror) -> bool {
    let f = fields(o.name);
    let kind = |h: usize| m.tree[h].kind;
    if f.contains(&"h") && kind(o.h) == Kind::None || f.contains(&"h2") && kind(o.h2) == Kind::None {
        return false;
    }
    // a detached receiver has no way to report an error of the operand
    if o.fault.is_some()
        && kind(o.h) == Kind::Det
        && matches!(o.name, "outerwith" | "innerwith" | "leftwith" | "retain" | "removewith")
    {
        return false;
    }
    (match o.name {
        "attach" => kind(o.h) == Kind::Det,
        "reattach" => kind(o.h) == Kind::Att,
        "equal" => kind(o.h) == Kind::Det && kind(o.h2) == Kind::Det,
        "load" => o.i >= 1 && o.i <= m.ver.len(),
        "grouptake" => o.i >= 1 && o.i <= groups(&m.tree[o.h].map, o.f).0.len(),
        "iternext" => matches!(m.iter[o.i], Some((_, false))),
        "viternext" => matches!(m.iter[o.i], Some((_, true))),
        "valread" => m.val[o.i].is_some(),
        "shape" => true,
        _ => true,
    }) && o.obs.iter().all(|h| kind(*h) != Kind::None || *h == o.g)
}
