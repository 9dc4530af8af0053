//! Operations of the specification RadixMap: arguments and JSON form.
use crate::util::*;
use serde_json::Value as J;

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub name: &'static str,
    pub h: usize,
    pub g: usize,
    pub h2: usize,
    pub i: usize,
    pub n: usize,
    pub s: usize,
    pub k: Key,
    pub sub: Key,
    pub v: i64,
    pub f: &'static str,
    pub ps: Vec<Entry>,
    /// variant: which of several equivalent ways to use the API
    pub how: u64,
    /// handles observed after the operation
    pub obs: Vec<usize>,
    /// inject a store failure after so many calls
    pub fault: Option<usize>,
    pub sticky: bool,
}

pub const COMBINERS: &[&str] = &["left", "right", "none", "sum", "diff", "odd", "zero"];
pub const PRED1: &[&str] = &["true", "false", "odd", "even"];
pub const PRED2: &[&str] = &["true", "false", "eq", "ne", "lt"];
pub const DESCEND: &[&str] = &["always", "never", "short", "even", "lastodd"];

/// the argument fields of the event of an operation
pub fn fields(name: &str) -> &'static [&'static str] {
    match name {
        "new" => &["g"],
        "newatt" => &["g", "st_"],
        "single" => &["g", "k", "v"],
        "collect" => &["g", "ps"],
        "clone" | "detach" => &["h", "g"],
        "drop" | "isempty" | "iterate" | "values" | "firstvalue" | "lastvalue" | "shape" | "show" | "reattach" => &["h"],
        "insert" => &["h", "k", "v"],
        "remove" | "removeprefix" | "get" | "contains" | "hasprefix" | "scan" | "firstentry" | "lastentry" => &["h", "k"],
        "filter" => &["h", "k", "sub", "g"],
        "groupby" => &["h", "d"],
        "grouptake" => &["h", "d", "i", "g"],
        "outer" | "inner" | "left" => &["h", "h2", "f", "g"],
        "outerwith" | "innerwith" | "leftwith" => &["h", "h2", "f"],
        "innerpred" | "leftpred" | "retain" | "removewith" => &["h", "h2", "p"],
        "equal" => &["h", "h2"],
        "attach" => &["h", "st_", "g"],
        "load" => &["i", "g"],
        "iternew" | "viternew" => &["h", "i", "k"],
        "iternext" | "viternext" => &["i", "n"],
        "valtake" => &["h", "k", "i"],
        "valread" => &["i"],
        x => panic!("unknown op {x}"),
    }
}

pub const NAMES: &[&str] = &[
    "new", "newatt", "single", "collect", "clone", "detach", "drop", "isempty", "iterate", "values", "firstvalue",
    "lastvalue", "shape", "show", "reattach", "insert", "remove", "removeprefix", "get", "contains", "hasprefix", "scan",
    "firstentry", "lastentry", "filter", "groupby", "grouptake", "outer", "inner", "left", "outerwith", "innerwith",
    "leftwith", "innerpred", "leftpred", "retain", "removewith", "equal", "attach", "load", "iternew", "viternew",
    "iternext", "viternext", "valtake", "valread",
];

pub fn intern(x: &str) -> &'static str {
    for l in [NAMES, COMBINERS, PRED1, PRED2, DESCEND] {
        if let Some(r) = l.iter().find(|y| **y == x) {
            return r;
        }
    }
    panic!("unknown name {x}")
}

impl Op {
    pub fn args(&self) -> String {
        let mut r = format!("\"op\":{}", jstr(self.name));
        for f in fields(self.name) {
            let v = match *f {
                "h" => self.h.to_string(),
                "g" => self.g.to_string(),
                "h2" => self.h2.to_string(),
                "i" => self.i.to_string(),
                "n" => self.n.to_string(),
                "st_" => self.s.to_string(),
                "k" => jkey(&self.k),
                "sub" => jkey(&self.sub),
                "v" => self.v.to_string(),
                "f" | "p" | "d" => jstr(self.f),
                "ps" => jentries(&self.ps),
                _ => unreachable!(),
            };
            let f = match *f {
                "st_" | "sub" => "s",
                f => f,
            };
            r.push_str(&format!(",\"{f}\":{v}"));
        }
        r
    }
    /// the full form, for replay files
    pub fn full(&self) -> String {
        format!(
            "{{{},\"how\":{},\"obs\":{:?},\"fault\":{},\"sticky\":{}}}",
            self.args(),
            self.how,
            self.obs,
            self.fault.map(|x| x as i64).unwrap_or(-1),
            self.sticky
        )
    }
    pub fn parse(j: &J) -> Op {
        let u = |f: &str| j[f].as_u64().unwrap_or(0) as usize;
        let key = |x: &J| -> Key { x.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() };
        let name = intern(j["op"].as_str().unwrap());
        let mut o = Op { name, h: u("h"), g: u("g"), h2: u("h2"), i: u("i"), n: u("n"), k: key(&j["k"]), ..Default::default() };
        if name == "filter" {
            o.sub = key(&j["s"]);
        } else {
            o.s = u("s");
        }
        o.v = j["v"].as_i64().unwrap_or(0);
        for f in ["f", "p", "d"] {
            if let Some(x) = j[f].as_str() {
                o.f = intern(x);
            }
        }
        if let Some(ps) = j["ps"].as_array() {
            o.ps = ps.iter().map(|p| (key(&p[0]), p[1].as_i64().unwrap())).collect();
        }
        o.how = j["how"].as_u64().unwrap_or(0);
        o.obs = j["obs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
        o.fault = j["fault"].as_i64().filter(|x| *x >= 0).map(|x| x as usize);
        o.sticky = j["sticky"].as_bool().unwrap_or(false);
        o
    }
}

/// Result of an operation, in the form of the specification
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Unit,
    Bool(bool),
    Int(i64),
    Entries(Vec<Entry>),
    Values(Vec<i64>),
    Groups(Vec<Vec<Entry>>, Vec<Key>),
    /// the calls of a combiner
    Calls(Vec<(i64, i64)>),
    Shape(bool, Key, i64),
}
pub fn jpairs(c: &[(i64, i64)]) -> String {
    jlist(c.iter().map(|(a, b)| format!("[{a},{b}]")))
}
impl Res {
    pub fn json(&self) -> String {
        match self {
            Res::Unit => "[]".into(),
            Res::Bool(b) => b.to_string(),
            Res::Int(i) => i.to_string(),
            Res::Entries(e) => jentries(e),
            Res::Values(v) => jkey(v),
            Res::Groups(g, a) => format!("[{},{}]", jlist(g.iter().map(|x| jentries(x))), jlist(a.iter().map(|k| jkey(k)))),
            Res::Calls(c) => jpairs(c),
            Res::Shape(l, k, v) => format!("[{},{},{}]", *l as i64, jkey(k), v),
        }
    }
}
