//! Runs operations on the real code and records what happens.
use crate::codec::*;
use crate::op::*;
use crate::store::TS;
use crate::util::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::RadixTree;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R<T> = anyhow::Result<T>;

#[derive(Clone)]
pub enum Tree {
    None,
    Det(RadixTree),
    Att(RadixTree<TS>, usize),
}

/// The API that is common to detached and attached trees, with all errors as anyhow errors
pub trait St: BlobStore + Clone {
    fn up<T>(r: Result<T, Self::Error>) -> R<T>;
    fn down<T>(r: R<T>) -> Result<T, Self::Error>;
    fn wrap(t: RadixTree<Self>, s: usize) -> Tree
    where
        Self: Sized;
    /// called in callbacks; fails when they are to fail and can
    fn probe() -> Result<(), Self::Error>;
}

#[derive(Default, Clone, Copy)]
struct Callbacks {
    fail_in: Option<usize>,
    sticky: bool,
    hit: bool,
}
thread_local! {
    static CALLBACKS: std::cell::Cell<Callbacks> = Default::default();
}
fn callback() -> R<()> {
    let mut c = CALLBACKS.get();
    if let Some(n) = c.fail_in {
        let fail = n == 0;
        c.hit |= fail;
        c.fail_in = if fail && !c.sticky { None } else { Some(n.saturating_sub(1)) };
        CALLBACKS.set(c);
        anyhow::ensure!(!fail, "injected failure of a callback");
    }
    Ok(())
}
impl St for Detached {
    fn up<T>(r: Result<T, NoError>) -> R<T> {
        Ok(r.unwrap())
    }
    fn down<T>(r: R<T>) -> Result<T, NoError> {
        Ok(r.unwrap())
    }
    fn wrap(t: RadixTree, _: usize) -> Tree {
        Tree::Det(t)
    }
    fn probe() -> Result<(), NoError> {
        Ok(())
    }
}
impl St for TS {
    fn up<T>(r: Result<T, anyhow::Error>) -> R<T> {
        r
    }
    fn down<T>(r: R<T>) -> Result<T, anyhow::Error> {
        r
    }
    fn wrap(t: RadixTree<TS>, s: usize) -> Tree {
        Tree::Att(t, s)
    }
    fn probe() -> R<()> {
        callback()
    }
}

fn tok<S: St>(v: &ValueRef<S>, s: &S, c: &Codec) -> R<i64> {
    Ok(c.unval(&S::up(v.to_owned().load(s))?))
}
fn tokv<S: St>(v: &Value<S>, s: &S, c: &Codec) -> R<i64> {
    Ok(c.unval(&S::up(v.load(s))?))
}

pub enum Item {
    D(Value<Detached>),
    A(Value<TS>, TS),
}
impl Item {
    fn tok(&self, c: &Codec) -> R<i64> {
        match self {
            Item::D(v) => tokv(v, &Detached, c),
            Item::A(v, s) => tokv(v, s, c),
        }
    }
}
type KvIter = Box<dyn Iterator<Item = R<(Option<IterKey>, Item)>>>;

pub struct Interp<'a> {
    pub c: &'a Codec,
    pub stores: Vec<TS>,
    pub tree: Vec<Tree>,
    pub iter: Vec<Option<KvIter>>,
    pub val: Vec<Option<Option<Item>>>,
    pub ver: Vec<(usize, Vec<u8>)>,
    /// record the paths that group_by asks for
    pub asked: bool,
}

pub struct Outcome {
    pub st: &'static str,
    pub res: Res,
    pub calls: Vec<(i64, i64)>,
    /// items an iterator delivered after it reported an error
    pub after: usize,
    pub hit: bool,
    pub msg: String,
    pub reads: usize,
    pub writes: usize,
    pub attempted: usize,
}

fn mk<S: St>(c: &Codec, t: i64) -> RadixTree<Detached> {
    let _ = std::marker::PhantomData::<S>;
    RadixTree::leaf(c.val(t))
}

/// the entries of a tree; on failure the entries up to it, and the number of items after it
fn list<S: St>(it: impl Iterator<Item = Result<(IterKey, Value<S>), S::Error>>, s: &S, c: &Codec) -> (Vec<Entry>, R<()>, usize) {
    let mut raw = vec![];
    let mut err = Ok(());
    let mut after = 0;
    for x in it {
        if err.is_err() {
            after += 1;
            continue;
        }
        match S::up(x) {
            Ok(x) => raw.push(x),
            Err(e) => err = Err(e),
        }
    }
    let mut r = vec![];
    for (k, v) in raw {
        match tokv(&v, s, c) {
            Ok(t) => r.push((c.unkey(&k), t)),
            Err(e) => return (r, Err(e), after),
        }
    }
    (r, err, after)
}

pub fn observe(t: &Tree, c: &Codec) -> (Vec<Entry>, R<()>) {
    match t {
        Tree::None => (vec![], Err(anyhow::anyhow!("no tree"))),
        Tree::Det(t) => {
            let (e, r, _) = list(t.try_iter(), &Detached, c);
            (e, r)
        }
        Tree::Att(t, _) => {
            let (e, r, _) = list(t.try_iter(), RadixTree::store(t), c);
            (e, r)
        }
    }
}

macro_rules! with {
    ($t:expr, $x:ident, $s:ident, $body:expr) => {
        match $t {
            Tree::None => anyhow::bail!("harness: no tree"),
            Tree::Det($x) => {
                let $s = 0usize;
                let _ = $s;
                $body
            }
            Tree::Att($x, s_) => {
                let $s = *s_;
                let _ = $s;
                $body
            }
        }
    };
}

fn opt1<T>(x: Option<T>, f: impl FnOnce(T) -> R<i64>) -> R<Res> {
    Ok(Res::Int(match x {
        Some(x) => f(x)?,
        None => -1,
    }))
}

/// the result of the combiner f as a new value
fn comb(f: &str, x: i64, y: i64, c: &Codec) -> Option<Value> {
    crate::mirror::combiner(f, x, y).map(|t| RadixTree::leaf(c.val(t)).value().unwrap().to_owned())
}

type CallLog = RefCell<Vec<(i64, i64)>>;

fn fcomb<A: St, B: St>(a: &RadixTree<A>, b: &RadixTree<B>, o: &Op, c: &Codec, log: &CallLog) -> R<RadixTree>
where
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let f = |x: &ValueRef<A>, y: &ValueRef<B>| -> R<Option<Value>> {
        crate::heap::tick();
        callback()?;
        let (x, y) = (tok(x, sa, c)?, tok(y, sb, c)?);
        log.borrow_mut().push((x, y));
        Ok(comb(o.f, x, y, c))
    };
    match o.name {
        "outer" => a.try_outer_combine::<B, anyhow::Error, _>(b, f),
        "inner" => a.try_inner_combine::<B, anyhow::Error, _>(b, f),
        _ => a.try_left_combine::<B, anyhow::Error, _>(b, f),
    }
}

fn fpred<A: St, B: St>(a: &RadixTree<A>, b: &RadixTree<B>, o: &Op, c: &Codec, log: &CallLog) -> R<bool>
where
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let f = |x: &ValueRef<A>, y: &ValueRef<B>| -> R<bool> {
        crate::heap::tick();
        callback()?;
        let (x, y) = (tok(x, sa, c)?, tok(y, sb, c)?);
        log.borrow_mut().push((x, y));
        Ok(crate::mirror::pred2(o.f, x, y))
    };
    if o.name == "innerpred" {
        a.try_inner_combine_pred::<B, anyhow::Error, _>(b, f)
    } else {
        a.try_left_combine_pred::<B, anyhow::Error, _>(b, f)
    }
}

/// in place combination; `direct` stores the right value without decoding it
fn icomb<A: St, B: St, C: NodeConverter<B, A> + Clone>(
    a: &mut RadixTree<A>,
    b: &RadixTree<B>,
    conv: C,
    o: &Op,
    c: &Codec,
    log: &CallLog,
    direct: impl Fn(&mut Value<A>, &ValueRef<B>) -> bool + Copy,
) -> R<()>
where
    A::Error: From<B::Error> + From<NoError>,
{
    let (sa, sb) = (RadixTree::store(a).clone(), RadixTree::store(b));
    let sa = &sa;
    let f = |x: &mut Value<A>, y: &ValueRef<B>| -> Result<(), A::Error> {
        crate::heap::tick();
        A::probe()?;
        let (tx, ty) = A::down((|| Ok((tokv(x, sa, c)?, tok(y, sb, c)?)))())?;
        log.borrow_mut().push((tx, ty));
        if o.how & 0x30 == 0 {
            // what counts is what is set last
            match o.how >> 6 & 3 {
                0 => x.set(None),
                1 => x.set(Some(mk::<A>(c, ty).value().unwrap().downcast::<A>())),
                _ => x.set(Some(mk::<A>(c, tx).value().unwrap().downcast::<A>())),
            }
        }
        match crate::mirror::combiner(o.f, tx, ty) {
            None => x.set(None),
            Some(t) => {
                if o.f == "left" && o.how & 1 == 0 && o.how & 0x30 != 0 {
                    // untouched
                } else if o.f == "right" && direct(x, y) {
                } else {
                    let t = mk::<A>(c, t);
                    x.set(Some(t.value().unwrap().downcast::<A>()));
                }
            }
        }
        Ok(())
    };
    A::up(match o.name {
        "outerwith" => a.try_outer_combine_with(b, conv, f),
        "innerwith" => a.try_inner_combine_with(b, conv, f),
        _ => a.try_left_combine_with(b, conv, f),
    })
}

fn prune<A: St, B: St>(a: &mut RadixTree<A>, b: &RadixTree<B>, o: &Op, c: &Codec) -> R<()>
where
    A::Error: From<B::Error> + From<NoError>,
{
    let sb = RadixTree::store(b);
    let f = |y: &ValueRef<B>| -> Result<bool, A::Error> {
        crate::heap::tick();
        A::probe()?;
        A::down(tok(y, sb, c).map(|y| crate::mirror::pred1_op(o, y)))
    };
    A::up(if o.name == "retain" { a.try_retain_prefix_with(b, f) } else { a.try_remove_prefix_with(b, f) })
}

fn group<S: St>(t: &RadixTree<S>, o: &Op, c: &Codec, s: usize) -> (Vec<Tree>, Vec<Key>, R<()>, usize)
where
    S::Error: std::fmt::Debug,
{
    let asked = RefCell::new(vec![]);
    let mut gs = vec![];
    let mut err = Ok(());
    let mut after = 0;
    {
        let f = |p: &[u8], _: &TreeNodeRef<S>| -> Result<bool, S::Error> {
            crate::heap::tick();
            S::probe()?;
            let k = c.unkey(p);
            let r = crate::mirror::descend_op(o, &k);
            asked.borrow_mut().push(k);
            Ok(r)
        };
        for g in t.try_group_by(f) {
            if err.is_err() {
                after += 1;
                continue;
            }
            match S::up(g) {
                Ok(g) => gs.push(S::wrap(g, s)),
                Err(e) => err = Err(e),
            }
        }
    }
    (gs, asked.into_inner(), err, after)
}

/// prints what there is to print of a tree
fn look<S: St>(t: &RadixTree<S>) -> R<()> {
    let nodes = RefCell::new(String::new());
    let f = |p: &[u8], n: &TreeNodeRef<S>| -> Result<bool, S::Error> {
        nodes.borrow_mut().push_str(&format!("{p:?} {n:?}"));
        Ok(true)
    };
    for x in t.try_group_by(f) {
        S::up(x)?;
    }
    let s = format!("{:?} {:?} {:?} {}", t.prefix(), t.value(), RadixTree::store(t), nodes.into_inner());
    anyhow::ensure!(!s.is_empty());
    Ok(())
}

/// runs f with the standard output discarded
fn quietly<T>(f: impl FnOnce() -> T) -> T {
    use std::io::Write;
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    struct Restore(i32);
    impl Drop for Restore {
        fn drop(&mut self) {
            let _ = std::io::stdout().flush();
            unsafe {
                libc::dup2(self.0, 1);
                libc::close(self.0);
            }
        }
    }
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _ = std::io::stdout().flush();
    let _restore = unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        let old = libc::dup(1);
        if null < 0 || old < 0 {
            panic!("harness: cannot redirect the output");
        }
        libc::dup2(null, 1);
        libc::close(null);
        Restore(old)
    };
    f()
}

fn pick2<'x>(v: &'x mut [Tree], h: usize, h2: usize) -> (&'x mut Tree, Tree) {
    // the operand is a clone (sharing all structure), so that both may be the same tree
    let b = v[h2].clone();
    (&mut v[h], b)
}

impl<'a> Interp<'a> {
    pub fn new(c: &'a Codec, stores: Vec<TS>, handles: usize, iters: usize, vals: usize) -> Self {
        Interp {
            c,
            stores,
            tree: (0..=handles).map(|_| Tree::None).collect(),
            iter: (0..=iters).map(|_| None).collect(),
            val: (0..=vals).map(|_| None).collect(),
            ver: vec![],
            asked: c.class == Class::Distinct,
        }
    }

    pub fn exec(&mut self, o: &Op) -> Outcome {
        let log: CallLog = Default::default();
        let after = RefCell::new(0);
        // callbacks fail instead of the store
        let callbacks = o.how & 0x3000 == 0
            && matches!(
                o.name,
                "outer" | "inner" | "left" | "outerwith" | "innerwith" | "leftwith" | "innerpred" | "leftpred" | "retain" | "removewith"
                    | "groupby" | "grouptake"
            );
        CALLBACKS.set(Callbacks { fail_in: o.fault.filter(|_| callbacks), sticky: o.sticky, hit: false });
        for s in &self.stores {
            let mut st = s.0.stat.lock().unwrap();
            st.reads.clear();
            st.writes.clear();
            st.calls = 0;
            st.hit = 0;
            st.fail_in = o.fault.filter(|_| !callbacks);
            st.sticky = o.sticky;
        }
        let r = catch_unwind(AssertUnwindSafe(|| self.run(o, &log, &after)));
        let (mut hit, mut reads, mut writes, mut attempted) = (CALLBACKS.get().hit, 0, 0, 0);
        CALLBACKS.set(Callbacks::default());
        for s in &self.stores {
            let mut st = s.0.stat.lock().unwrap();
            st.fail_in = None;
            hit |= st.hit > 0;
            reads += st.reads.len();
            writes += st.writes.len();
            attempted += st.calls;
        }
        let mut out = Outcome {
            st: "ok",
            res: Res::Unit,
            calls: vec![],
            after: *after.borrow(),
            hit,
            msg: String::new(),
            reads,
            writes,
            attempted,
        };
        match r {
            Ok((res, Ok(()))) => out.res = res,
            Ok((res, Err(e))) => {
                out.st = "err";
                out.res = res;
                out.msg = format!("{e:#}");
            }
            Err(p) => {
                out.st = "panic";
                out.msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
            }
        }
        let log = log.into_inner();
        if matches!(o.name, "innerpred" | "leftpred") {
            out.calls = log;
        } else if matches!(o.name, "outer" | "inner" | "left" | "outerwith" | "innerwith" | "leftwith") {
            out.res = Res::Calls(log);
        }
        out
    }

    fn run(&mut self, o: &Op, log: &CallLog, after: &RefCell<usize>) -> (Res, R<()>) {
        let mut partial = Res::Unit;
        match self.run0(o, log, after, &mut partial) {
            Ok(r) => (r, Ok(())),
            Err(e) => (partial, Err(e)),
        }
    }

    fn run0(&mut self, o: &Op, log: &CallLog, after: &RefCell<usize>, partial: &mut Res) -> R<Res> {
        let c = self.c;
        let (h, g) = (o.h, o.g);
        let k = c.key(&o.k);
        Ok(match o.name {
            "new" => {
                self.tree[g] = Tree::Det(if o.how & 1 == 0 { RadixTree::default() } else { RadixTree::empty(Detached) });
                Res::Unit
            }
            "newatt" => {
                let s = self.stores[o.s - 1].clone();
                let t = if o.how & 1 == 0 { RadixTree::empty(s) } else { RadixTree::try_load(s, None::<Vec<u8>>)? };
                self.tree[g] = Tree::Att(t, o.s);
                Res::Unit
            }
            "single" => {
                let t = if o.k.is_empty() && o.how & 1 == 0 {
                    RadixTree::leaf(c.val(o.v))
                } else {
                    RadixTree::single(k, c.val(o.v))
                };
                self.tree[g] = Tree::Det(t);
                Res::Unit
            }
            "collect" => {
                let p: Vec<_> = o.ps.iter().map(|(k, v)| (c.key(k), c.val(*v))).collect();
                let t: RadixTree = match &p[..] {
                    [a, b] if o.how & 1 == 0 => radixdb::radixtree! { a.0 => a.1, b.0 => b.1 },
                    [a, b, d] if o.how & 1 == 0 => radixdb::radixtree! { a.0 => a.1, b.0 => b.1, d.0 => d.1, },
                    _ => p.into_iter().collect(),
                };
                self.tree[g] = Tree::Det(t);
                Res::Unit
            }
            "clone" => {
                self.tree[g] = self.tree[h].clone();
                Res::Unit
            }
            "drop" => {
                self.tree[h] = Tree::None;
                Res::Unit
            }
            "insert" => {
                let v = c.val(o.v);
                match &mut self.tree[h] {
                    Tree::Det(t) if o.how & 8 == 0 => t.insert(k, v),
                    Tree::Det(t) => t.try_insert(k, v)?,
                    Tree::Att(t, _) => t.try_insert(k, v)?,
                    Tree::None => anyhow::bail!("harness"),
                }
                Res::Unit
            }
            "remove" => {
                match &mut self.tree[h] {
                    Tree::Det(t) if o.how & 8 == 0 => t.remove(k),
                    Tree::Det(t) => t.try_remove(k)?,
                    Tree::Att(t, _) => t.try_remove(k)?,
                    Tree::None => anyhow::bail!("harness"),
                }
                Res::Unit
            }
            "removeprefix" => {
                match &mut self.tree[h] {
                    Tree::Det(t) if o.how & 8 == 0 => t.remove_prefix(k),
                    Tree::Det(t) => t.try_remove_prefix(k)?,
                    Tree::Att(t, _) => t.try_remove_prefix(k)?,
                    Tree::None => anyhow::bail!("harness"),
                }
                Res::Unit
            }
            "get" => match &self.tree[h] {
                Tree::Det(t) => opt1(if o.how & 8 == 0 { t.get(k) } else { t.try_get(k)? }, |v| match o.how % 3 {
                    0 => Ok(c.unval(&v)),
                    1 => Ok(c.unval(v.as_ref())),
                    _ => tokv(&v, &Detached, c),
                })?,
                Tree::Att(t, _) => opt1(t.try_get(k)?, |v| tokv(&v, RadixTree::store(t), c))?,
                Tree::None => anyhow::bail!("harness"),
            },
            "contains" => Res::Bool(match &self.tree[h] {
                Tree::Det(t) if o.how & 8 == 0 => t.contains_key(k),
                Tree::Det(t) => t.try_contains_key(k)?,
                Tree::Att(t, _) => t.try_contains_key(k)?,
                Tree::None => anyhow::bail!("harness"),
            }),
            "isempty" => with!(&self.tree[h], t, _s, Res::Bool(t.is_empty())),
            "iterate" | "scan" => {
                let (e, r, n) = match &self.tree[h] {
                    Tree::Det(t) => {
                        match (o.name == "iterate", o.how & 8 == 0) {
                            (true, true) => list(t.iter().map(Ok), &Detached, c),
                            (true, false) => list(t.try_iter(), &Detached, c),
                            (false, true) => list(t.scan_prefix(k).map(Ok), &Detached, c),
                            (false, false) => list(t.try_scan_prefix(k)?, &Detached, c),
                        }
                    }
                    Tree::Att(t, _) => {
                        if o.name == "iterate" {
                            list(t.try_iter(), RadixTree::store(t), c)
                        } else {
                            list(t.try_scan_prefix(k)?, RadixTree::store(t), c)
                        }
                    }
                    Tree::None => anyhow::bail!("harness"),
                };
                *after.borrow_mut() = n;
                *partial = Res::Entries(e.clone());
                r?;
                Res::Entries(e)
            }
            "values" => {
                let mut r = vec![];
                match &self.tree[h] {
                    Tree::Det(t) => {
                        if o.how & 8 == 0 {
                            for v in t.values() {
                                r.push(tokv(&v, &Detached, c)?);
                            }
                        } else {
                            for v in t.try_values() {
                                r.push(tokv(&v?, &Detached, c)?);
                            }
                        }
                    }
                    Tree::Att(t, _) => {
                        let mut err = Ok(());
                        let mut raw = vec![];
                        for v in t.try_values() {
                            match v {
                                _ if err.is_err() => *after.borrow_mut() += 1,
                                Ok(v) => raw.push(v),
                                Err(e) => err = Err(e),
                            }
                        }
                        for v in raw {
                            match tokv(&v, RadixTree::store(t), c) {
                                Ok(x) => r.push(x),
                                Err(e) => {
                                    err = Err(e);
                                    break;
                                }
                            }
                        }
                        *partial = Res::Values(r.clone());
                        err?;
                    }
                    Tree::None => anyhow::bail!("harness"),
                }
                Res::Values(r)
            }
            "hasprefix" => Res::Bool(match &self.tree[h] {
                Tree::Det(t) if o.how & 8 == 0 => t.has_prefix(k),
                Tree::Det(t) => t.try_has_prefix(k)?,
                Tree::Att(t, _) => t.try_has_prefix(k)?,
                Tree::None => anyhow::bail!("harness"),
            }),
            "filter" => {
                let s = c.key(&o.sub);
                self.tree[g] = match &self.tree[h] {
                    Tree::Det(t) if o.how & 8 == 0 => Tree::Det(t.filter_prefix(k, s)),
                    Tree::Det(t) => Tree::Det(t.try_filter_prefix(k, s)?),
                    Tree::Att(t, i) => Tree::Att(t.try_filter_prefix(k, s)?, *i),
                    Tree::None => anyhow::bail!("harness"),
                };
                Res::Unit
            }
            "firstentry" | "lastentry" => {
                let first = o.name == "firstentry";
                let e = match &self.tree[h] {
                    Tree::Det(t) => match match (first, o.how & 8 == 0) {
                        (true, true) => t.first_entry(k),
                        (true, false) => t.try_first_entry(k)?,
                        (false, true) => t.last_entry(k),
                        (false, false) => t.try_last_entry(k)?,
                    } {
                        Some((k, v)) => vec![(c.unkey(&k), tokv(&v, &Detached, c)?)],
                        None => vec![],
                    },
                    Tree::Att(t, _) => match if first { t.try_first_entry(k)? } else { t.try_last_entry(k)? } {
                        Some((k, v)) => vec![(c.unkey(&k), tokv(&v, RadixTree::store(t), c)?)],
                        None => vec![],
                    },
                    Tree::None => anyhow::bail!("harness"),
                };
                Res::Entries(e)
            }
            "firstvalue" | "lastvalue" => {
                let first = o.name == "firstvalue";
                match &self.tree[h] {
                    Tree::Det(t) => {
                        let v = match (first, o.how & 8 == 0) {
                            (true, true) => t.first_value(),
                            (true, false) => t.try_first_value()?,
                            (false, true) => t.last_value(),
                            (false, false) => t.try_last_value()?,
                        };
                        opt1(v, |v| tokv(&v, &Detached, c))?
                    }
                    Tree::Att(t, _) => opt1(if first { t.try_first_value()? } else { t.try_last_value()? }, |v| {
                        tokv(&v, RadixTree::store(t), c)
                    })?,
                    Tree::None => anyhow::bail!("harness"),
                }
            }
            "groupby" | "grouptake" => {
                let (gs, asked, r, n) = match &self.tree[h] {
                    // the infallible API
                    Tree::Det(t) if o.how & 1 == 0 => {
                        let asked = RefCell::new(vec![]);
                        let f = |p: &[u8], _: &TreeNodeRef| {
                            crate::heap::tick();
                            let k = c.unkey(p);
                            let r = crate::mirror::descend_op(o, &k);
                            asked.borrow_mut().push(k);
                            r
                        };
                        let gs = t.group_by(f).map(Tree::Det).collect();
                        (gs, asked.into_inner(), Ok(()), 0)
                    }
                    t => with!(t, t, s, group(t, o, c, s)),
                };
                *after.borrow_mut() = n;
                if o.name == "grouptake" {
                    r?;
                    // groups without entries do not count
                    let mut nonempty = vec![];
                    for g in gs {
                        let (e, r) = observe(&g, c);
                        r?;
                        if !e.is_empty() {
                            nonempty.push(g);
                        }
                    }
                    let mut gs = nonempty;
                    anyhow::ensure!(o.i <= gs.len(), "too few groups");
                    self.tree[g] = gs.swap_remove(o.i - 1);
                    Res::Unit
                } else {
                    let mut es = vec![];
                    let mut err = r;
                    for g in &gs {
                        let (e, r) = observe(g, c);
                        if let Err(e) = r {
                            err = Err(e);
                            break;
                        }
                        es.push(e);
                    }
                    let asked = if self.asked { asked } else { vec![] };
                    *partial = Res::Groups(es.clone(), asked.clone());
                    err?;
                    Res::Groups(es, asked)
                }
            }
            "outer" | "inner" | "left" => {
                let (a, b) = (&self.tree[h], &self.tree[o.h2]);
                let t = match (a, b) {
                    (Tree::Det(a), Tree::Det(b)) if o.how & 1 == 0 => {
                        // the infallible API
                        let f = |x: &ValueRef, y: &ValueRef| -> Option<Value> {
                            let (x, y) = (c.unval(x.data().unwrap()), c.unval(y.data().unwrap()));
                            log.borrow_mut().push((x, y));
                            comb(o.f, x, y, c)
                        };
                        match o.name {
                            "outer" => a.outer_combine(b, f),
                            "inner" => a.inner_combine(b, f),
                            _ => a.left_combine(b, f),
                        }
                    }
                    (Tree::Det(a), Tree::Det(b)) => fcomb(a, b, o, c, log)?,
                    (Tree::Det(a), Tree::Att(b, _)) => fcomb(a, b, o, c, log)?,
                    (Tree::Att(a, _), Tree::Det(b)) => fcomb(a, b, o, c, log)?,
                    (Tree::Att(a, _), Tree::Att(b, _)) => fcomb(a, b, o, c, log)?,
                    _ => anyhow::bail!("harness"),
                };
                self.tree[g] = Tree::Det(t);
                Res::Unit
            }
            "innerpred" | "leftpred" => Res::Bool(match (&self.tree[h], &self.tree[o.h2]) {
                (Tree::Det(a), Tree::Det(b)) if o.how & 1 == 0 => {
                    let f = |x: &ValueRef, y: &ValueRef| -> bool {
                        let (x, y) = (c.unval(x.data().unwrap()), c.unval(y.data().unwrap()));
                        log.borrow_mut().push((x, y));
                        crate::mirror::pred2(o.f, x, y)
                    };
                    if o.name == "innerpred" {
                        a.inner_combine_pred(b, f)
                    } else {
                        a.left_combine_pred(b, f)
                    }
                }
                (Tree::Det(a), Tree::Det(b)) => fpred(a, b, o, c, log)?,
                (Tree::Det(a), Tree::Att(b, _)) => fpred(a, b, o, c, log)?,
                (Tree::Att(a, _), Tree::Det(b)) => fpred(a, b, o, c, log)?,
                (Tree::Att(a, _), Tree::Att(b, _)) => fpred(a, b, o, c, log)?,
                _ => anyhow::bail!("harness"),
            }),
            "outerwith" | "innerwith" | "leftwith" => {
                let (a, b) = pick2(&mut self.tree, h, o.h2);
                match (a, &b) {
                    (Tree::Det(a), Tree::Det(b)) => {
                        let d = |x: &mut Value, y: &ValueRef| {
                            x.set(Some(y));
                            true
                        };
                        match o.how % 4 {
                            0 => icomb(a, b, DowncastConverter, o, c, log, d)?,
                            1 => icomb(a, b, IdentityConverter, o, c, log, d)?,
                            2 => icomb(a, b, DetachConverter, o, c, log, d)?,
                            _ => {
                                let f = |x: &mut Value, y: &ValueRef| {
                                    let (tx, ty) = (c.unval(x.as_ref()), c.unval(y.data().unwrap()));
                                    log.borrow_mut().push((tx, ty));
                                    match crate::mirror::combiner(o.f, tx, ty) {
                                        None => x.set(None),
                                        Some(_) if o.f == "right" => x.set(Some(y)),
                                        Some(_) if o.f == "left" => {}
                                        Some(t) => x.set(Some(&mk::<Detached>(c, t).value().unwrap())),
                                    }
                                };
                                match o.name {
                                    "outerwith" => a.outer_combine_with(b, f),
                                    "innerwith" => a.inner_combine_with(b, f),
                                    _ => a.left_combine_with(b, f),
                                }
                            }
                        }
                    }
                    (Tree::Det(a), Tree::Att(b, _)) => icomb(a, b, DetachConverter, o, c, log, |_, _| false)?,
                    (Tree::Att(a, _), Tree::Det(b)) => {
                        let d = |x: &mut Value<TS>, y: &ValueRef| {
                            x.set(Some(y.downcast()));
                            true
                        };
                        if o.how % 2 == 0 {
                            icomb(a, b, DowncastConverter, o, c, log, d)?
                        } else {
                            icomb(a, b, DetachConverter, o, c, log, d)?
                        }
                    }
                    (Tree::Att(a, i), Tree::Att(b, j)) => {
                        if *i == *j && o.how % 3 != 0 {
                            let d = |x: &mut Value<TS>, y: &ValueRef<TS>| {
                                x.set(Some(y));
                                true
                            };
                            icomb(a, b, IdentityConverter, o, c, log, d)?
                        } else {
                            icomb(a, b, DetachConverter, o, c, log, |_, _| false)?
                        }
                    }
                    _ => anyhow::bail!("harness"),
                };
                Res::Unit
            }
            "retain" | "removewith" => {
                let (a, b) = pick2(&mut self.tree, h, o.h2);
                match (a, &b) {
                    (Tree::Det(a), Tree::Det(b)) if o.how & 1 == 0 => {
                        let f = |y: &ValueRef| crate::mirror::pred1_op(o, c.unval(y.data().unwrap()));
                        if o.name == "retain" {
                            a.retain_prefix_with(b, f)
                        } else {
                            a.remove_prefix_with(b, f)
                        }
                    }
                    (Tree::Det(a), Tree::Det(b)) => prune(a, b, o, c)?,
                    (Tree::Det(a), Tree::Att(b, _)) => prune(a, b, o, c)?,
                    (Tree::Att(a, _), Tree::Det(b)) => prune(a, b, o, c)?,
                    (Tree::Att(a, _), Tree::Att(b, _)) => prune(a, b, o, c)?,
                    _ => anyhow::bail!("harness"),
                };
                Res::Unit
            }
            "equal" => match (&self.tree[h], &self.tree[o.h2]) {
                (Tree::Det(a), Tree::Det(b)) => Res::Bool(a == b),
                _ => anyhow::bail!("harness"),
            },
            "shape" => with!(&self.tree[h], t, _s, {
                let s = RadixTree::store(t);
                fn shape<S: St>(t: &RadixTree<S>, s: &S, c: &Codec) -> R<Res> {
                    let p = S::up(t.prefix().to_owned().load(s))?;
                    let v = match t.value() {
                        Some(v) => tok(&v, s, c)?,
                        None => -1,
                    };
                    Ok(Res::Shape(t.is_leaf(), c.unkey(&p), v))
                }
                shape(t, s, c)?
            }),
            "show" => {
                match &self.tree[h] {
                    Tree::Det(t) => {
                        look(t)?;
                        if o.how & 3 == 0 {
                            quietly(|| if o.how & 4 == 0 { t.dump() } else { t.try_dump().unwrap() });
                        }
                    }
                    Tree::Att(t, _) => {
                        look(t)?;
                        if o.how & 3 == 0 {
                            quietly(|| t.try_dump())?;
                        }
                    }
                    Tree::None => anyhow::bail!("harness"),
                }
                Res::Unit
            }
            "attach" => {
                let s = self.stores[o.s - 1].clone();
                let t = match &self.tree[h] {
                    Tree::Det(t) => t.try_attached(s)?,
                    _ => anyhow::bail!("harness"),
                };
                self.tree[g] = Tree::Att(t, o.s);
                Res::Unit
            }
            "detach" => {
                let t = match &self.tree[h] {
                    Tree::Det(t) => t.try_detached().unwrap(),
                    Tree::Att(t, _) => t.try_detached()?,
                    _ => anyhow::bail!("harness"),
                };
                self.tree[g] = Tree::Det(t);
                Res::Unit
            }
            "reattach" => match &mut self.tree[h] {
                Tree::Att(t, s) => {
                    let id = t.try_reattach()?;
                    self.ver.push((*s, id));
                    Res::Int(self.ver.len() as i64)
                }
                _ => anyhow::bail!("harness"),
            },
            "load" => {
                let (s, id) = &self.ver[o.i - 1];
                let t = RadixTree::try_load(self.stores[*s - 1].clone(), Some(id))?;
                self.tree[g] = Tree::Att(t, *s);
                Res::Unit
            }
            "iternew" => {
                let it: KvIter = match &self.tree[h] {
                    Tree::Det(t) => {
                        if o.k.is_empty() && o.how & 1 == 0 {
                            Box::new(t.try_iter().map(|x| x.map(|(k, v)| (Some(k), Item::D(v))).map_err(|e| e.into())))
                        } else {
                            Box::new(
                                t.try_scan_prefix(k)
                                    .unwrap()
                                    .map(|x| x.map(|(k, v)| (Some(k), Item::D(v))).map_err(|e| e.into())),
                            )
                        }
                    }
                    Tree::Att(t, _) => {
                        let s = RadixTree::store(t).clone();
                        let it = if o.k.is_empty() && o.how & 1 == 0 { t.try_iter() } else { t.try_scan_prefix(k)? };
                        Box::new(it.map(move |x| x.map(|(k, v)| (Some(k), Item::A(v, s.clone())))))
                    }
                    _ => anyhow::bail!("harness"),
                };
                self.iter[o.i] = Some(it);
                Res::Unit
            }
            "viternew" => {
                let it: KvIter = match &self.tree[h] {
                    Tree::Det(t) => Box::new(t.try_values().map(|x| x.map(|v| (None, Item::D(v))).map_err(|e| e.into()))),
                    Tree::Att(t, _) => {
                        let s = RadixTree::store(t).clone();
                        Box::new(t.try_values().map(move |x| x.map(|v| (None, Item::A(v, s.clone())))))
                    }
                    _ => anyhow::bail!("harness"),
                };
                self.iter[o.i] = Some(it);
                Res::Unit
            }
            "iternext" | "viternext" => {
                let it = self.iter[o.i].as_mut().unwrap();
                let mut raw = vec![];
                let mut err = Ok(());
                for _ in 0..o.n {
                    match it.next() {
                        Some(Ok(x)) => raw.push(x),
                        Some(Err(e)) => {
                            err = Err(e);
                            *after.borrow_mut() = it.take(1000).count();
                            break;
                        }
                        None => break,
                    }
                }
                let mut es = vec![];
                for (k, v) in &raw {
                    match v.tok(c) {
                        Ok(t) => es.push((k.as_ref().map(|k| c.unkey(k)).unwrap_or_default(), t)),
                        Err(e) => {
                            err = Err(e);
                            break;
                        }
                    }
                }
                let r = if o.name == "iternext" {
                    Res::Entries(es)
                } else {
                    Res::Values(es.into_iter().map(|x| x.1).collect())
                };
                *partial = r.clone();
                err?;
                r
            }
            "valtake" => {
                let v = match &self.tree[h] {
                    Tree::Det(t) => if o.how & 8 == 0 { t.get(k) } else { t.try_get(k)? }.map(Item::D),
                    Tree::Att(t, _) => t.try_get(k)?.map(|v| Item::A(v, RadixTree::store(t).clone())),
                    _ => anyhow::bail!("harness"),
                };
                self.val[o.i] = Some(v);
                Res::Unit
            }
            "valread" => match self.val[o.i].as_ref().unwrap() {
                Some(v) => Res::Int(v.tok(c)?),
                None => Res::Int(-1),
            },
            x => panic!("harness: {x}"),
        })
    }
}
