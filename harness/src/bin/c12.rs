//! C12: a tree crosses threads only if its contents may.
//!
//! Every public type is probed with every kind of contents for what the library promises, and what
//! is promised is then done with real trees.
use palmtree::{Entry, Iter, IterMut, MergeIter, OwnedIter, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use ptmon::cfg::Cfg;
use ptmon::hist::Step;
use ptmon::rng::{hash2, Rng};
use ptmon::runner::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;
use typenum::U4;

type Conf44<P> = Cfg<U4, U4, P>;

// ---------------------------------------------------------------- contents

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Class {
    /// may be moved and shared
    Both,
    /// may be moved only
    Send,
    /// may be shared only
    Sync,
    Neither,
}
impl Class {
    fn send(self) -> bool {
        matches!(self, Class::Both | Class::Send)
    }
    fn sync(self) -> bool {
        matches!(self, Class::Both | Class::Sync)
    }
}
trait Item: Clone + Ord + 'static {
    const CLASS: Class;
    fn mk(n: u32) -> Self;
    fn rank(&self) -> u32;
}
macro_rules! item {
    ($t:ident, $class:ident, $m:ty) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
        struct $t(u32, PhantomData<$m>);
        impl Item for $t {
            const CLASS: Class = Class::$class;
            fn mk(n: u32) -> Self {
                $t(n, PhantomData)
            }
            fn rank(&self) -> u32 {
                self.0
            }
        }
    };
}
item!(OnlySend, Send, Cell<u8>);
item!(OnlySync, Sync, MutexGuard<'static, u8>);
item!(Neither, Neither, Rc<u8>);
impl Item for u64 {
    const CLASS: Class = Class::Both;
    fn mk(n: u32) -> Self {
        n as u64
    }
    fn rank(&self) -> u32 {
        *self as u32
    }
}
impl Item for String {
    const CLASS: Class = Class::Both;
    fn mk(n: u32) -> Self {
        format!("{:08}", n)
    }
    fn rank(&self) -> u32 {
        self.parse().unwrap()
    }
}

// ---------------------------------------------------------------- probes

trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct ProbeSend<T>(PhantomData<T>);
struct ProbeSync<T>(PhantomData<T>);
impl<T> Not for ProbeSend<T> {}
impl<T> Not for ProbeSync<T> {}
// an inherent constant is preferred where it exists
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
macro_rules! probe {
    ($t:ty) => {
        (<ProbeSend<$t>>::SEND, <ProbeSync<$t>>::SYNC)
    };
}

// The same for values of types without a public name: taking one reference less is preferred where it works.
struct OfVal<T>(PhantomData<T>);
fn of<T>(_: &T) -> OfVal<T> {
    OfVal(PhantomData)
}
trait ValSend {
    fn send(&self) -> bool {
        true
    }
}
trait ValNotSend {
    fn send(&self) -> bool {
        false
    }
}
trait ValSync {
    fn sync(&self) -> bool {
        true
    }
}
trait ValNotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T: Send> ValSend for OfVal<T> {}
impl<T> ValNotSend for &OfVal<T> {}
impl<T: Sync> ValSync for OfVal<T> {}
impl<T> ValNotSync for &OfVal<T> {}
macro_rules! probe_val {
    ($v:expr) => {{
        let p = of(&$v);
        ((&p).send(), (&p).sync())
    }};
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Unique,
    Shared,
    SyncShared,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Tree,
    OwnedIter,
    Iter,
    IterMut,
    Entry,
    VacantEntry,
    OccupiedEntry,
    MergeIter,
    MergeLeft,
    MergeRight,
}
struct Row {
    what: What,
    kind: Kind,
    conf: &'static str,
    k: (Class, &'static str),
    v: (Class, &'static str),
    got: (bool, bool),
    /// does with a real tree what is promised
    act: fn(u64, (bool, bool)) -> Result<u64, String>,
}
impl Row {
    fn name(&self) -> String {
        let kind = match self.kind {
            Kind::Unique => "owned",
            Kind::Shared => "single-threaded shared",
            Kind::SyncShared => "thread-safe shared",
        };
        format!("{:?} of the {} kind ({}) with {} keys and {} values", self.what, kind, self.conf, self.k.1, self.v.1)
    }
    /// What must not be promised, and what must.
    fn judge(&self) -> Option<String> {
        let both = |f: fn(Class) -> bool| f(self.k.0) && f(self.v.0);
        let (send, sync) = (both(Class::send), both(Class::sync));
        let (may_send, may_sync) = match (self.kind, self.what) {
            (Kind::Shared, _) => (false, false),
            // references into a tree are tied to sharing the tree
            (_, What::Iter) => (sync, sync),
            (Kind::Unique, _) => (send, sync),
            (Kind::SyncShared, _) => (send && sync, sync),
        };
        if self.got.0 && !may_send {
            return Some(format!("{} is allowed to move to another thread", self.name()));
        }
        if self.got.1 && !may_sync {
            return Some(format!("{} is allowed to be shared between threads", self.name()));
        }
        if self.what == What::Tree && send && sync && self.kind != Kind::Shared && self.got != (true, true) {
            let w = if self.got.0 { "shared between threads" } else { "moved to another thread" };
            return Some(format!("{} cannot be {}", self.name(), w));
        }
        None
    }
}
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Move a tree (and with it everything made from it) over to another thread and back, and read it from two.
fn act<K: Item, V: Item, C: TreeConfig<K, V> + 'static>(x: u64, got: (bool, bool)) -> Result<u64, String> {
    if !got.0 && !got.1 {
        return Ok(0);
    }
    let mut r = Rng::new(x);
    let n = r.below(if cfg!(miri) { 12 } else { 200 }) as u32;
    let ranks: Vec<u32> = (0..n).map(|i| i * 3 + r.below(3) as u32).collect();
    let tree: PalmTree<K, V, C> = PalmTree::load(ranks.iter().map(|i| (K::mk(*i), V::mk(i + 1))));
    let check = |t: &PalmTree<K, V, C>| -> bool { t.iter().map(|(k, v)| (k.rank(), v.rank())).eq(ranks.iter().map(|i| (*i, i + 1))) };
    let mut ops = 0;
    let mut tree = tree;
    if got.1 {
        let c = Cross((&tree, &check));
        let c = &c;
        let ok = std::thread::scope(|s| {
            let a = s.spawn(move || {
                let c = c;
                (c.0 .1)(c.0 .0)
            });
            let b = s.spawn(move || {
                let c = c;
                (c.0 .1)(c.0 .0)
            });
            a.join().unwrap_or(false) && b.join().unwrap_or(false)
        });
        if !ok {
            return Err("a tree read by two threads shows other entries than it holds".into());
        }
        ops += 2;
    }
    if got.0 {
        let c = Cross(tree);
        let moved = std::thread::spawn(move || {
            let mut t = c.get();
            let twin = t.clone();
            t.insert(K::mk(1_000_000), V::mk(5));
            t.remove(&K::mk(1_000_000));
            drop(twin);
            Cross(t)
        })
        .join();
        match moved {
            Ok(t) => tree = t.get(),
            Err(_) => return Err("a tree moved to another thread makes it die".into()),
        }
        if !check(&tree) {
            return Err("a tree moved to another thread and back shows other entries".into());
        }
        ops += 1;
    }
    Ok(ops)
}

type Pair<K, V> = (K, V);
type Cmp<A> = fn(&A, &A) -> bool;

macro_rules! rows {
    ($out:ident, $kind:ident, $conf:ident, [$($k:ident),*], $vs:tt) => { $( rows!(@v $out, $kind, $conf, $k, $vs); )* };
    (@v $out:ident, $kind:ident, $conf:ident, $k:ident, [$($v:ident),*]) => { $(
        let mut row = |what, got, act| $out.push(Row {
            what, got, act,
            kind: Kind::$kind,
            conf: stringify!($conf),
            k: (<$k as Item>::CLASS, stringify!($k)),
            v: (<$v as Item>::CLASS, stringify!($v)),
        });
        let none: fn(u64, (bool, bool)) -> Result<u64, String> = |_, _| Ok(0);
        row(What::Tree, probe!(PalmTree<$k, $v, $conf<$kind>>), act::<$k, $v, $conf<$kind>>);
        row(What::OwnedIter, probe!(OwnedIter<$k, $v, $conf<$kind>>), none);
        row(What::Iter, probe!(Iter<'static, $k, $v, $conf<$kind>>), none);
        row(What::IterMut, probe!(IterMut<'static, $k, $v, $conf<$kind>>), none);
        row(What::Entry, probe!(Entry<'static, $k, $v, $conf<$kind>>), none);
        let mut tree: PalmTree<$k, $v, $conf<$kind>> = PalmTree::new();
        if let Entry::Vacant(e) = tree.entry(<$k>::mk(1)) {
            row(What::VacantEntry, probe_val!(e), none);
            e.insert(<$v>::mk(2));
        }
        if let Entry::Occupied(e) = tree.entry(<$k>::mk(1)) {
            row(What::OccupiedEntry, probe_val!(e), none);
        }
        row(What::MergeLeft, probe_val!(PalmTree::merge_left_iter(tree.clone(), tree.clone())), none);
        row(What::MergeRight, probe_val!(PalmTree::merge_right_iter(tree.clone(), tree.clone())), none);
        row(What::MergeIter, probe!(MergeIter<Pair<$k, $v>, OwnedIter<$k, $v, $conf<$kind>>, OwnedIter<$k, $v, $conf<$kind>>, Cmp<Pair<$k, $v>>, Cmp<Pair<$k, $v>>>), none);
    )* };
}
fn table() -> Vec<Row> {
    let mut out = Vec::new();
    rows!(out, Unique, Conf44, [u64, String, OnlySend, OnlySync, Neither], [u64, String, OnlySend, OnlySync, Neither]);
    rows!(out, Shared, Conf44, [u64, String, OnlySend, OnlySync, Neither], [u64, String, OnlySend, OnlySync, Neither]);
    rows!(out, SyncShared, Conf44, [u64, String, OnlySend, OnlySync, Neither], [u64, String, OnlySend, OnlySync, Neither]);
    rows!(out, Unique, Tree64, [u64, OnlySend, OnlySync, Neither], [u64, OnlySend, OnlySync, Neither]);
    rows!(out, Shared, Tree64, [u64, OnlySend, OnlySync, Neither], [u64, OnlySend, OnlySync, Neither]);
    rows!(out, SyncShared, Tree64, [u64, OnlySend, OnlySync, Neither], [u64, OnlySend, OnlySync, Neither]);
    out
}

fn gen(_: &[Combo], seed: u64, _: u64) -> Case {
    Case { combo: 0, steps: Vec::<Step>::new(), x: seed }
}
fn exec(_: &[Combo], c: &Case) -> Out {
    let mut out = Out::default();
    let t = table();
    for (i, r) in t.iter().enumerate() {
        out.stats.micro += 2;
        out.stats.sig(hash2(i as u64, 12));
        *out.stats.own.entry("promises probed").or_default() += 1;
        if let Some(msg) = r.judge() {
            out.fail = Some(Fail { step: i, msg });
            return out;
        }
    }
    for (i, r) in t.iter().enumerate() {
        if cfg!(miri) && hash2(c.x, i as u64) % 16 != 0 {
            continue;
        }
        journal(i, true, "threads");
        match (r.act)(hash2(c.x, i as u64), r.got) {
            Ok(n) => {
                if n > 0 {
                    out.stats.items += n;
                    *out.stats.own.entry("trees moved or shared").or_default() += n;
                    out.stats.sig(hash2(c.x, i as u64));
                }
            }
            Err(m) => {
                out.fail = Some(Fail { step: i, msg: format!("{}: {}", r.name(), m) });
                return out;
            }
        }
    }
    out
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C12",
        giant: 0,
        combos: vec![Combo {
            name: "all".into(),
            b: 4,
            l: 4,
            kind: ptmon::cfg::Kind::Unique,
            weight: 1,
            max_n: 100,
            entry: 0,
            copy: false,
            run: |_, _| Out::default(),
        }],
        gen,
        exec,
    });
}
