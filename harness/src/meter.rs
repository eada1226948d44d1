//! Work done and stack used by single calls.
use crate::alloc::{self, subj};
use crate::cfg::{Conf, Kind};
use crate::elem::*;
use crate::hist::*;
use crate::interp::*;
use crate::rng::{hash2, Rng};
use crate::runner::*;
use palmtree::{Entry, PalmTree, TreeConfig};
use std::cell::UnsafeCell;
use std::mem::{size_of, ManuallyDrop};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- work: basic blocks entered

struct Count(UnsafeCell<u64>);
unsafe impl Sync for Count {}
static BLOCKS: Count = Count(UnsafeCell::new(0));

/// Called by the compiler-inserted probe at the start of every basic block (build `cov` only).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    // only one thread runs while something is being measured
    unsafe { *BLOCKS.0.get() = (*BLOCKS.0.get()).wrapping_add(1) }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

#[inline(never)]
fn work() -> u64 {
    unsafe { std::ptr::read_volatile(BLOCKS.0.get()) }
}
/// Whether the probes are there.
pub fn probed() -> bool {
    let a = work();
    let b = work();
    a != b
}

// ---------------------------------------------------------------- stack: a painted region

const PAINT: u64 = 0xA5C3_9E17_6B2D_F048;
/// Left alone directly below the painter: its own callee's frame.
const GAP: usize = 1024;

#[inline(never)]
fn paint(n: usize) -> *mut u64 {
    let here = 0u64;
    let top = (std::hint::black_box(&here) as *const u64 as usize - GAP) & !7;
    let lo = (top - n) as *mut u64;
    for i in 0..n / 8 {
        unsafe { std::ptr::write_volatile(lo.add(i), PAINT) }
    }
    lo
}
#[inline(never)]
fn painted(lo: *mut u64, n: usize) -> usize {
    let mut i = 0;
    while i < n / 8 && unsafe { std::ptr::read_volatile(lo.add(i)) } == PAINT {
        i += 1;
    }
    if i == n / 8 {
        0
    } else {
        n - i * 8 + GAP
    }
}

/// What one call used.
#[derive(Clone, Copy, Default, Debug)]
pub struct Used {
    pub work: u64,
    pub bytes: u64,
    pub stack: u64,
}
/// Runs `f`; `window` bytes of stack are watched (0: none).
#[inline(never)]
pub fn metered<R>(window: usize, f: impl FnOnce() -> R) -> (R, Used) {
    let b0 = alloc::total();
    let lo = if window > 0 { paint(window) } else { std::ptr::null_mut() };
    let w0 = work();
    let r = f();
    let w1 = work();
    let stack = if window > 0 { painted(lo, window) as u64 } else { 0 };
    (r, Used { work: w1 - w0, bytes: (alloc::total() - b0) as u64, stack })
}

// ---------------------------------------------------------------- what a call may use

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// neither size nor height matters
    Const,
    /// goes down the tree once or twice
    Point,
    /// and changes it
    Change,
    /// `k` steps of an iterator
    Steps(u64),
    /// as Steps, but every step may have to unshare what it passes
    CopySteps(u64),
    /// deals with that many entries and nodes
    Whole(u64),
}

/// Sizes the bounds depend on.
#[derive(Clone, Copy)]
pub struct Dim {
    pub ever: u64,
    pub b: u64,
    pub l: u64,
    pub entry: u64,
    pub key: u64,
    /// changes may have to copy nodes on their way
    pub shared: bool,
    /// entries and nodes this call may have to copy because it is the first change of a sharing handle (0: none)
    pub copies: u64,
}
impl Dim {
    pub fn levels(&self) -> u64 {
        let (mut levels, mut reach) = (2, self.b / 2);
        while reach < self.ever {
            levels += 1;
            reach = reach.saturating_mul(self.b / 2);
        }
        levels
    }
    fn leaf(&self) -> u64 {
        self.l * self.entry + 64
    }
    fn branch(&self) -> u64 {
        self.b * (self.key + 8) + 64
    }
    pub fn work(&self, c: Class) -> u64 {
        let h = self.levels();
        let find = find_limit(self.ever, self.b, self.l);
        let copy = h * self.b + self.l;
        match c {
            Class::Const => 200,
            Class::Point => 16 * find + 60 * h + 300,
            Class::Change => 4 * insert_limit(self.ever, self.b, self.l) + 12 * h * h + 80 * h + 500 + if self.shared { 60 * copy } else { 0 },
            Class::Steps(k) => k * (80 + 8 * h) + 80 * h + 400,
            Class::CopySteps(k) => k * (80 + 8 * h) + 80 * h + 800 + if self.shared { 60 * copy + 80 * k * (1 + h * self.b.min(k) / self.l.max(1)).min(64) } else { 0 },
            Class::Whole(n) => 300 * n + 40 * h + 1000,
        }
    }
    pub fn bytes(&self, c: Class) -> u64 {
        let h = self.levels();
        let path = 2 * (h * self.branch() + self.leaf()) + 1024;
        match c {
            Class::Const => self.leaf() + self.branch() + 256,
            Class::Point | Class::Steps(_) => path,
            Class::Change => 8 * path,
            Class::CopySteps(k) => 8 * path + if self.shared { 8 * k * (self.leaf() + self.branch()) } else { 0 },
            Class::Whole(n) => 2 * path + 32 * n * (self.entry + self.key + 16) + 2 * n * (self.branch() + self.leaf()) / self.l,
        }
    }
    /// Stack frames may hold nodes by value, and recursion down the tree is allowed.
    pub fn stack(&self) -> u64 {
        let h = self.levels();
        32 * 1024 + h * (1024 + 4 * self.branch()) + 12 * (self.leaf() + self.branch())
    }
}

// ---------------------------------------------------------------- the measured calls

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Work,
    Stack,
}

/// Everything an iterator has, by one of the ways there are to take it.
fn all_of<I: DoubleEndedIterator>(it: I, how: u64) -> usize {
    match how % 9 {
        0 => it.count(),
        1 => it.fold(0, |n, _| n + 1),
        2 => it.rev().fold(0, |n, _| n + 1),
        3 => it.last().is_some() as usize,
        4 => {
            let mut n = 0;
            it.for_each(|_| n += 1);
            n
        }
        5 => it.rev().count(),
        6 => {
            let mut it = it;
            it.nth(usize::MAX).is_some() as usize
        }
        7 => {
            let mut it = it;
            it.nth_back(usize::MAX).is_some() as usize
        }
        _ => {
            let mut n = 0;
            for _ in it {
                n += 1
            }
            n
        }
    }
}

struct Meter<'a, K: Key, V: Val, C: TreeConfig<K, V>> {
    what: What,
    tree: PalmTree<K, V, C>,
    keys: Vec<u32>,
    ever: u64,
    /// a sharing handle
    twin: Option<PalmTree<K, V, C>>,
    /// changes since the twin was made
    drift: bool,
    /// no call has copied the tree since it was cloned
    credit: bool,
    r: Rng,
    seq: u32,
    combo: u64,
    stats: &'a mut Stats,
}
impl<'a, K: Key, V: Val, C: TreeConfig<K, V> + Conf> Meter<'a, K, V, C> {
    fn dim(&self) -> Dim {
        Dim {
            ever: self.ever + self.seq as u64 + 4,
            b: C::B as u64,
            l: C::L as u64,
            entry: size_of::<(K, V)>() as u64,
            key: size_of::<K>() as u64,
            shared: self.twin.is_some(),
            copies: 0,
        }
    }
    fn n(&self) -> u64 {
        self.keys.len() as u64 + self.seq as u64 + 4
    }
    /// Entries, nodes and what the harness itself adds.
    fn whole(&self) -> Class {
        Class::Whole(self.n() + alloc::blocks().max(0) as u64)
    }
    fn key(&mut self) -> u32 {
        if self.keys.is_empty() {
            return self.r.below(1000) as u32;
        }
        let i = match self.r.below(8) {
            0 => 0,
            1 => self.keys.len() - 1,
            _ => self.r.below(self.keys.len() as u64) as usize,
        };
        let k = self.keys[i];
        match self.r.below(4) {
            0 => k + 1,
            1 => k.saturating_sub(1),
            _ => k,
        }
    }
    fn call<R>(&mut self, name: &'static str, c: Class, d: Dim, f: impl FnOnce(&mut PalmTree<K, V, C>) -> R) -> Result<R, String> {
        let (limit_w, limit_b, limit_s) = (d.work(c), d.bytes(c), d.stack());
        let window = if self.what == What::Stack { (limit_s as usize * 2 + 64 * 1024) & !63 } else { 0 };
        let tree = &mut self.tree;
        let (r, u) = metered(window, || f(tree));
        self.stats.micro += 1;
        *self.stats.own.entry(name).or_default() += 1;
        if self.keys.len() > C::L {
            let sig = [self.combo, self.n(), self.seq as u64, u.work, u.stack, name.len() as u64, name.as_bytes()[0] as u64, self.ever];
            self.stats.sig(sig.iter().fold(0, |a, x| hash2(a, *x)));
        }
        let n = self.n();
        let of = |what: &str| {
            format!(
                "{} {} (tree of {} entries, {} ever inserted, capacities {} and {}, {})",
                name,
                what,
                n,
                d.ever,
                d.b,
                d.l,
                if d.shared { "shared" } else { "not shared" }
            )
        };
        if self.what == What::Stack {
            self.stats.worst(name, u.stack, limit_s);
            if u.stack > limit_s {
                return Err(of(&format!("used at least {} bytes of stack, limit {}", u.stack, limit_s)));
            }
            return Ok(r);
        }
        let (mut limit_w, mut limit_b) = (limit_w, limit_b);
        let mut name = name;
        if matches!(c, Class::Change | Class::CopySteps(_)) && (u.work > limit_w || u.bytes > limit_b) {
            // the first change after sharing may copy the tree, once
            let mut n = d.copies;
            if n == 0 && self.credit {
                self.credit = false;
                n = self.n() + alloc::blocks().max(0) as u64;
            }
            if n > 0 {
                limit_w += d.work(Class::Whole(n));
                limit_b += d.bytes(Class::Whole(n));
                name = "first change of a sharing handle";
            }
        }
        self.stats.worst(name, u.work, limit_w);
        self.stats.worst("bytes allocated", u.bytes, limit_b);
        if u.work > limit_w {
            return Err(of(&format!("took {} steps, limit {}", u.work, limit_w)));
        }
        if u.bytes > limit_b {
            return Err(of(&format!("allocated {} bytes, limit {}", u.bytes, limit_b)));
        }
        Ok(r)
    }
    fn mk(&mut self) -> (K, V) {
        self.seq += 1;
        let k = self.key();
        (K::mk(k, self.seq), V::mk(self.seq as u64))
    }
    /// Steps an iterator, front or back by turns of a drawn pattern.
    fn steps<I: DoubleEndedIterator>(mut it: I, k: u64, pat: u64) -> (I, u64) {
        let mut n = 0;
        for i in 0..k {
            let x = if pat >> (i & 15) & 1 == 1 { it.next_back() } else { it.next() };
            if x.is_none() {
                break;
            }
            n += 1;
        }
        (it, n)
    }
    fn range(&mut self) -> (Bound<K>, Bound<K>) {
        let (a, b) = (self.key(), self.key());
        let (a, b) = (a.min(b), a.max(b));
        let lo = match self.r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(K::mk(a, 0)),
            _ => Bound::Excluded(K::mk(a, 0)),
        };
        let hi = match self.r.below(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(K::mk(b, 0)),
            _ if a < b => Bound::Excluded(K::mk(b, 0)),
            _ => Bound::Included(K::mk(b, 0)),
        };
        (lo, hi)
    }
    fn fresh_tree(&mut self) -> PalmTree<K, V, C> {
        let m = self.r.logsize(self.keys.len() as u32 + 8);
        let a = self.key();
        let mut out = Vec::new();
        for i in 0..m {
            self.seq += 1;
            out.push((K::mk(a.saturating_add(i * 2), 0), V::mk(i as u64)));
        }
        subj(|| PalmTree::load(out))
    }
    fn one(&mut self) -> Res {
        let mut d = self.dim();
        let n = self.keys.len() as u64;
        let pat = *self.r.pick(&[0u64, 0xffff, 0xaaaa, 0x0ff0, 0x1234]);
        let k = self.r.logsize((n as u32 + 2).min(2000)) as u64;
        match self.r.below(34) {
            0 => {
                self.call("len and is_empty", Class::Const, d, |t| t.len() + t.is_empty() as usize)?;
            }
            1 => {
                let key = K::mk(self.key(), 0);
                self.call("get", Class::Point, d, |t| t.get(&key).is_some())?;
            }
            2 => {
                let key = K::mk(self.key(), 0);
                self.call("get_mut", Class::Change, d, |t| subj(|| t.get_mut(&key).map(|v| v.set(1)).is_some()))?;
                self.drift = true;
            }
            3 => {
                let i = self.r.below(n.max(1)) as usize;
                if i < self.keys.len() {
                    let key = K::mk(self.keys[i], 0);
                    let present = self.tree.get(&key).is_some();
                    if present {
                        self.call("indexing", Class::Point, d, |t| t[&key].get())?;
                        self.call("indexing for writing", Class::Change, d, |t| subj(|| t[&key] = V::mk(3)))?;
                        self.drift = true;
                    }
                }
            }
            4 | 5 => {
                let (key, v) = self.mk();
                self.call("insert", Class::Change, d, |t| drop(subj(|| t.insert(key, v))))?;
                self.drift = true;
            }
            6 => {
                let (key, v) = self.mk();
                self.call("insert_recursive", Class::Change, d, |t| drop(subj(|| t.insert_recursive(key, v))))?;
                self.drift = true;
            }
            7 => {
                let (key, v) = self.mk();
                let how = self.r.below(4);
                self.call("entry", Class::Change, d, |t| {
                    subj(|| match t.entry(key) {
                        Entry::Occupied(mut e) => match how {
                            0 => drop(e.insert(v)),
                            1 => drop(e.remove_entry()),
                            2 => e.into_mut().set(4),
                            _ => drop(e.get().get()),
                        },
                        Entry::Vacant(e) => {
                            if how > 0 {
                                e.insert(v).set(5)
                            }
                        }
                    })
                })?;
                self.drift = true;
            }
            8 | 9 => {
                let key = K::mk(self.key(), 0);
                self.seq += 1;
                self.call("remove", Class::Change, d, |t| drop(subj(|| t.remove(&key))))?;
                self.drift = true;
            }
            10 => {
                self.call("remove_lowest", Class::Change, d, |t| drop(subj(|| t.remove_lowest())))?;
                self.drift = true;
            }
            11 => {
                self.call("remove_highest", Class::Change, d, |t| drop(subj(|| t.remove_highest())))?;
                self.drift = true;
            }
            12 => {
                self.call("iter, first and last", Class::Point, d, |t| {
                    let mut it = subj(|| t.iter());
                    it.next().is_some() | it.next_back().is_some()
                })?;
            }
            13 => {
                self.call("steps of iter", Class::Steps(k), d, |t| subj(|| Self::steps(t.iter(), k, pat).1))?;
            }
            14 => {
                self.call("steps of iter_mut", Class::CopySteps(k), d, |t| subj(|| Self::steps(t.iter_mut(), k, pat).1))?;
                self.drift = true;
            }
            15 => {
                let (lo, hi) = self.range();
                self.call("range, first and last", Class::Point, d, |t| {
                    let mut it = subj(|| t.range((lo, hi)));
                    it.next().is_some() | it.next_back().is_some()
                })?;
            }
            16 => {
                let (lo, hi) = self.range();
                self.call("steps of range", Class::Steps(k), d, |t| subj(|| Self::steps(t.range((lo, hi)), k, pat).1))?;
            }
            17 => {
                let (lo, hi) = self.range();
                self.call("steps of range_mut", Class::CopySteps(k), d, |t| subj(|| Self::steps(t.range_mut((lo, hi)), k, pat).1))?;
                self.drift = true;
            }
            18 => {
                let how = self.r.next();
                let w = self.whole();
                match self.r.below(3) {
                    0 => {
                        self.drift = true;
                        self.call("whole iter_mut", w, d, |t| subj(|| all_of(t.iter_mut(), how)))?
                    }
                    1 => {
                        let (lo, hi) = self.range();
                        self.call("whole range", w, d, |t| subj(|| all_of(t.range((lo, hi)), how)))?
                    }
                    _ => self.call("whole iter", w, d, |t| subj(|| all_of(t.iter(), how)))?,
                };
            }
            19 => {
                let c = self.call("iter to clone", Class::Steps(k), d, |t| {
                    let (it, _) = Self::steps(t.iter(), k, pat);
                    let (_, u) = metered(0, || drop(it.clone()));
                    u.work
                })?;
                let lim = d.work(Class::Point);
                if self.what == What::Work && c > lim {
                    return Err(format!("cloning an iterator took {} steps, limit {} ({} entries)", c, lim, n));
                }
            }
            20 | 21 => {
                let shared = C::KIND != Kind::Unique;
                if self.twin.is_none() || shared {
                    let c = if shared { Class::Const } else { self.whole() };
                    d.shared = shared;
                    let t = self.call(if shared { "clone of a shared tree" } else { "clone of an unshared tree" }, c, d, |t| subj(|| t.clone()))?;
                    if self.r.chance(1, 2) {
                        let mut t = Some(t);
                        let c = if shared { Class::Const } else { self.whole() };
                        self.call(if shared { "drop of a sharing clone" } else { "drop of a tree" }, c, d, |_| drop(t.take()))?;
                    } else if shared {
                        self.twin = Some(t);
                        self.drift = false;
                        self.credit = true;
                    }
                }
            }
            22 => {
                if let Some(mut t) = self.twin.take().map(Some) {
                    self.credit = false;
                    let c = if self.drift { self.whole() } else { Class::Const };
                    self.call("drop of the other handle", c, d, |_| drop(t.take()))?;
                }
            }
            23 => {
                let mut x = Some(self.copy()?);
                if C::KIND != Kind::Unique {
                    d.shared = true;
                    d.copies = self.n() + alloc::blocks() as u64;
                }
                self.call("steps of into_iter", Class::CopySteps(k), d, |_| {
                    let it = ManuallyDrop::new(Self::steps(subj(|| x.take().unwrap().into_iter()), k, pat).0);
                    it
                })
                .and_then(|it| {
                    let mut it = Some(ManuallyDrop::into_inner(it));
                    self.call("length of into_iter", Class::Const, d, |_| it.as_ref().unwrap().len() + it.as_ref().unwrap().size_hint().0)?;
                    let w = self.whole();
                    self.call("drop of into_iter", w, d, |_| subj(|| drop(it.take())))
                })?;
            }
            24 => {
                let mut x = Some(self.copy()?);
                let w = self.whole();
                let how = self.r.next();
                self.call("whole into_iter", w, d, |_| subj(|| all_of(x.take().unwrap().into_iter(), how)))?;
            }
            25 => {
                let m = self.r.logsize(n as u32 + 8);
                let v: Vec<(K, V)> = (0..m).map(|i| (K::mk(i * 3, 0), V::mk(i as u64))).collect();
                d.ever = d.ever.max(m as u64);
                let t = self.call("load", Class::Whole(m as u64 + 4), d, |_| subj(|| PalmTree::<K, V, C>::load(v)))?;
                let mut t = Some(t);
                self.call("drop of a loaded tree", Class::Whole(m as u64 + 4), d, |_| drop(t.take()))?;
            }
            26 | 27 => {
                let other = self.fresh_tree();
                let mut x = Some((self.copy()?, other));
                let how = self.r.below(4);
                d.ever += n;
                d.shared = C::KIND != Kind::Unique;
                let w = self.whole();
                let t = self.call(*["append_left", "append_right", "merge_left", "merge_right"].get(how as usize).unwrap(), w, d, |_| {
                    subj(|| {
                        let (mut a, b) = x.take().unwrap();
                        match how {
                            0 => a.append_left(b),
                            1 => a.append_right(b),
                            2 => return PalmTree::merge_left(a, b),
                            _ => return PalmTree::merge_right(a, b),
                        }
                        a
                    })
                })?;
                drop(t);
            }
            28 => {
                let other = self.fresh_tree();
                let mut x = Some((self.copy()?, other));
                let how = self.r.below(7);
                d.shared = C::KIND != Kind::Unique;
                let w = self.whole();
                self.call("steps of a merging iterator", w, d, |_| {
                    subj(|| {
                        let (a, b) = x.take().unwrap();
                        let mut n = 0;
                        match how {
                            0 => PalmTree::merge_right_iter(a, b).for_each(|_| n += 1),
                            1 => PalmTree::merge_left_iter(a, b).for_each(|_| n += 1),
                            2 => n = PalmTree::merge_right_iter(a, b).count(),
                            3 => n = PalmTree::merge_left_iter(a, b).fold(0, |n, _| n + 1),
                            4 => n = PalmTree::merge_left_iter(a, b).last().is_some() as usize,
                            5 => n = PalmTree::merge_right_iter(a, b).nth(usize::MAX).is_some() as usize,
                            _ => {
                                for _ in PalmTree::merge_left_iter(a, b) {
                                    n += 1
                                }
                            }
                        }
                        n
                    })
                })?;
            }
            29 => {
                let other = self.copy()?;
                let w = self.whole();
                self.call("equality and order", w, d, |t| (*t == other) as u64 + Ord::cmp(t, &other) as u64)?;
            }
            30 => {
                let w = self.whole();
                self.call("hash", w, d, |t| hash_of(t))?;
            }
            31 => {
                let m = self.r.logsize(60) as u64;
                let v: Vec<(K, V)> = (0..m).map(|_| self.mk()).collect();
                // one by one, each no dearer than an insertion
                let c = Class::Change;
                let per = d.work(c);
                let once = if std::mem::take(&mut self.credit) { d.work(self.whole()) } else { 0 };
                let (_, u) = {
                    let t = &mut self.tree;
                    metered(0, || subj(|| t.extend(v)))
                };
                self.drift = true;
                self.stats.worst("extend", u.work, per * m + once + 400);
                if self.what == What::Work && u.work > per * m + once + 400 {
                    return Err(format!("extending by {} entries took {} steps, limit {} ({} entries)", m, u.work, per * m + once + 400, n));
                }
            }
            32 => {
                let w = self.whole();
                self.call("debug output", w, d, |t| {
                    use std::fmt::Write;
                    let _ = write!(Null, "{:?}", t);
                })?;
            }
            _ => {
                let t = self.call("new and drop of an empty tree", Class::Const, d, |_| subj(|| drop(PalmTree::<K, V, C>::new())))?;
                let _ = t;
            }
        }
        Ok(())
    }
    /// Another tree with the same contents (sharing if possible).
    fn copy(&mut self) -> Result<PalmTree<K, V, C>, String> {
        Ok(subj(|| self.tree.clone()))
    }
}

/// Builds a tree by `steps`, then measures calls drawn from `o.lawless_seed`.
pub fn run_meter<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(steps: &[Step], o: Opt, what: What) -> Out {
    let mut out = Out::default();
    if what == What::Work && !probed() {
        eprintln!("fatal: this build has no probes");
        std::process::exit(8);
    }
    ledger_reset();
    crate::alloc::reset();
    disarm();
    let mut w = ManuallyDrop::new(World::<K, V, C>::new(1, 0, Mode::Plain, None));
    w.combo = o.combo;
    for (i, st) in steps.iter().enumerate() {
        journal(i, false, st.c.name());
        let r = catch_unwind(AssertUnwindSafe(|| w.step(st)));
        let msg = match r {
            Ok(Ok(())) => continue,
            Ok(Err(m)) => m,
            Err(_) => format!("panicked: {}", last_panic()),
        };
        out.foreign = Some(Fail { step: i, msg: format!("{}: {}", st.text(), msg) });
        return out;
    }
    w.shape();
    journal(steps.len(), true, "measured calls");
    let ever = w.slots[0].ever.max(w.slots[0].model.len() as u64);
    let keys: Vec<u32> = w.slots[0].model.keys().copied().collect();
    let tree = std::mem::take(&mut w.slots[0].tree);
    let mut stats = std::mem::take(&mut w.stats);
    stats.own.clear();
    stats.max_entries = stats.max_entries.max(keys.len());
    let calls = if keys.len() > 5000 { 60 } else { 120 };
    let mut m = ManuallyDrop::new(Meter { what, tree, keys, ever, twin: None, drift: false, credit: false, r: Rng::new(o.lawless_seed), seq: 0, combo: o.combo, stats: &mut stats });
    for _ in 0..calls {
        match catch_unwind(AssertUnwindSafe(|| m.one())) {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => {
                out.fail = Some(Fail { step: steps.len().saturating_sub(1), msg });
                break;
            }
            Err(_) => {
                out.foreign = Some(Fail { step: steps.len(), msg: format!("a measured call panicked: {}", last_panic()) });
                break;
            }
        }
    }
    if out.fail.is_none() && out.foreign.is_none() {
        // the last of all
        let d = m.dim();
        let c = m.whole();
        m.twin = None;
        let mut t = Some(std::mem::take(&mut m.tree));
        match catch_unwind(AssertUnwindSafe(|| m.call("drop of a whole tree", c, d, |_| drop(t.take())))) {
            Ok(Err(msg)) => out.fail = Some(Fail { step: steps.len().saturating_sub(1), msg }),
            Ok(Ok(())) => unsafe { ManuallyDrop::drop(&mut m) },
            Err(_) => out.foreign = Some(Fail { step: steps.len(), msg: format!("dropping panicked: {}", last_panic()) }),
        }
    }
    out.stats = stats;
    out
}

#[macro_export]
macro_rules! meter_combo {
    ($what:expr, $k:ty, $v:ty, $c:ty, $w:expr, $n:expr) => {{
        fn run(s: &[$crate::hist::Step], o: $crate::runner::Opt) -> $crate::runner::Out {
            $crate::meter::run_meter::<$k, $v, $c>(s, o, $what)
        }
        $crate::runner::mk_combo::<$k, $v, $c>($w, $n, false, run)
    }};
}
pub fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 1);
    if g.r.chance(1, 2) {
        // tall and wide enough for what grows with the size to show
        g.n = g.p.max_n / 4 + g.r.below(g.p.max_n as u64 * 3 / 4) as u32;
    }
    crate::gens::history(&mut g, 0, 3);
    Case { combo, steps: g.out, x: seed | 1 }
}
pub fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, lawless_seed: c.x, ..Opt::new(0, Mode::Plain, 1) })
}
