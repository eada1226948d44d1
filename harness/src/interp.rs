//! Executes histories on the real tree next to a model, with the monitors attached.
use crate::alloc::{self, subj};
use crate::cfg::{Conf, Kind};
use crate::elem::*;
use crate::hist::*;
use crate::rng::{hash2, Rng};
use palmtree::{Entry, PalmTree, Tree64, TreeConfig, Unique};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// (rank, tag, value); tag is 0 for keys without one
pub type E = (u32, u32, u64);
pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// results of own steps against the model
    Plain,
    /// comparisons per call
    Cost,
    /// clones per call
    Copies,
    /// heap blocks held
    Blocks,
    /// ledger and allocator
    Ledger,
    /// other handles unchanged
    Isolation,
    /// record everything observed
    Log,
}

/// What kind of call was just made (for the cost and copy monitors).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Lookup,
    Read,
    Ins,
    Rem,
    Pop,
    Position,
    Bulk,
    /// insertions one by one
    Row,
    Clone,
    Mutate,
    Consume,
}

pub struct Slot<K, V, C: TreeConfig<K, V>> {
    pub tree: PalmTree<K, V, C>,
    pub model: Model,
    /// insertions made in the lineage of this handle
    pub ever: u64,
    /// only insertions and loading happened since it was last empty
    pub grown: bool,
    /// handles with the same number share their nodes, as far as the clone counter tells
    pub group: u64,
    pub snap: Vec<E>,
}
impl<K: Key, V: Val, C: TreeConfig<K, V>> Slot<K, V, C> {
    fn new(group: u64) -> Self {
        Slot {
            tree: PalmTree::new(),
            model: Model::new(),
            ever: 0,
            grown: true,
            group,
            snap: Vec::new(),
        }
    }
}

fn no_share() -> bool {
    static F: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *F.get_or_init(|| std::env::var_os("PTMON_NOSHARE").is_some())
}

#[derive(Default)]
pub struct Stats {
    pub own: BTreeMap<&'static str, u64>,
    pub micro: u64,
    pub items: u64,
    pub sigs: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub max_height: usize,
    pub stale: u64,
    pub max_entries: usize,
    /// largest observed quantity per monitor and its bound, for the evidence
    pub worst: BTreeMap<&'static str, (u64, u64)>,
    pub faults: u64,
}
/// Distinct things are counted up to here per process.
const CAP: usize = 300_000;
impl Stats {
    pub fn sig(&mut self, s: u64) {
        if self.sigs.len() < CAP {
            self.sigs.insert(s);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.own {
            *self.own.entry(k).or_default() += v;
        }
        self.micro += o.micro;
        self.items += o.items;
        if self.sigs.len() < CAP {
            self.sigs.extend(o.sigs);
        }
        if self.shapes.len() < CAP {
            self.shapes.extend(o.shapes);
        }
        self.max_height = self.max_height.max(o.max_height);
        self.stale += o.stale;
        self.max_entries = self.max_entries.max(o.max_entries);
        self.faults += o.faults;
        for (k, v) in o.worst {
            let e = self.worst.entry(k).or_insert((0, 1));
            if v.0 as u128 * e.1 as u128 >= e.0 as u128 * v.1 as u128 {
                *e = v;
            }
        }
    }
    pub fn worst(&mut self, what: &'static str, v: u64, bound: u64) {
        let e = self.worst.entry(what).or_insert((0, 1));
        if v as u128 * e.1 as u128 >= e.0 as u128 * bound as u128 {
            *e = (v, bound.max(1));
        }
    }
}

pub struct RefOps<K, V, C: TreeConfig<K, V>> {
    add: fn(PalmTree<K, V, C>, &PalmTree<K, V, C>, bool) -> PalmTree<K, V, C>,
    add_assign: fn(&mut PalmTree<K, V, C>, &PalmTree<K, V, C>, bool),
    extend: fn(&mut PalmTree<K, V, C>, &PalmTree<K, V, C>),
    extend_from: fn(&mut PalmTree<K, V, C>, &[(K, V)]),
}
impl<K, V, C: TreeConfig<K, V>> Clone for RefOps<K, V, C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V, C: TreeConfig<K, V>> Copy for RefOps<K, V, C> {}
pub fn refops<K: Key + Copy, V: Val + Copy, C: TreeConfig<K, V>>() -> RefOps<K, V, C> {
    type Alt<K, V> = PalmTree<K, V, Tree64<Unique>>;
    RefOps {
        add: |a, b, alt| {
            if alt {
                let o: Alt<K, V> = b.iter().map(|(k, v)| (*k, *v)).collect();
                a + &o
            } else {
                a + b
            }
        },
        add_assign: |a, b, alt| {
            if alt {
                let o: Alt<K, V> = b.iter().map(|(k, v)| (*k, *v)).collect();
                *a += &o
            } else {
                *a += b
            }
        },
        extend: |a, b| a.extend(b.iter()),
        extend_from: |a, b| a.extend(src(b.iter().map(|(k, v)| (k, v)).collect())),
    }
}

/// A source iterator that takes part in the fault plan and says as little about its length as it likes.
pub struct Src<T>(std::vec::IntoIter<T>, u8);
pub fn src<T>(v: Vec<T>) -> Src<T> {
    let how = hash2(v.len() as u64, 77) as u8;
    Src(v.into_iter(), how)
}
impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        event(EV_NEXT);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 % 6 {
            0 => (0, None),
            1 => (n / 2, None),
            2 => (0, Some(n)),
            3 => (n.saturating_sub(1), Some(n + 1)),
            4 => (0, Some(usize::MAX)),
            _ => (n, Some(n)),
        }
    }
}

pub struct World<K: Key, V: Val, C: TreeConfig<K, V>> {
    pub slots: Vec<Slot<K, V, C>>,
    pub own_mask: u64,
    /// results of this step are judged
    pub own: bool,
    /// the mode's monitor judges this step
    pub mon: bool,
    pub mode: Mode,
    pub refops: Option<RefOps<K, V, C>>,
    pub seq: u32,
    pub stats: Stats,
    pub acc: u64,
    pub log: Vec<u64>,
    pub combo: u64,
    /// only memory is judged: results may be anything
    pub free: bool,
    groups: u64,
    c0: Counts,
    inc: Inc,
    /// comparisons of the insertions of this step, and how many those were
    ins: (u64, u64),
}
/// Operands of the call being measured.
#[derive(Clone, Copy, Default)]
struct Inc {
    len: u64,
    shared: bool,
}

/// A monitor's verdict.
macro_rules! cm {
    ($w:expr, $c:expr, $($t:tt)*) => { if $w.mon && !($c) { return Err(format!($($t)*)); } };
}
/// A result's verdict.
macro_rules! ck {
    ($w:expr, $c:expr, $($t:tt)*) => { if $w.own && !($c) { return Err(format!($($t)*)); } };
}
pub fn mask(codes: &[Code]) -> u64 {
    codes.iter().fold(0, |m, c| m | 1 << *c as u8)
}
pub const ALL: u64 = u64::MAX;

/// What finding one key may cost after `n` insertions: a binary search (and two more comparisons) per level
/// of a tree whose branches were at least half full when they were made, and never more than 4 log2(n) + 16.
pub fn find_limit(n: u64, b: u64, l: u64) -> u64 {
    let (mut levels, mut reach) = (1, b / 2);
    while reach < n {
        levels += 1;
        reach = reach.saturating_mul(b / 2);
    }
    (4 * lg(n) + 16).min(levels * (lg(b) + 2) + lg(l) + 6)
}
/// What one insertion may cost: it finds its place twice, and may split one node on each level and then walk
/// down from there again.
pub fn insert_limit(n: u64, b: u64, l: u64) -> u64 {
    let (mut levels, mut reach) = (2, b / 2);
    while reach < n {
        levels += 1;
        reach = reach.saturating_mul(b / 2);
    }
    2 * find_limit(n, b, l) + levels * (levels + 1) / 2 * (lg(b) + 2) + levels * (lg(l) + 3)
}
pub fn lg(n: u64) -> u64 {
    64 - n.max(1).leading_zeros() as u64
}

thread_local! { static FREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Iterate on regardless of what comes out (for the monitors that judge memory only).
pub fn set_free(x: bool) {
    FREE.with(|f| f.set(x))
}
pub const COST: &str = "advancing the iterator made";
/// Drive a double-ended iterator against what it should yield.
pub fn drive<I: DoubleEndedIterator<Item = E>>(
    it: &mut I,
    exp: &[E],
    pat: &mut Pat,
    exact: bool,
    acc: &mut u64,
    cmp_limit: Option<u64>,
    worst: &mut u64,
) -> Res {
    let (mut i, mut j) = (0usize, exp.len());
    let mut after = 0;
    if FREE.with(|f| f.get()) {
        for _ in 0..exp.len() * 2 + 16 {
            let _ = it.size_hint();
            let got = if pat.front() { it.next() } else { it.next_back() };
            if got.is_none() {
                after += 1;
                if after == 3 {
                    break;
                }
            }
            *acc = hash2(*acc, got.map_or(77, |e| hash2(e.0 as u64, e.2)));
        }
        return Ok(());
    }
    loop {
        let (lo, hi) = it.size_hint();
        let left = j - i;
        if exact && (lo, hi) != (left, Some(left)) {
            return Err(format!("size_hint is ({:?}, {:?}) with {} entries to come", lo, hi, left));
        }
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size_hint ({:?}, {:?}) excludes the {} entries to come", lo, hi, left));
        }
        let f = pat.front();
        let c = counts().cmp;
        let got = if f { it.next() } else { it.next_back() };
        let c = counts().cmp - c;
        *worst = (*worst).max(c);
        if let Some(l) = cmp_limit {
            if c > l {
                return Err(format!("{} {} key comparisons (limit {})", COST, c, l));
            }
        }
        *acc = match got {
            Some(e) => hash2(*acc, hash2(e.0 as u64, e.2)),
            None => hash2(*acc, 77),
        };
        let name = if f { "next()" } else { "next_back()" };
        if i == j {
            if let Some(e) = got {
                return Err(format!("{} yields {:?} after the iterator was exhausted ({} entries)", name, e, exp.len()));
            }
            after += 1;
            if after == 5 {
                return Ok(());
            }
            continue;
        }
        let want = if f { exp[i] } else { exp[j - 1] };
        if got != Some(want) {
            return Err(format!(
                "{} number {} (front {}, back {} of {} entries) is {:?}, expected {:?}",
                name,
                i + exp.len() - j,
                i,
                exp.len() - j,
                exp.len(),
                got,
                want
            ));
        }
        if f {
            i += 1
        } else {
            j -= 1
        }
    }
}

/// The iterator's other methods, which it may have for itself: a few steps from both ends, then one of them.
pub fn adapt<I: DoubleEndedIterator>(mut it: I, see: impl Fn(I::Item) -> E, all: &[E], exact: bool, r: &mut Rng) -> Res
where
    I::Item: Ord,
{
    let free = FREE.with(|f| f.get());
    let (mut i, mut j) = (0, all.len());
    let few = |r: &mut Rng, n: usize| (if r.chance(1, 3) { r.below(n as u64 + 1) } else { r.below(6).min(n as u64) }) as usize;
    let (a, b) = (few(r, j), r.below(4) as usize);
    while i < a.min(j) {
        let got = it.next().map(&see);
        if !free && got != Some(all[i]) {
            return Err(format!("next() number {} of {} is {:?}, expected {:?}", i, all.len(), got, all[i]));
        }
        i += 1;
    }
    while all.len() - j < b && i < j {
        j -= 1;
        let got = it.next_back().map(&see);
        if !free && got != Some(all[j]) {
            return Err(format!("next_back() number {} of {} is {:?}, expected {:?}", all.len() - 1 - j, all.len(), got, all[j]));
        }
    }
    let rest = &all[i..j];
    let at = format!("after {} steps from the front and {} from the back of {}", i, all.len() - j, all.len());
    let n = if r.chance(1, 4) { rest.len() + r.below(3) as usize } else { few(r, rest.len()) };
    let which = r.below(18);
    if free {
        let _ = if which & 1 == 1 { it.nth(n) } else { it.nth_back(n) }.map(&see);
        let _ = (it.next().map(&see), it.next_back().map(&see));
        return Ok(());
    }
    let cap = all.len() + 3;
    let seq = |name: &str, got: Vec<E>, want: Vec<E>| if got == want { Ok(()) } else { diff(&format!("{} {}", name, at), &got, &want) };
    let back = || rest.iter().rev().copied().collect::<Vec<E>>();
    let after = |it: &mut I, rest: &[E], name: String| -> Res {
        // what is left after it
        let (lo, hi) = it.size_hint();
        if lo > rest.len() || hi.map_or(false, |h| h < rest.len()) || exact && lo != rest.len() {
            return Err(format!("size_hint after {} is ({:?}, {:?}) with {} entries to come, {}", name, lo, hi, rest.len(), at));
        }
        let (mut x, mut y) = (0, rest.len());
        for k in 0..6 {
            let got = if k & 1 == 0 { it.next() } else { it.next_back() }.map(&see);
            let want = if x == y {
                None
            } else if k & 1 == 0 {
                x += 1;
                Some(rest[x - 1])
            } else {
                y -= 1;
                Some(rest[y])
            };
            if got != want {
                return Err(format!("a step after {} is {:?}, expected {:?}, {}", name, got, want, at));
            }
        }
        Ok(())
    };
    match which {
        0 => {
            let got = it.count();
            if got != rest.len() {
                return Err(format!("count() is {}, expected {}, {}", got, rest.len(), at));
            }
        }
        1 => {
            let got = it.last().map(&see);
            if got != rest.last().copied() {
                return Err(format!("last() is {:?}, expected {:?}, {}", got, rest.last(), at));
            }
        }
        2 | 3 => {
            let got = it.nth(n).map(&see);
            if got != rest.get(n).copied() {
                return Err(format!("nth({}) is {:?}, expected {:?}, {}", n, got, rest.get(n), at));
            }
            after(&mut it, &rest[(n + 1).min(rest.len())..], format!("nth({})", n))?;
        }
        4 | 5 => {
            let got = it.nth_back(n).map(&see);
            let want = rest.len().checked_sub(n + 1).map(|k| rest[k]);
            if got != want {
                return Err(format!("nth_back({}) is {:?}, expected {:?}, {}", n, got, want, at));
            }
            after(&mut it, &rest[..rest.len().saturating_sub(n + 1)], format!("nth_back({})", n))?;
        }
        6 => seq("fold()", it.fold(vec![], |mut l, e| (l.push(see(e)), l).1), rest.to_vec())?,
        7 => seq("rfold()", it.rfold(vec![], |mut l, e| (l.push(see(e)), l).1), back())?,
        8 => {
            // stops early
            let mut left = n;
            let got: Vec<E> = it.by_ref().take_while(|_| (left > 0, left = left.saturating_sub(1)).0).map(&see).take(cap).collect();
            let k = n.min(rest.len());
            seq("take_while()", got, rest[..k].to_vec())?;
            after(&mut it, &rest[(k + 1).min(rest.len())..], "take_while()".into())?;
        }
        // these see items only through a test, so they are found by counting
        11 => {
            let mut left = n;
            let got = it.find(|_| (left == 0, left = left.saturating_sub(1)).0).map(&see);
            if got != rest.get(n).copied() {
                return Err(format!("find() of number {} is {:?}, expected {:?}, {}", n, got, rest.get(n), at));
            }
            after(&mut it, &rest[(n + 1).min(rest.len())..], format!("find() of number {}", n))?;
        }
        12 => {
            let mut left = n;
            let got = it.rfind(|_| (left == 0, left = left.saturating_sub(1)).0).map(&see);
            let want = rest.len().checked_sub(n + 1).map(|k| rest[k]);
            if got != want {
                return Err(format!("rfind() of number {} is {:?}, expected {:?}, {}", n, got, want, at));
            }
            after(&mut it, &rest[..rest.len().saturating_sub(n + 1)], format!("rfind() of number {}", n))?;
        }
        13 => {
            let got = it.max().map(&see);
            if got != rest.last().copied() {
                return Err(format!("max() is {:?}, expected {:?}, {}", got, rest.last(), at));
            }
        }
        14 => {
            let got = it.min().map(&see);
            if got != rest.first().copied() {
                return Err(format!("min() is {:?}, expected {:?}, {}", got, rest.first(), at));
            }
        }
        15 => {
            // one way or the other, stopping at number n
            let mut left = n;
            let mut stop = || (left == 0, left = left.saturating_sub(1)).0;
            let (got, want) = match r.below(3) {
                0 => (it.position(|_| stop()), if n < rest.len() { Some(n) } else { None }),
                1 => (Some(it.any(|_| stop()) as usize), Some((n < rest.len()) as usize)),
                _ => (Some(!it.all(|_| !stop()) as usize), Some((n < rest.len()) as usize)),
            };
            if got != want {
                return Err(format!("position(), any() or all() for number {} is {:?}, expected {:?}, {}", n, got, want, at));
            }
            after(&mut it, &rest[(n + 1).min(rest.len())..], format!("position(), any() or all() for number {}", n))?;
        }
        16 => {
            let mut got = vec![];
            it.for_each(|e| got.push(see(e)));
            seq("for_each()", got, rest.to_vec())?;
        }
        17 => {
            let (odd, even): (Vec<_>, Vec<_>) = it.map(&see).partition(|e| e.0 & 1 == 1);
            seq("partition() (odd)", odd, rest.iter().copied().filter(|e| e.0 & 1 == 1).collect())?;
            seq("partition() (even)", even, rest.iter().copied().filter(|e| e.0 & 1 == 0).collect())?;
        }
        9 => seq("skip()", it.skip(n).map(&see).take(cap).collect(), rest[n.min(rest.len())..].to_vec())?,
        _ => seq("rev().step_by()", it.rev().step_by(n + 1).map(&see).take(cap).collect(), back().into_iter().step_by(n + 1).collect())?,
    }
    Ok(())
}

/// Bounds that change while they are looked at; safe code may hand over such a range, too.
pub struct Shifty<K> {
    first: (Bound<K>, Bound<K>),
    then: (Bound<K>, Bound<K>),
    turn: u32,
    calls: std::cell::Cell<u32>,
}
impl<K> Shifty<K> {
    fn now(&self) -> &(Bound<K>, Bound<K>) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.turn {
            &self.then
        } else {
            &self.first
        }
    }
}
impl<K> std::ops::RangeBounds<K> for Shifty<K> {
    fn start_bound(&self) -> Bound<&K> {
        as_ref_bound(&self.now().0)
    }
    fn end_bound(&self) -> Bound<&K> {
        as_ref_bound(&self.now().1)
    }
}
fn as_ref_bound<K>(b: &Bound<K>) -> Bound<&K> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}

pub fn bound<T>(kind: u64, x: T) -> Bound<T> {
    match kind {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    }
}
pub fn range_expect(m: &[E], lo: Bound<u32>, hi: Bound<u32>) -> Option<Vec<E>> {
    use Bound::*;
    let bad = match (lo, hi) {
        (Excluded(a), Excluded(b)) => a >= b,
        (Included(a), Included(b)) | (Included(a), Excluded(b)) | (Excluded(a), Included(b)) => a > b,
        _ => false,
    };
    if bad {
        return None;
    }
    Some(
        m.iter()
            .filter(|e| match lo {
                Included(a) => e.0 >= a,
                Excluded(a) => e.0 > a,
                Unbounded => true,
            })
            .filter(|e| match hi {
                Included(b) => e.0 <= b,
                Excluded(b) => e.0 < b,
                Unbounded => true,
            })
            .copied()
            .collect(),
    )
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl<K: Key, V: Val, C: TreeConfig<K, V> + Conf> World<K, V, C> {
    pub fn new(nslots: usize, own_mask: u64, mode: Mode, refops: Option<RefOps<K, V, C>>) -> Self {
        World {
            slots: (0..nslots).map(|i| Slot::new(i as u64)).collect(),
            own_mask,
            own: false,
            mon: false,
            mode,
            refops,
            seq: 0,
            stats: Stats::default(),
            acc: 0,
            ins: (0, 0),
            log: Vec::new(),
            combo: 0,
            free: false,
            groups: nslots as u64,
            c0: Counts::default(),
            inc: Inc::default(),
        }
    }
    fn e(&self, k: u32, t: u32, v: u64) -> E {
        Self::ee(k, t, v)
    }
    fn ee(k: u32, t: u32, v: u64) -> E {
        (k, if K::TAGGED { t } else { 0 }, if V::PAYLOAD { v } else { 0 })
    }
    pub fn entries(&self, h: usize) -> Vec<E> {
        self.slots[h].model.iter().map(|(k, (t, v))| self.e(*k, *t, *v)).collect()
    }
    fn see(k: &K, v: &V) -> E {
        Self::ee(k.rank(), k.tag(), v.get())
    }
    /// What the handle shows, by iteration.
    pub fn shown(&self, h: usize) -> Vec<E> {
        let cap = self.slots[h].tree.len() * 2 + 16;
        self.slots[h].tree.iter().take(cap).map(|(k, v)| Self::see(k, v)).collect()
    }
    pub fn next(&mut self) -> (u32, u64) {
        self.seq += 1;
        (self.seq, self.seq as u64)
    }
    fn fresh(&mut self) -> u64 {
        self.groups += 1;
        self.groups
    }
    fn ob(&mut self, x: u64) {
        self.acc = hash2(self.acc, x);
    }
    fn owners(&self, h: usize) -> usize {
        let g = self.slots[h].group;
        self.slots.iter().filter(|s| s.group == g && !s.model.is_empty()).count()
    }

    // ------------------------------------------------------------ measuring

    fn begin(&mut self, h: usize) {
        self.stats.micro += 1;
        if matches!(self.mode, Mode::Copies | Mode::Ledger) {
            self.inc = Inc {
                len: self.slots[h].model.len() as u64,
                shared: self.owners(h) > 1,
            };
        }
        if self.mode == Mode::Cost {
            // no call that meets its bound comes near this
            arm(EV_CMP, 50_000_000);
        }
        self.c0 = counts();
    }
    /// Close the measured call: `n` is the number of entries it dealt with.
    fn end(&mut self, h: usize, op: Op, n: u64) -> Res {
        let d = counts() - self.c0;
        if self.mode == Mode::Cost {
            disarm();
        }
        if matches!(self.mode, Mode::Copies | Mode::Ledger) && d.clone_v > 0 && op != Op::Clone {
            // It has copied: from now on it stands alone.
            self.slots[h].group = self.fresh();
        }
        match self.mode {
            Mode::Cost => {
                let ever = self.slots[h].ever + n + 2;
                let find = find_limit(ever, C::B as u64, C::L as u64);
                let (name, limit) = match op {
                    Op::Lookup => ("comparisons per lookup", find),
                    Op::Position => ("comparisons per range positioning", 2 * find + 8),
                    Op::Ins => ("comparisons per insertion", insert_limit(ever, C::B as u64, C::L as u64)),
                    Op::Rem => ("comparisons per removal", find + 4),
                    Op::Pop => ("comparisons per end removal", 8),
                    Op::Row => (
                        "comparisons by collecting or extending",
                        if n < 64 { (n + 1) * insert_limit(ever, C::B as u64, C::L as u64) } else { n * (2 * find + 16) + insert_limit(ever, C::B as u64, C::L as u64) },
                    ),
                    Op::Bulk => ("comparisons per bulk operation", 8 * n + 32),
                    _ => return Ok(()),
                };
                self.stats.worst(name, d.cmp, limit);
                cm!(
                    self,
                    d.cmp <= limit,
                    "{}: {} (limit {}, {} entries ever inserted, {} live, {} dealt with)",
                    name,
                    d.cmp,
                    limit,
                    ever,
                    self.slots[h].model.len(),
                    n
                );
                if op == Op::Ins {
                    self.ins.0 += d.cmp;
                    self.ins.1 += 1;
                    let (total, many) = self.ins;
                    if many >= 64 {
                        let limit = many * (2 * find + 16) + insert_limit(ever, C::B as u64, C::L as u64);
                        self.stats.worst("comparisons by a row of insertions", total, limit);
                        cm!(self, total <= limit, "{} insertions: {} comparisons (limit {}, {} entries ever inserted)", many, total, limit, ever);
                    }
                }
            }
            Mode::Copies => {
                let Inc { len, shared } = self.inc;
                match op {
                    Op::Lookup | Op::Read | Op::Position => {
                        self.stats.worst("copies made by a read", d.clone_v + d.clone_k, 1);
                        cm!(
                            self,
                            d.clone_v == 0 && d.clone_k == 0,
                            "a read copied {} value(s) and {} key(s)",
                            d.clone_v,
                            d.clone_k
                        );
                    }
                    Op::Clone => {
                        cm!(
                            self,
                            C::KIND == Kind::Unique || (d.clone_v == 0 && d.clone_k == 0),
                            "cloning a shared tree copied {} value(s) and {} key(s)",
                            d.clone_v,
                            d.clone_k
                        );
                    }
                    _ if shared => {
                        self.stats.worst("value copies by a mutation of a sharing handle", d.clone_v, len.max(1));
                        cm!(
                            self,
                            d.clone_v <= len,
                            "{:?} on a sharing handle with {} entries copied {} values",
                            op,
                            len,
                            d.clone_v
                        );
                    }
                    _ => {
                        self.stats.worst("value copies by a mutation of an unshared handle", d.clone_v, 1);
                        cm!(
                            self,
                            d.clone_v == 0,
                            "{:?} on a handle that shares nothing copied {} value(s)",
                            op,
                            d.clone_v
                        );
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn blocks_check(&mut self) -> Res {
        if !alloc::COUNTING {
            return Ok(());
        }
        let b = alloc::blocks();
        let n: u64 = self.slots.iter().map(|s| s.model.len() as u64).sum();
        let ever: u64 = self.slots.iter().map(|s| s.ever).sum();
        let (cb, cl) = (C::B as u64, C::L as u64);
        // levels a tree can have: one per factor B/2, and the two at the bottom
        let levels = 3 + lg(ever) / lg(cb / 2).saturating_sub(1).max(1);
        let limit = if n == 0 { 1 } else { n * levels + 1 };
        self.stats.worst("blocks after any history", b as u64, limit.max(1));
        cm!(self, b <= limit as i64, "{} heap blocks held for {} live entries (limit {})", b, n, limit);
        if self.slots.len() == 1 && self.slots[0].grown && n > 0 {
            let leaves = 3 * n / cl + 2;
            let limit = leaves + 4 * leaves / cb + levels;
            self.stats.worst("blocks of a tree that only grew", b as u64, limit);
            cm!(
                self,
                b <= limit as i64,
                "{} heap blocks held for {} entries of a tree that only grew (limit {})",
                b,
                n,
                limit
            );
        }
        #[cfg(palmtree_verif)]
        {
            let mut nodes = 0;
            for s in &self.slots {
                for (depth, leaf, len, _) in s.tree.verif_shape() {
                    nodes += 1;
                    let empty_root = depth == 0 && s.model.is_empty();
                    cm!(
                        self,
                        len > 0 || empty_root,
                        "a tree of {} entries keeps a {} without any entry at depth {}",
                        s.model.len(),
                        if leaf { "leaf" } else { "branch" },
                        depth
                    );
                }
            }
            if self.slots.len() == 1 {
                cm!(self, b == nodes as i64, "{} heap blocks held, but the tree has {} nodes", b, nodes);
            }
        }
        Ok(())
    }
    pub fn ledger_check(&mut self) -> Res {
        if let Some(b) = ledger_bad() {
            return Err(b);
        }
        if self.mode == Mode::Ledger && self.mon && V::COUNTED {
            let mut seen = HashSet::new();
            let mut exp = 0;
            for s in &self.slots {
                if seen.insert(s.group) {
                    exp += s.tree.len() as i64;
                }
            }
            let live = live_v();
            cm!(self, live == exp, "{} values are alive, but the trees have {} entries", live, exp);
            if K::NAME == "TK" {
                cm!(self, live_k() >= exp, "{} keys are alive, but the trees have {} entries", live_k(), exp);
            }
            if exp == 0 && alloc::COUNTING {
                cm!(
                    self,
                    alloc::blocks() <= self.slots.len() as i64,
                    "{} heap blocks are held by {} empty trees",
                    alloc::blocks(),
                    self.slots.len()
                );
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ elementary operations

    fn after(&mut self, h: usize) -> Res {
        let s = &self.slots[h];
        let (l, m) = (s.tree.len(), s.model.len());
        let e = s.tree.is_empty();
        ck!(self, l == m, "len() is {} with {} live entries", l, m);
        ck!(self, e == (m == 0), "is_empty() is {} with {} live entries", e, m);
        self.acc = hash2(self.acc, l as u64);
        Ok(())
    }
    pub fn ins(&mut self, h: usize, k: u32, via: u8) -> Res {
        let (tag, val) = self.next();
        let old = self.slots[h].model.get(&k).copied();
        let want_old = old.map(|(t, v)| Self::ee(k, t, v));
        let key = K::mk(k, tag);
        let newval = V::mk(val);
        let own = self.own;
        self.begin(h);
        let tree = &mut self.slots[h].tree;
        // what the call said about the previous entry
        let said: Option<Option<u64>> = match via {
            1 => Some(subj(|| tree.insert_recursive(key, newval)).map(|v| v.get())),
            2 | 3 => {
                let g = alloc::Guard::enter(alloc::SUBJECT);
                let r = match tree.entry(key) {
                    Entry::Occupied(mut en) => {
                        let seen = Self::see(en.key(), en.get());
                        if own && want_old != Some(seen) {
                            return Err(format!("entry({}) is occupied by {:?}, expected {:?}", k, seen, want_old));
                        }
                        if via == 2 {
                            Some(Some(en.insert(newval).get()))
                        } else {
                            let slot = en.into_mut();
                            Some(Some(std::mem::replace(slot, newval).get()))
                        }
                    }
                    Entry::Vacant(en) => {
                        let seen = (en.key().rank(), en.key().tag());
                        if own && (seen.0 != k || (K::TAGGED && seen.1 != tag)) {
                            return Err(format!("vacant entry({}.{}) says its key is {:?}", k, tag, seen));
                        }
                        let r = en.insert(newval);
                        let got = r.get();
                        if own && V::PAYLOAD && got != val {
                            return Err(format!("inserting {} into the vacant entry {} returns a reference to {}", val, k, got));
                        }
                        if via == 3 {
                            r.set(val);
                        }
                        Some(None)
                    }
                };
                drop(g);
                r
            }
            4 => {
                subj(|| tree.extend(src(vec![(key, newval)])));
                None
            }
            5 => {
                let r = match subj(|| tree.entry(key)) {
                    Entry::Occupied(en) => {
                        let seen = Self::see(en.key(), en.get());
                        if own && want_old != Some(seen) {
                            return Err(format!("entry({}) is occupied by {:?}, expected {:?}", k, seen, want_old));
                        }
                        Some(Some(en.get().get()))
                    }
                    Entry::Vacant(en) => {
                        let back = en.into_key();
                        if own && (back.rank() != k || (K::TAGGED && back.tag() != tag)) {
                            return Err(format!("into_key of vacant entry {} is {:?}", k, back));
                        }
                        Some(None)
                    }
                };
                drop(newval);
                r
            }
            _ => Some(subj(|| tree.insert(key, newval)).map(|v| v.get())),
        };
        self.end(h, Op::Ins, 1)?;
        if let Some(said) = said {
            let want = want_old.map(|e| e.2);
            self.ob(said.map_or(1, |x| hash2(2, x)));
            ck!(self, said == want, "inserting key {} (via {}) reports previous value {:?}, expected {:?}", k, via, said, want);
        }
        if via != 5 {
            let s = &mut self.slots[h];
            s.ever += 1;
            let t = old.map_or(tag, |o| o.0);
            s.model.insert(k, (t, val));
        }
        self.after(h)
    }
    pub fn rem(&mut self, h: usize, k: u32, via: u8) -> Res {
        let old = self.slots[h].model.get(&k).copied();
        let want = old.map(|(t, v)| Self::ee(k, t, v));
        let (tag, _) = self.next();
        let key = K::mk(k, tag);
        self.begin(h);
        let tree = &mut self.slots[h].tree;
        let got: Option<E> = match via {
            1 | 2 => {
                let _g = alloc::Guard::enter(alloc::SUBJECT);
                match tree.entry(key) {
                    Entry::Occupied(en) => {
                        if via == 1 {
                            let (kk, tt) = (en.key().rank(), en.key().tag());
                            let v = en.remove();
                            Some(Self::ee(kk, tt, v.get()))
                        } else {
                            let (kk, v) = en.remove_entry();
                            Some(Self::see(&kk, &v))
                        }
                    }
                    Entry::Vacant(_) => None,
                }
            }
            _ => subj(|| tree.remove(&key)).map(|(k, v)| Self::see(&k, &v)),
        };
        self.end(h, Op::Rem, 0)?;
        self.ob(got.map_or(3, |e| hash2(e.0 as u64, e.2)));
        let s = &mut self.slots[h];
        s.model.remove(&k);
        s.grown = s.model.is_empty();
        ck!(self, got == want, "removing key {} (via {}) returns {:?}, expected {:?}", k, via, got, want);
        self.after(h)
    }
    pub fn pop(&mut self, h: usize, hi: bool) -> Res {
        let s = &self.slots[h];
        let old = if hi { s.model.last_key_value() } else { s.model.first_key_value() };
        let want = old.map(|(k, (t, v))| Self::ee(*k, *t, *v));
        self.begin(h);
        let tree = &mut self.slots[h].tree;
        let got = subj(|| if hi { tree.remove_highest() } else { tree.remove_lowest() });
        let got = got.map(|(k, v)| Self::see(&k, &v));
        self.end(h, Op::Pop, 0)?;
        self.ob(got.map_or(3, |e| hash2(e.0 as u64, e.2)));
        let s = &mut self.slots[h];
        if let Some(e) = want {
            s.model.remove(&e.0);
        }
        s.grown = s.model.is_empty();
        ck!(
            self,
            got == want,
            "remove_{}() returns {:?}, expected {:?}",
            if hi { "highest" } else { "lowest" },
            got,
            want
        );
        self.after(h)
    }
    fn micro(&mut self, h: usize, m: Micro) -> Res {
        match m {
            Micro::Ins(k, v) => self.ins(h, k, v),
            Micro::Rem(k, v) => self.rem(h, k, v),
            Micro::PopLo => self.pop(h, false),
            Micro::PopHi => self.pop(h, true),
        }
    }
    fn lookup(&mut self, h: usize, k: u32, full: bool) -> Res {
        let want = self.slots[h].model.get(&k).map(|(_, v)| Self::ee(k, 0, *v).2);
        let key = K::mk(k, u32::MAX);
        self.begin(h);
        let got = self.slots[h].tree.get(&key).map(|v| v.get());
        self.end(h, Op::Lookup, 0)?;
        self.ob(got.map_or(5, |x| hash2(6, x)));
        ck!(self, got == want, "get({}) is {:?}, expected {:?}", k, got, want);
        if !full {
            return Ok(());
        }
        let got = self.slots[h].tree.get_linear(&key).map(|v| v.get());
        self.ob(got.map_or(5, |x| hash2(6, x)));
        ck!(self, got == want, "get_linear({}) is {:?}, expected {:?}", k, got, want);
        self.begin(h);
        let got = subj(|| self.slots[h].tree.get_mut(&key).map(|v| v.get()));
        self.end(h, Op::Mutate, 0)?;
        self.ob(got.map_or(5, |x| hash2(6, x)));
        ck!(self, got == want, "get_mut({}) is {:?}, expected {:?}", k, got, want);
        let tree = &self.slots[h].tree;
        let got = if want.is_some() || k % 16 == 0 {
            catch_unwind(AssertUnwindSafe(|| tree[&key].get())).ok()
        } else {
            want
        };
        self.ob(got.map_or(5, |x| hash2(6, x)));
        ck!(self, got == want, "indexing with {} gives {:?}, expected {:?}", k, got, want);
        Ok(())
    }
    fn audit(&mut self, h: usize) -> Res {
        let ks: Vec<u32> = self.slots[h].model.keys().copied().collect();
        for k in &ks {
            self.lookup(h, *k, false)?;
            let up = k + 1;
            if !self.slots[h].model.contains_key(&up) {
                self.lookup(h, up, false)?;
            }
            if *k > 0 && !self.slots[h].model.contains_key(&(k - 1)) {
                self.lookup(h, k - 1, false)?;
            }
        }
        self.lookup(h, 0, false)?;
        self.lookup(h, MAXKEY, false)
    }
    /// The pairs of a bulk step, entered into a fresh model.
    fn pairs(&mut self, a: u32, b: u32, stride: u32) -> (Vec<(K, V)>, Model) {
        let mut m = Model::new();
        let mut out = Vec::new();
        for k in sorted_load(a, b, stride) {
            let (t, v) = self.next();
            m.insert(k, (t, v));
            out.push((K::mk(k, t), V::mk(v)));
        }
        (out, m)
    }
    /// Entries in a drawn order, maybe with some keys more than once, and what inserting them one by one makes of `m`.
    fn crowd(&mut self, st: &Step, mut m: Model) -> (Vec<(K, V)>, Model) {
        let mut r = Rng::new(st.s >> 32);
        let mut ks = sorted_load(st.a, st.b, st.s as u32);
        match st.s >> 32 & 7 {
            0 => {}
            1 => ks.reverse(),
            2 => shuffle(&mut r, &mut ks),
            3 => {
                // again, all or some of them
                let n = ks.len();
                for i in 0..n {
                    if r.chance(1, 2) {
                        ks.push(ks[i]);
                    }
                }
            }
            4 => {
                let n = ks.len();
                for _ in 0..n.min(64) {
                    let i = r.below(n as u64) as usize;
                    ks.push(ks[i]);
                }
                shuffle(&mut r, &mut ks);
            }
            5 => {
                // in order but for one
                let n = ks.len();
                if n > 1 {
                    let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                    ks.swap(i, j);
                }
            }
            6 => {
                // a few pairs of neighbours out of order or doubled
                let n = ks.len();
                for _ in 0..1 + r.below(3) {
                    if n > 1 {
                        let i = r.below(n as u64 - 1) as usize;
                        if r.chance(1, 2) {
                            ks.swap(i, i + 1)
                        } else {
                            ks[i] = ks[i + 1]
                        }
                    }
                }
            }
            _ => {
                // two rising halves, interleaved in blocks
                let n = ks.len();
                ks.rotate_left(r.below(n as u64 + 1) as usize % n.max(1));
            }
        }
        let mut out = Vec::new();
        for k in ks {
            let (t, v) = self.next();
            let kept = m.get(&k).map_or(t, |o| o.0);
            m.insert(k, (kept, v));
            out.push((K::mk(k, t), V::mk(v)));
        }
        (out, m)
    }
    fn install(&mut self, h: usize, tree: PalmTree<K, V, C>, model: Model, grown: bool) {
        let g = self.fresh();
        let s = &mut self.slots[h];
        s.ever = s.ever.max(model.len() as u64);
        s.tree = tree;
        s.model = model;
        s.grown = grown;
        s.group = g;
    }
    /// The values in `h` were handed out or dropped; start over.
    fn vacate(&mut self, h: usize) -> (PalmTree<K, V, C>, Model) {
        let g = self.fresh();
        let s = &mut self.slots[h];
        s.group = g;
        s.grown = true;
        (std::mem::take(&mut s.tree), std::mem::take(&mut s.model))
    }
    /// Contents against model (own steps only).
    fn contents(&mut self, h: usize) -> Res {
        if !self.own && self.mode != Mode::Log {
            return Ok(());
        }
        let got = self.shown(h);
        self.stats.items += got.len() as u64;
        for e in &got {
            self.acc = hash2(self.acc, hash2(e.0 as u64, e.2));
        }
        if !self.own {
            return Ok(());
        }
        diff("contents", &got, &self.entries(h))
    }

    // ------------------------------------------------------------ steps

    pub fn step(&mut self, st: &Step) -> Res {
        self.mon = self.own_mask >> st.c as u8 & 1 == 1;
        self.own = self.mon && self.mode == Mode::Plain;
        self.acc = 0;
        self.ins = (0, 0);
        let h = st.h as usize % self.slots.len();
        let o = st.a as usize % self.slots.len();
        if self.mon || self.free {
            *self.stats.own.entry(st.c.name()).or_default() += 1;
            let m = &self.slots[h].model;
            if m.len() > C::L {
                let e = |x: Option<(&u32, &(u32, u64))>| x.map_or(0, |(k, _)| *k as u64);
                let sig = [self.combo, st.c as u64, m.len() as u64, e(m.first_key_value()), e(m.last_key_value()), st.a as u64, st.b as u64, st.s]
                    .iter()
                    .fold(0, |a, x| hash2(a, *x));
                self.stats.sig(sig);
            }
        }
        self.stats.max_entries = self.stats.max_entries.max(self.slots[h].model.len());
        if self.mode == Mode::Isolation {
            for i in 0..self.slots.len() {
                self.slots[i].snap = self.shown(i);
            }
        }
        self.run(st, h, o)?;
        match self.mode {
            Mode::Blocks => self.blocks_check()?,
            Mode::Ledger => self.ledger_check()?,
            Mode::Isolation if st.c != Code::End => self.isolation(st, h, o)?,
            Mode::Log => self.log.push(self.acc),
            _ => {}
        }
        Ok(())
    }
    /// A clone; for telling whose fault a crash is, a copy that shares nothing.
    fn clone_of(&self, h: usize) -> PalmTree<K, V, C> {
        let t = subj(|| self.slots[h].tree.clone());
        if no_share() {
            let pairs: Vec<(K, V)> = self.slots[h].tree.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            drop(t);
            return subj(|| PalmTree::load(pairs));
        }
        t
    }
    pub fn isolation(&mut self, st: &Step, h: usize, o: usize) -> Res {
        let touches_o = matches!(st.c, Code::Merge | Code::MoveTo | Code::CloneTo);
        for i in 0..self.slots.len() {
            if i == h && !matches!(st.c, Code::CloneTo | Code::ConsumeClone | Code::Contents | Code::Compare) {
                continue;
            }
            if i == o && touches_o {
                continue;
            }
            let now = self.shown(i);
            self.stats.items += now.len() as u64;
            if let Err(e) = diff("contents", &now, &self.slots[i].snap) {
                return Err(format!("{} on handle {} changed handle {}: {}", st.c.name(), h, i, e));
            }
            let t = &self.slots[i].tree;
            if t.len() != now.len() {
                return Err(format!("{} on handle {} left handle {} with len() {} and {} entries", st.c.name(), h, i, t.len(), now.len()));
            }
            // point reads as well, on a sample
            let stepw = now.len() / 16 + 1;
            for e in now.iter().step_by(stepw) {
                let got = t.get(&K::mk(e.0, 0)).map(|v| Self::ee(0, 0, v.get()).2);
                if got != Some(e.2) {
                    return Err(format!("{} on handle {}: handle {} answers get({}) with {:?}, iteration shows {:?}", st.c.name(), h, i, e.0, got, e.2));
                }
            }
        }
        if st.c == Code::CloneTo && h != o {
            let (a, b) = (self.shown(h), self.shown(o));
            diff("a clone's contents", &b, &a)?;
            if self.slots[h].tree.len() != self.slots[o].tree.len() {
                return Err("a clone has another len() than its original".into());
            }
        }
        Ok(())
    }
    pub fn shape(&mut self) {
        #[cfg(palmtree_verif)]
        for s in &self.slots {
            if s.model.len() > 20_000 || s.model.is_empty() {
                continue;
            }
            let sh = s.tree.verif_shape();
            self.stats.max_height = self.stats.max_height.max(sh.iter().map(|x| x.0).max().unwrap_or(0) + 1);
            self.stats.stale += sh.iter().filter(|x| x.3).count() as u64;
            let key = hash_of(&sh);
            if self.stats.shapes.len() < CAP {
                self.stats.shapes.insert(hash2(key, self.combo));
            }
        }
    }

    fn run(&mut self, st: &Step, h: usize, o: usize) -> Res {
        use Code::*;
        match st.c {
            Fill | Drain | Pop | Mix | Thin | Empty => {
                let ms = {
                    let m = &self.slots[h].model;
                    expand(st, &mut m.keys())
                };
                for m in ms {
                    self.micro(h, m)?;
                    if self.mode == Mode::Ledger && self.stats.micro % 32 == 0 {
                        self.ledger_check()?;
                    }
                }
            }
            Insert => self.ins(h, st.a.min(MAXKEY - 1), (st.b % 6) as u8)?,
            Remove => self.rem(h, st.a, (st.b % 3) as u8)?,
            PopOne => self.pop(h, st.a != 0)?,
            Lookup => self.lookup(h, st.a, true)?,
            Peek => self.ins(h, st.a.min(MAXKEY - 1), 5)?,
            Audit => self.audit(h)?,
            Load | Collect | FromMap => {
                let (pairs, m) = if st.c == Collect && st.s >> 32 > 0 {
                    self.crowd(st, Model::new())
                } else {
                    self.pairs(st.a, st.b, st.s as u32)
                };
                let n = pairs.len() as u64;
                self.vacate(h);
                let ever = self.slots[h].ever;
                self.slots[h].ever = 0;
                self.begin(h);
                let tree: PalmTree<K, V, C> = match st.c {
                    Load => subj(|| PalmTree::load(src(pairs))),
                    FromMap => {
                        let map: BTreeMap<K, V> = pairs.into_iter().collect();
                        self.begin(h);
                        subj(|| PalmTree::from(map))
                    }
                    _ => subj(|| src(pairs).collect()),
                };
                self.end(h, if st.c == Collect { Op::Row } else { Op::Bulk }, n)?;
                self.slots[h].ever = ever + if st.c == Collect { n } else { 0 };
                self.install(h, tree, m, true);
                self.after(h)?;
                if st.c != Collect {
                    self.contents(h)?;
                }
            }
            Extend => {
                let before = self.slots[h].model.clone();
                let (pairs, m) = self.crowd(st, before);
                let n = pairs.len() as u64;
                // the entries themselves, or borrowed ones
                let by_ref = self.refops.filter(|_| st.s >> 40 & 3 == 0);
                self.begin(h);
                let t = &mut self.slots[h].tree;
                match by_ref {
                    Some(ops) => subj(|| (ops.extend_from)(t, &pairs)),
                    None => subj(|| t.extend(src(pairs))),
                }
                self.end(h, Op::Row, n)?;
                let s = &mut self.slots[h];
                s.model = m;
                s.ever += n;
                self.after(h)?;
                if self.own && self.mode == Mode::Plain && n > 0 {
                    self.audit(h)?;
                }
            }
            Append => {
                let (pairs, m) = self.pairs(st.a, st.b, (st.s & 0xffff) as u32);
                let other: PalmTree<K, V, C> = subj(|| PalmTree::load(pairs));
                let right = st.s >> 16 & 1 == 1;
                let n = (m.len() + self.slots[h].model.len()) as u64;
                let grown = self.slots[h].grown;
                self.begin(h);
                let t = &mut self.slots[h].tree;
                subj(|| if right { t.append_right(other) } else { t.append_left(other) });
                self.end(h, Op::Bulk, n)?;
                let u = union(&self.slots[h].model, &m, right);
                let s = &mut self.slots[h];
                s.model = u;
                s.ever += m.len() as u64;
                s.grown = grown;
                self.after(h)?;
                self.contents(h)?;
            }
            Reclone => {
                self.begin(h);
                let t = self.clone_of(h);
                self.end(h, Op::Clone, 0)?;
                if C::KIND == Kind::Unique {
                    self.slots[h].group = self.fresh();
                }
                self.slots[h].tree = t;
                self.after(h)?;
            }
            Iter | IterMutRead | IterClone | Range | RangeMut => self.iterate(st, h)?,
            WGetMut | WIndex | WEntry | WVacant | WIterMut | WRangeMut => self.write(st, h)?,
            Consume | ConsumeClone => self.consume(st, h)?,
            Merge | MergeIter | AddRef | AddAssignRef | ExtendRef => self.merge(st, h, o)?,
            CloneTo => {
                if h != o {
                    let into = if st.s & 1 == 1 { Some(self.vacate(o).0) } else { None };
                    self.begin(h);
                    let t = match into {
                        Some(mut t) => {
                            subj(|| t.clone_from(&self.slots[h].tree));
                            t
                        }
                        None => self.clone_of(h),
                    };
                    self.end(h, Op::Clone, 0)?;
                    let (m, ever, grown, g) = {
                        let s = &self.slots[h];
                        (s.model.clone(), s.ever, s.grown, s.group)
                    };
                    self.vacate(o);
                    self.install(o, t, m, grown);
                    self.slots[o].ever = ever;
                    if C::KIND != Kind::Unique && !self.slots[h].model.is_empty() {
                        self.slots[o].group = g;
                    }
                    self.after(o)?;
                }
            }
            DropH => {
                let (t, _) = self.vacate(h);
                drop(t);
                self.slots[h].ever = 0;
            }
            MoveTo => {
                if h != o {
                    let g = self.slots[h].group;
                    let ever = self.slots[h].ever;
                    let grown = self.slots[h].grown;
                    let (t, m) = self.vacate(h);
                    self.vacate(o);
                    self.install(o, t, m, grown);
                    self.slots[o].ever = ever;
                    self.slots[o].group = g;
                }
            }
            Contents => {
                for i in 0..self.slots.len() {
                    self.contents(i)?;
                }
            }
            Compare => self.compare(h, o)?,
            DebugIter => self.debug(st, h)?,
            LoadCmp => self.load_cmp(st, h)?,
            LoadBad => self.load_bad(st)?,
            LoadAny => {
                // in no particular order, with duplicates
                let mut r = Rng::new(st.s);
                let mut pairs = Vec::new();
                for i in 0..st.b {
                    let k = st.a + if r.chance(1, 3) { r.below(st.b as u64 + 1) as u32 } else { i };
                    let (t, v) = self.next();
                    pairs.push((K::mk(k, t), V::mk(v)));
                }
                let m: Model = pairs.iter().map(|(k, v)| (k.rank(), (k.tag(), v.get()))).collect();
                self.vacate(h);
                let tree = subj(|| PalmTree::load(src(pairs)));
                self.install(h, tree, m, false);
            }
            End => self.finish()?,
        }
        Ok(())
    }

    fn iterate(&mut self, st: &Step, h: usize) -> Res {
        use Code::*;
        let all = self.entries(h);
        let cost = self.mode == Mode::Cost;
        let limit = if cost { Some(8) } else { None };
        let mut acc = self.acc;
        let mut worst = 0;
        let mut pat = Pat::new(if matches!(st.c, Range | RangeMut) { st.s >> 8 } else { st.s });
        self.stats.items += all.len() as u64;
        let r: Res = match st.c {
            Iter => {
                self.begin(h);
                let mut it = self.slots[h].tree.iter().map(|(k, v)| Self::see(k, v));
                let r = drive(&mut it, &all, &mut pat, false, &mut acc, limit, &mut worst);
                drop(it);
                self.end(h, Op::Read, 0)?;
                r.and_then(|_| {
                    // the same through IntoIterator for &tree and adapters
                    let n = (&self.slots[h].tree).into_iter().count();
                    if n != all.len() {
                        return Err(format!("count() is {} for {} entries", n, all.len()));
                    }
                    adapt(self.slots[h].tree.iter(), |(k, v)| Self::see(k, v), &all, false, &mut Rng::new(st.s ^ 1))?;
                    Ok(())
                })
            }
            IterMutRead => {
                self.begin(h);
                let mut it = if st.s >> 40 & 1 == 1 { subj(|| (&mut self.slots[h].tree).into_iter()) } else { subj(|| self.slots[h].tree.iter_mut()) }.map(|(k, v)| Self::see(k, v));
                let r = drive(&mut it, &all, &mut pat, false, &mut acc, limit, &mut worst);
                drop(it);
                self.end(h, Op::Mutate, 0)?;
                if !cost && r.is_ok() {
                    adapt(subj(|| self.slots[h].tree.iter_mut()), |(k, v)| Self::see(k, v), &all, false, &mut Rng::new(st.s ^ 1))
                } else {
                    r
                }
            }
            IterClone => {
                let mut it = self.slots[h].tree.iter();
                let (mut i, mut j) = (0, all.len());
                let mut r = Ok(());
                for _ in 0..st.a {
                    if i == j {
                        break;
                    }
                    let f = pat.front();
                    let got = if f { it.next() } else { it.next_back() }.map(|(k, v)| Self::see(k, v));
                    let want = if f { all[i] } else { all[j - 1] };
                    if got != Some(want) {
                        r = Err(format!("iteration gave {:?}, expected {:?}", got, want));
                        break;
                    }
                    if f {
                        i += 1
                    } else {
                        j -= 1
                    }
                }
                r.and_then(|_| {
                    let twin = it.clone();
                    let mut a = it.map(|(k, v)| Self::see(k, v));
                    let mut b = twin.map(|(k, v)| Self::see(k, v));
                    // interleave the two: first half of the original, all of the clone, the rest
                    let mid = i + (j - i) / 2;
                    for e in &all[i..mid] {
                        let got = a.next();
                        if got != Some(*e) {
                            return Err(format!("iteration gave {:?}, expected {:?}", got, e));
                        }
                    }
                    drive(&mut b, &all[i..j], &mut Pat::new(st.s >> 3), false, &mut acc, limit, &mut worst)
                        .map_err(|e| format!("cloned iterator: {}", e))?;
                    drive(&mut a, &all[mid..j], &mut Pat::new(st.s >> 5), false, &mut acc, limit, &mut worst)
                        .map_err(|e| format!("iterator that was cloned: {}", e))
                })
            }
            _ if self.free && st.s >> 58 & 3 == 0 => {
                let key = |kind: u64, x: u32| bound(kind % 3, K::mk(x, 0));
                let range = Shifty {
                    first: (key(st.s >> 8, st.a.min(st.b)), key(st.s >> 10, st.a.max(st.b).saturating_add(1))),
                    then: (key(st.s >> 12, st.b.max(st.a)), key(st.s >> 14, st.a.min(st.b))),
                    turn: (st.s >> 16) as u32 % 4,
                    calls: Default::default(),
                };
                self.begin(h);
                let tree = &mut self.slots[h].tree;
                let _ = if st.c == Range {
                    drive(&mut tree.range(range).map(|(k, v)| Self::see(k, v)), &all, &mut pat, false, &mut acc, limit, &mut worst)
                } else {
                    // none of the references may be to the same value
                    let mut it = subj(|| tree.range_mut(range));
                    let mut held: Vec<&mut V> = Vec::new();
                    while let Some((_, v)) = if pat.front() { it.next() } else { it.next_back() } {
                        held.push(v);
                        if held.len() > all.len() * 2 + 16 {
                            break;
                        }
                    }
                    if std::mem::size_of::<V>() > 0 {
                        let mut ad: Vec<usize> = held.iter().map(|v| &**v as *const V as usize).collect();
                        ad.sort();
                        if let Some(w) = ad.windows(2).find(|w| w[0] == w[1]) {
                            crate::runner::journal_note("range_mut gave out two references to the same value");
                            return Err(format!("range_mut over shifting bounds gave out {:#x} twice", w[0]));
                        }
                    }
                    held.into_iter().for_each(|v| v.set(5));
                    Ok(())
                };
                self.end(h, if st.c == Range { Op::Read } else { Op::Mutate }, 0)?;
                Ok(())
            }
            _ => {
                let (lo, hi) = (bound(st.s & 3, st.a), bound(st.s >> 2 & 3, st.b));
                let exp = range_expect(&all, lo, hi);
                let kb = |b: Bound<u32>| match b {
                    Bound::Included(x) => Bound::Included(K::mk(x, 0)),
                    Bound::Excluded(x) => Bound::Excluded(K::mk(x, 0)),
                    Bound::Unbounded => Bound::Unbounded,
                };
                let (bounds, bounds2) = ((kb(lo), kb(hi)), (kb(lo), kb(hi)));
                self.begin(h);
                let c0 = counts().cmp;
                let tree = &mut self.slots[h].tree;
                let got = if st.c == Range {
                    let it = catch_unwind(AssertUnwindSafe(|| tree.range(bounds)));
                    let c = counts().cmp - c0;
                    it.map_err(drop).map(|it| {
                        let mut it = it.map(|(k, v)| Self::see(k, v));
                        (c, exp.as_ref().map(|exp| drive(&mut it, exp, &mut pat, false, &mut acc, limit, &mut worst)))
                    })
                } else {
                    let it = catch_unwind(AssertUnwindSafe(|| subj(|| tree.range_mut(bounds))));
                    let c = counts().cmp - c0;
                    it.map_err(drop).map(|it| {
                        let mut it = it.map(|(k, v)| Self::see(k, v));
                        (c, exp.as_ref().map(|exp| drive(&mut it, exp, &mut pat, false, &mut acc, limit, &mut worst)))
                    })
                };
                self.end(h, if st.c == Range { Op::Read } else { Op::Mutate }, 0)?;
                let what = || format!("range{} {:?}..{:?} of {} entries", if st.c == Range { "" } else { "_mut" }, lo, hi, all.len());
                match got {
                    Err(()) => {
                        acc = hash2(acc, 99);
                        if cost && crate::runner::last_panic().starts_with("(injected)") {
                            return Err(format!("{}: no end of comparisons", what()));
                        }
                        if exp.is_some() {
                            Err(format!("{} panicked: {}", what(), crate::runner::last_panic()))
                        } else {
                            Ok(())
                        }
                    }
                    Ok((c, r)) => {
                        if cost {
                            let limit = 2 * find_limit(self.slots[h].ever + 2, C::B as u64, C::L as u64) + 8;
                            self.stats.worst("comparisons per range positioning", c, limit);
                            cm!(self, c <= limit, "{}: positioning made {} comparisons (limit {})", what(), c, limit);
                        }
                        match r {
                            None => Err(format!("{} must panic but did not", what())),
                            Some(r) => {
                                let exp = exp.as_ref().unwrap();
                                let tree = &mut self.slots[h].tree;
                                let (see, mut rr) = (|(k, v): (&K, &V)| Self::see(k, v), Rng::new(st.s ^ 1));
                                r.and_then(|_| {
                                    if cost {
                                        Ok(())
                                    } else if st.c == Range {
                                        adapt(tree.range(bounds2), see, exp, false, &mut rr)
                                    } else {
                                        adapt(subj(|| tree.range_mut(bounds2)), |(k, v)| Self::see(k, v), exp, false, &mut rr)
                                    }
                                })
                                .map_err(|e| format!("{}: {}", what(), e))
                            }
                        }
                    }
                }
            }
        };
        if cost {
            self.stats.worst("comparisons per iterator step", worst, 8);
        }
        self.acc = acc;
        if let Err(e) = r {
            if self.own || (self.mon && cost && e.starts_with(COST)) {
                return Err(format!("{}: {}", st.c.name(), e));
            }
        }
        Ok(())
    }

    /// Write through a mutable handle: exactly the addressed entry changes.
    fn write(&mut self, st: &Step, h: usize) -> Res {
        use Code::*;
        let before = if self.own || self.mode == Mode::Log { self.shown(h) } else { Vec::new() };
        let mut expect: BTreeMap<u32, (u32, u64)> = before.iter().map(|e| (e.0, (e.1, e.2))).collect();
        let k = st.a.min(MAXKEY - 1);
        let (tag, val) = self.next();
        let own = self.own;
        let present = before.iter().find(|e| e.0 == k).copied();
        self.begin(h);
        match st.c {
            WGetMut | WIndex => {
                let key = K::mk(k, 0);
                let tree = &mut self.slots[h].tree;
                let r = if st.c == WGetMut {
                    subj(|| tree.get_mut(&key))
                } else if self.slots[h].model.contains_key(&k) {
                    Some(subj(|| &mut self.slots[h].tree[&key]))
                } else {
                    None
                };
                let mut seen = None;
                let hit = r.is_some();
                if let Some(v) = r {
                    seen = Some(v.get());
                    v.set(val);
                }
                self.end(h, Op::Mutate, 0)?;
                if hit {
                    if let (true, Some(e)) = (own, present) {
                        ck!(self, seen == Some(e.2), "{}({}) refers to value {:?}, the tree shows {:?}", st.c.name(), k, seen, e.2);
                    }
                    expect.entry(k).and_modify(|e| e.1 = val);
                    self.slots[h].model.entry(k).and_modify(|e| e.1 = val);
                }
            }
            WEntry | WVacant => {
                let key = K::mk(k, tag);
                let tree = &mut self.slots[h].tree;
                let g = alloc::Guard::enter(alloc::SUBJECT);
                match tree.entry(key) {
                    Entry::Occupied(mut en) => {
                        let seen = Self::see(en.key(), en.get());
                        if own && present.is_some() && Some(seen) != present {
                            return Err(format!("the occupied entry of {} reads {:?}, the tree shows {:?}", k, seen, present));
                        }
                        match st.s % 3 {
                            0 => {
                                let (x, y) = (en.get_mut().get(), en.get().get());
                                if own && x != y {
                                    return Err(format!("entry of {}: get_mut reads {}, get reads {}", k, x, y));
                                }
                                en.get_mut().set(val);
                                let y = en.get().get();
                                if own && V::PAYLOAD && y != val {
                                    return Err(format!("entry of {}: wrote {}, get reads {}", k, val, y));
                                }
                            }
                            1 => {
                                let old = en.insert(V::mk(val)).get();
                                if own && present.map_or(false, |e| e.2 != old) {
                                    return Err(format!("entry of {}: insert returned {}, the tree showed {:?}", k, old, present));
                                }
                            }
                            _ => en.into_mut().set(val),
                        }
                        let _e = alloc::Guard::enter(alloc::HARNESS);
                        expect.entry(k).and_modify(|e| e.1 = val);
                        self.slots[h].model.entry(k).and_modify(|e| e.1 = val);
                    }
                    Entry::Vacant(en) => {
                        let (r, t) = (en.key().rank(), en.key().tag());
                        if own && (r != k || (K::TAGGED && t != tag)) {
                            return Err(format!("the vacant entry of {}.{} says its key is {}.{}", k, tag, r, t));
                        }
                        if st.c == WVacant {
                            let r = en.insert(V::mk(val ^ 1));
                            let got = r.get();
                            if own && V::PAYLOAD && got != val ^ 1 {
                                return Err(format!("the reference returned by inserting {} at {} reads {}", val ^ 1, k, got));
                            }
                            r.set(val);
                            let _e = alloc::Guard::enter(alloc::HARNESS);
                            expect.insert(k, (if K::TAGGED { tag } else { 0 }, if V::PAYLOAD { val } else { 0 }));
                            let s = &mut self.slots[h];
                            s.ever += 1;
                            s.model.insert(k, (tag, val));
                        }
                    }
                }
                drop(g);
                self.end(h, Op::Ins, 1)?;
            }
            _ => {
                let mut r = Rng::new(st.s);
                let mut pat = Pat::new(r.next());
                let den = 1 + r.below(4);
                let mut cap = self.slots[h].tree.len() * 2 + 8;
                if r.chance(1, 4) {
                    cap = 1 + r.below(cap as u64) as usize / 2;
                }
                let bounds = if st.c == WIterMut {
                    (Bound::Unbounded, Bound::Unbounded)
                } else {
                    let (a, b) = (st.a.min(st.b), st.a.max(st.b));
                    if r.chance(1, 2) || a == b {
                        (Bound::Included(K::mk(a, 0)), Bound::Included(K::mk(b, 0)))
                    } else {
                        (Bound::Excluded(K::mk(a, 0)), Bound::Excluded(K::mk(b, 0)))
                    }
                };
                let mut held: Vec<(u32, &mut V)> = Vec::new();
                {
                    let tree = &mut self.slots[h].tree;
                    let mut it = if st.c == WIterMut && r.chance(1, 2) {
                        subj(|| tree.iter_mut())
                    } else {
                        subj(|| tree.range_mut(bounds))
                    };
                    while held.len() < cap {
                        match if pat.front() { it.next() } else { it.next_back() } {
                            Some((k, v)) => held.push((k.rank(), v)),
                            None => break,
                        }
                    }
                }
                if (own || self.free) && std::mem::size_of::<V>() > 0 {
                    let mut ad: Vec<(usize, u32)> = held.iter().map(|(k, v)| (&**v as *const V as usize, *k)).collect();
                    ad.sort();
                    for w in ad.windows(2) {
                        if w[0].0 + std::mem::size_of::<V>() > w[1].0 {
                            return Err(format!("{} handed out overlapping references for keys {} and {}", st.c.name(), w[0].1, w[1].1));
                        }
                    }
                }
                // the references are all alive at once; write through some of them, in any order
                shuffle(&mut r, &mut held);
                let mut seq = self.seq;
                let mut wrote = Vec::new();
                for (k, v) in held.iter_mut() {
                    if own {
                        if let Some(e) = expect.get(k) {
                            if V::PAYLOAD && e.1 != v.get() {
                                return Err(format!("{}: the item of key {} reads {}, the tree shows {}", st.c.name(), k, v.get(), e.1));
                            }
                        }
                    }
                    if r.chance(1, den) {
                        seq += 1;
                        v.set(seq as u64);
                        wrote.push((*k, seq as u64));
                    }
                }
                drop(held);
                self.seq = seq;
                self.end(h, Op::Mutate, 0)?;
                for (k, v) in wrote {
                    expect.entry(k).and_modify(|e| e.1 = v);
                    self.slots[h].model.entry(k).and_modify(|e| e.1 = v);
                }
            }
        }
        if self.own || self.mode == Mode::Log {
            let now = self.shown(h);
            self.stats.items += now.len() as u64;
            for e in &now {
                self.acc = hash2(self.acc, hash2(e.0 as u64, e.2));
            }
            if own {
                let exp: Vec<E> = expect.iter().map(|(k, (t, v))| Self::ee(*k, *t, *v)).collect();
                diff(&format!("contents after {}({})", st.c.name(), st.a), &now, &exp)?;
                // visible to point reads too
                for k in [k, st.b] {
                    let got = self.slots[h].tree.get(&K::mk(k, 0)).map(|v| v.get());
                    let want = expect.get(&k).map(|e| Self::ee(0, 0, e.1).2);
                    if want.is_some() && got != want {
                        return Err(format!("after {}({}), get({}) is {:?}, expected {:?}", st.c.name(), st.a, k, got, want));
                    }
                }
            }
        }
        Ok(())
    }

    fn consume(&mut self, st: &Step, h: usize) -> Res {
        let all = self.entries(h);
        let n = all.len();
        let mut acc = self.acc;
        let tree = if st.c == Code::ConsumeClone {
            self.begin(h);
            let t = self.clone_of(h);
            self.end(h, Op::Clone, 0)?;
            t
        } else {
            std::mem::take(&mut self.slots[h].tree)
        };
        self.stats.items += n as u64;
        let stop = if st.a as usize >= n { usize::MAX } else { st.a as usize };
        self.begin(h);
        if st.c == Code::ConsumeClone && C::KIND != Kind::Unique && n > 0 {
            self.inc.shared = true;
        }
        let mut pat = Pat::new(st.s);
        let mut worst = 0;
        let limit = if self.mode == Mode::Cost { Some(8) } else { None };
        let it = subj(|| tree.into_iter());
        let len0 = it.len();
        let mut it = it.map(|(k, v)| Self::see(&k, &v));
        let r = if stop == usize::MAX {
            let r = drive(&mut it, &all, &mut pat, true, &mut acc, limit, &mut worst);
            drop(it);
            r
        } else {
            let (mut i, mut j) = (0, n);
            let mut r = Ok(());
            for _ in 0..stop {
                let f = pat.front();
                let got = if f { it.next() } else { it.next_back() };
                let want = if f { all[i] } else { all[j - 1] };
                acc = hash2(acc, got.map_or(0, |e| hash2(e.0 as u64, e.2)));
                if got != Some(want) {
                    r = Err(format!("{} number {} of {} is {:?}, expected {:?}", if f { "next()" } else { "next_back()" }, i + n - j, n, got, want));
                    break;
                }
                if f {
                    i += 1
                } else {
                    j -= 1
                }
                if it.size_hint() != (j - i, Some(j - i)) {
                    r = Err(format!("size_hint is {:?} with {} entries to come", it.size_hint(), j - i));
                    break;
                }
            }
            drop(it);
            r
        };
        // the clone's nodes were never in the handle's group
        let g = self.slots[h].group;
        self.end(h, Op::Consume, n as u64)?;
        if st.c == Code::ConsumeClone {
            self.slots[h].group = g;
        } else {
            self.vacate(h);
        }
        self.acc = hash2(acc, len0 as u64);
        if self.own && self.mode == Mode::Plain {
            if len0 != n {
                return Err(format!("{}: len() of the owning iterator is {} for {} entries", st.c.name(), len0, n));
            }
            if let Err(e) = r {
                return Err(format!("{}: {}", st.c.name(), e));
            }
        } else if self.mon && self.mode == Mode::Cost && worst > 8 {
            return Err(format!("{}: {} comparisons in one step of the owning iterator", st.c.name(), worst));
        }
        if st.c == Code::ConsumeClone {
            if matches!(self.mode, Mode::Plain | Mode::Log | Mode::Ledger) {
                let t = self.clone_of(h);
                let r = adapt(subj(|| t.into_iter()), |(k, v)| Self::see(&k, &v), &all, true, &mut Rng::new(st.s ^ 1));
                if self.own {
                    r.map_err(|e| format!("{}: {}", st.c.name(), e))?;
                }
            }
            self.contents(h)?;
        }
        Ok(())
    }

    fn merge(&mut self, st: &Step, h: usize, o: usize) -> Res {
        use Code::*;
        if h == o && st.c != MergeIter {
            return Ok(());
        }
        let n = (self.slots[h].model.len() + self.slots[o].model.len()) as u64;
        let both_shared_len = |w: &Self| {
            let a = if w.owners(h) > 1 { w.slots[h].model.len() } else { 0 };
            let b = if w.owners(o) > 1 { w.slots[o].model.len() } else { 0 };
            (a + b) as u64
        };
        match st.c {
            Merge => {
                let keep = st.s & 1 == 1;
                let mode = st.b % 6;
                let right = matches!(mode, 1 | 3 | 4 | 5);
                let other;
                let om = self.slots[o].model.clone();
                let og = self.slots[o].group;
                let allow;
                if keep {
                    self.begin(o);
                    other = self.clone_of(o);
                    self.end(o, Op::Clone, 0)?;
                    let a = if self.owners(h) > 1 { self.slots[h].model.len() } else { 0 };
                    let b = if C::KIND != Kind::Unique { om.len() } else { 0 };
                    allow = (a + b) as u64;
                } else {
                    allow = both_shared_len(self);
                    other = self.vacate(o).0;
                }
                self.begin(h);
                self.inc.len = allow;
                self.inc.shared = allow > 0;
                let tree = &mut self.slots[h].tree;
                {
                    let _g = alloc::Guard::enter(alloc::SUBJECT);
                    match mode {
                        0 => *tree = PalmTree::merge_left(std::mem::take(tree), other),
                        1 => *tree = PalmTree::merge_right(std::mem::take(tree), other),
                        2 => tree.append_left(other),
                        3 => tree.append_right(other),
                        4 => *tree = std::mem::take(tree) + other,
                        _ => *tree += other,
                    }
                }
                self.end(h, Op::Bulk, n)?;
                let u = union(&self.slots[h].model, &om, right);
                let ever = self.slots[o].ever;
                let mut g = self.fresh();
                // Appending to an empty tree may just adopt the other one.
                if C::KIND != Kind::Unique && (counts() - self.c0).clone_v == 0 && self.slots[h].model.is_empty() && !om.is_empty() {
                    g = og;
                }
                // and appending an empty one may leave it alone.
                if (counts() - self.c0).clone_v == 0 && om.is_empty() {
                    g = self.slots[h].group;
                }
                let s = &mut self.slots[h];
                s.model = u;
                s.ever += ever;
                s.group = g;
                s.grown = false;
                self.after(h)?;
                if self.own {
                    let r = self.contents(h);
                    r.map_err(|e| format!("Merge mode {}: {}", mode, e))?;
                    if keep {
                        self.contents(o).map_err(|e| format!("operand of Merge mode {}: {}", mode, e))?;
                    }
                } else {
                    self.contents(h)?;
                }
            }
            MergeIter => {
                let right = st.b & 1 == 1;
                let way = st.b / 2 % 4;
                // 0, 1: owning iterators, to the end or stopped early; 2, 3: borrowing ones, forwards or backwards
                let (exp, got, c, last) = if way < 2 {
                    let (a, b) = (self.clone_of(h), self.clone_of(o));
                    let u = union(&self.slots[h].model, &self.slots[o].model, right);
                    let exp: Vec<E> = u.iter().map(|(k, (t, v))| Self::ee(*k, *t, *v)).collect();
                    let cap = if way == 0 { exp.len() * 2 + 16 } else { (st.s >> 8) as usize % (exp.len() + 1) };
                    let c0 = counts().cmp;
                    let (got, last) = if right {
                        pull(PalmTree::merge_right_iter(a, b), cap, st.s, |(k, v)| Self::see(&k, &v))
                    } else {
                        pull(PalmTree::merge_left_iter(a, b), cap, st.s, |(k, v)| Self::see(&k, &v))
                    };
                    (exp, got, counts().cmp - c0, last)
                } else {
                    // the two sequences as they are; what they should be is not this step's business
                    let (ta, tb) = (&self.slots[h].tree, &self.slots[o].tree);
                    let cap = ta.len() + tb.len() + 16;
                    let back = way == 3;
                    let seq = |t: &PalmTree<K, V, C>| -> Option<Vec<E>> {
                        let mut v: Vec<E> = t.iter().take(cap).map(|(k, v)| Self::see(k, v)).collect();
                        if back {
                            v = t.iter().rev().take(cap).map(|(k, v)| Self::see(k, v)).collect();
                        }
                        v.windows(2).all(|w| if back { w[0].0 > w[1].0 } else { w[0].0 < w[1].0 }).then_some(v)
                    };
                    let (sa, sb) = match (seq(ta), seq(tb)) {
                        (Some(a), Some(b)) => (a, b),
                        _ => return Ok(()),
                    };
                    let mut m: BTreeMap<u32, E> = BTreeMap::new();
                    for e in if right { sa.iter().chain(&sb) } else { sb.iter().chain(&sa) } {
                        m.insert(e.0, *e);
                    }
                    let mut exp: Vec<E> = m.into_values().collect();
                    if back {
                        exp.reverse();
                    }
                    let c0 = counts().cmp;
                    let eq = |l: &(&K, &V), r: &(&K, &V)| l.0 == r.0;
                    type It<'a, K, V> = (&'a K, &'a V);
                    let see = |(k, v): It<K, V>| Self::see(k, v);
                    let (got, last) = match (back, right) {
                        (false, false) => pull(palmtree::MergeIter::merge(ta.iter(), tb.iter(), |l: &It<K, V>, r: &It<K, V>| l.0 > r.0, eq), cap, st.s, see),
                        (false, true) => pull(palmtree::MergeIter::merge(ta.iter(), tb.iter(), |l: &It<K, V>, r: &It<K, V>| l.0 >= r.0, eq), cap, st.s, see),
                        (true, false) => pull(palmtree::MergeIter::merge(ta.iter().rev(), tb.iter().rev(), |l: &It<K, V>, r: &It<K, V>| l.0 < r.0, eq), cap, st.s, see),
                        (true, true) => pull(palmtree::MergeIter::merge(ta.iter().rev(), tb.iter().rev(), |l: &It<K, V>, r: &It<K, V>| l.0 <= r.0, eq), cap, st.s, see),
                    };
                    (exp, got, counts().cmp - c0, last)
                };
                for e in &got {
                    self.acc = hash2(self.acc, hash2(e.0 as u64, e.2));
                }
                self.stats.items += got.len() as u64;
                if self.mode == Mode::Cost {
                    let limit = 8 * n + 32;
                    self.stats.worst("comparisons per merge", c, limit);
                    cm!(self, c <= limit, "merging {} entries made {} comparisons", n, c);
                }
                if self.own {
                    let name = format!("{} merge iterator (way {})", if right { "right" } else { "left" }, way);
                    let (stop, last) = last;
                    diff(&name, &got, &exp[..stop.min(exp.len())])?;
                    if let Some((l, how)) = last {
                        let want = exp.get(got.len()..).and_then(|x| x.last()).copied();
                        ck!(self, l == want, "{}: {} after {} of {} entries gave {:?}, expected {:?}", name, how, got.len(), exp.len(), l, want);
                    }
                }
            }
            _ => {
                let ops = match self.refops {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let alt = st.b & 1 == 1;
                let (hs, os) = if h < o {
                    let (a, b) = self.slots.split_at_mut(o);
                    (&mut a[h], &b[0])
                } else {
                    let (a, b) = self.slots.split_at_mut(h);
                    (&mut b[0], &a[o])
                };
                match st.c {
                    AddRef => {
                        let t = std::mem::take(&mut hs.tree);
                        hs.tree = (ops.add)(t, &os.tree, alt)
                    }
                    AddAssignRef => (ops.add_assign)(&mut hs.tree, &os.tree, alt),
                    _ => (ops.extend)(&mut hs.tree, &os.tree),
                }
                // extending keeps the stored key of a collision, + replaces the whole pair
                let keep_key = st.c == ExtendRef;
                let mut u = union(&hs.model, &os.model, true);
                if keep_key {
                    for (k, (t, _)) in &hs.model {
                        u.get_mut(k).unwrap().0 = *t;
                    }
                }
                hs.model = u;
                hs.ever += os.ever;
                hs.grown = false;
                self.after(h)?;
                self.contents(h).map_err(|e| format!("{}: {}", st.c.name(), e))?;
                self.contents(o).map_err(|e| format!("borrowed operand of {}: {}", st.c.name(), e))?;
            }
        }
        Ok(())
    }

    /// Equality, ordering, hashing against the contents the trees show.
    fn compare(&mut self, h: usize, o: usize) -> Res {
        let (a, b) = (self.shown(h), self.shown(o));
        self.begin(h);
        let (ta, tb) = (&self.slots[h].tree, &self.slots[o].tree);
        let strip = |x: &[E]| -> Vec<(u32, u64)> { x.iter().map(|e| (e.0, e.2)).collect() };
        let (sa, sb) = (strip(&a), strip(&b));
        let got = (ta == tb, ta != tb, ta.partial_cmp(tb), ta.cmp(tb), (ta < tb, ta <= tb, ta > tb, ta >= tb), std::ptr::eq(ta.max(tb), ta), std::ptr::eq(ta.min(tb), ta));
        let ord = sa.cmp(&sb);
        let same = std::ptr::eq(ta, tb);
        let want = (sa == sb, sa != sb, Some(ord), ord, (ord.is_lt(), ord.is_le(), ord.is_gt(), ord.is_ge()), same || ord.is_gt(), same || ord.is_le());
        let (ha, hb) = (hash_of(ta), hash_of(tb));
        // A tree with the same contents but another history.
        let twin: PalmTree<K, V, C> = ta.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let twin_ok = (twin == *ta, twin.cmp(ta).is_eq(), hash_of(&twin) == ha);
        drop(twin);
        self.ob(hash_of(&got));
        ck!(self, got == want, "(==, !=, partial_cmp, cmp, (<, <=, >, >=), max is left, min is left) of {:?} and {:?} is {:?}, expected {:?}", brief(&a), brief(&b), got, want);
        ck!(self, sa != sb || ha == hb, "equal trees hash differently: {:?}", brief(&a));
        ck!(self, twin_ok == (true, true, true), "a tree rebuilt from the same entries is not (==, cmp, hash) the same: {:?} for {:?}", twin_ok, brief(&a));
        self.stats.items += (a.len() + b.len()) as u64;
        Ok(())
    }
    fn debug(&mut self, st: &Step, h: usize) -> Res {
        struct M<'a, K, V>(&'a [(K, V)]);
        impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for M<'_, K, V> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_map().entries(self.0.iter().map(|(a, b)| (a, b))).finish()
            }
        }
        let t = &self.slots[h].tree;
        let pairs: Vec<(K, V)> = t.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let alt = st.s & 1 == 1;
        let (got, want) = if alt {
            (format!("{:#?}", t), format!("{:#?}", M(&pairs)))
        } else {
            (format!("{:?}", t), format!("{:?}", M(&pairs)))
        };
        let mut it = t.iter();
        let n = pairs.len();
        let f = (st.a as usize).min(n);
        let b = (st.b as usize).min(n - f);
        for _ in 0..f {
            it.next();
        }
        for _ in 0..b {
            it.next_back();
        }
        let got2 = format!("{:?}", it);
        let want2 = format!("{:?}", M(&pairs[f..n - b]));
        let left = it.count();
        self.stats.items += n as u64;
        ck!(self, got == want, "Debug of the tree is {}, expected {}", cut(&got), cut(&want));
        ck!(self, got2 == want2, "Debug of an iterator after {} + {} of {} entries is {}, expected {}", f, b, n, cut(&got2), cut(&want2));
        if self.mode == Mode::Plain {
            // entries name their key, and their value if they have one
            let rank = match pairs.get(st.s as usize / 2 % n.max(1)) {
                Some((k, _)) => k.rank().saturating_add((st.s >> 20 & 1) as u32),
                None => st.s as u32 & 0xff,
            };
            let mut t = self.slots[h].tree.clone();
            let e = t.entry(K::mk(rank, 0));
            let want = match &e {
                palmtree::Entry::Vacant(e) => (format!("{:?}", e), format!("{:?}", e.key()), String::new()),
                palmtree::Entry::Occupied(e) => (format!("{:?}", e), format!("{:?}", e.key()), format!("{:?}", e.get())),
            };
            drop(e);
            let x = &want.0;
            ck!(self, x.contains(&want.1) && x.contains(&want.2), "Debug of an entry is {}, should name {} {}", cut(x), want.1, want.2);
        }
        ck!(self, left == n - f - b, "formatting an iterator moved it: {} entries left of {}", left, n - f - b);
        Ok(())
    }
    /// A loaded tree against one built by single insertions, and against the model.
    fn load_cmp(&mut self, st: &Step, h: usize) -> Res {
        let all: Vec<(u32, (u32, u64))> = self.slots[h].model.iter().map(|(k, v)| (*k, *v)).collect();
        let mk = |all: &[(u32, (u32, u64))]| -> Vec<(K, V)> { all.iter().map(|(k, (t, v))| (K::mk(*k, *t), V::mk(*v))).collect() };
        let _g = alloc::Guard::enter(alloc::SUBJECT);
        let loaded: PalmTree<K, V, C> = if st.s & 1 == 0 {
            PalmTree::load(src(mk(&all)))
        } else {
            PalmTree::from(mk(&all).into_iter().collect::<BTreeMap<K, V>>())
        };
        let mut grown: PalmTree<K, V, C> = PalmTree::new();
        for (k, v) in mk(&all) {
            grown.insert(k, v);
        }
        drop(_g);
        let seen = |t: &PalmTree<K, V, C>| -> Vec<E> { t.iter().take(all.len() * 2 + 16).map(|(k, v)| Self::see(k, v)).collect() };
        let (a, b) = (seen(&loaded), seen(&grown));
        let m: Vec<E> = all.iter().map(|(k, (t, v))| Self::ee(*k, *t, *v)).collect();
        self.stats.items += 2 * all.len() as u64;
        ck!(self, loaded.len() == all.len(), "len() after loading {} pairs is {}", all.len(), loaded.len());
        if self.own {
            if b == m {
                diff("contents after loading", &a, &b)?;
            }
            let mut r = Rng::new(st.s);
            let hi = all.last().map_or(10, |x| x.0 + 4);
            for i in 0..(all.len() * 2 + 8).min(400) {
                let k = if i % 2 == 0 && !all.is_empty() { all[r.below(all.len() as u64) as usize].0 + r.below(2) as u32 } else { r.below(hi as u64) as u32 };
                let key = K::mk(k, 0);
                let (x, y) = (loaded.get(&key).map(|v| v.get()), grown.get(&key).map(|v| v.get()));
                ck!(self, x == y, "get({}) is {:?} on the loaded tree and {:?} on the inserted one ({} pairs)", k, x, y, all.len());
                let k2 = k + r.below(20) as u32;
                let bounds = || (bound(r.clone().below(2), K::mk(k, 0)), bound(r.clone().below(3), K::mk(k2 + 1, 0)));
                let x: Vec<E> = loaded.range(bounds()).take(6).map(|(k, v)| Self::see(k, v)).collect();
                let y: Vec<E> = grown.range(bounds()).take(6).map(|(k, v)| Self::see(k, v)).collect();
                r.next();
                ck!(self, x == y, "a range from {} is {:?} on the loaded tree and {:?} on the inserted one", k, x, y);
            }
        }
        // Continue on the loaded tree: later steps mutate it.
        self.vacate(h);
        let model = all.into_iter().collect();
        self.install(h, loaded, model, true);
        Ok(())
    }
    /// Load a sequence with one defect (b: position, s: kind); only debug builds promise anything.
    fn load_bad(&mut self, st: &Step) -> Res {
        if !cfg!(debug_assertions) {
            return Ok(());
        }
        let n = st.a.max(2) as usize;
        let mut ks: Vec<u32> = (0..n as u32).map(|i| 10 + i * 3).collect();
        let at = 1 + st.b as usize % (n - 1);
        match st.s % 4 {
            0 => ks[at] = ks[at - 1],
            1 => ks[at] = ks[at - 1] - 1,
            2 => ks.swap(at, at - 1),
            _ => ks[at] = 0,
        }
        let want = true;
        let pairs: Vec<(K, V)> = ks.iter().enumerate().map(|(i, k)| (K::mk(*k, i as u32), V::mk(i as u64))).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let t: PalmTree<K, V, C> = PalmTree::load(pairs);
            std::mem::forget(t);
        }));
        self.stats.items += n as u64;
        ck!(
            self,
            r.is_err() == want,
            "loading {} keys with {} {} at position {} did not panic in a debug build",
            n,
            if st.s % 4 == 0 { "the duplicate" } else { "the out-of-order key" },
            ks[at],
            at
        );
        Ok(())
    }
    /// Drop everything; nothing may be left.
    pub fn finish(&mut self) -> Res {
        for i in 0..self.slots.len() {
            let (t, _) = self.vacate(i);
            drop(t);
        }
        if self.mode == Mode::Ledger {
            if let Some(b) = ledger_bad() {
                return Err(b);
            }
            if V::COUNTED {
                cm!(self, live_v() == 0, "{} value(s) still alive after every tree was dropped", live_v());
            }
            if K::NAME == "TK" {
                cm!(self, live_k() == 0, "{} key(s) still alive after every tree was dropped", live_k());
            }
        }
        if alloc::COUNTING && matches!(self.mode, Mode::Ledger | Mode::Blocks) {
            let b = alloc::blocks();
            cm!(self, b == 0, "{} heap block(s) still held after every tree was dropped", b);
        }
        Ok(())
    }
}

/// Up to `cap` items of a forward iterator; then, by `s`, maybe the last of the others by an adaptor.
fn pull<I: Iterator>(mut it: I, cap: usize, s: u64, see: impl Fn(I::Item) -> E) -> (Vec<E>, (usize, Option<(Option<E>, &'static str)>)) {
    let mut got = Vec::new();
    // What the size hints along the way say of the whole: at least and at most so many.
    let (mut least, mut most) = (0, usize::MAX);
    let stop = match s & 7 {
        0..=3 => cap,
        _ => cap.min((s >> 24) as usize % (cap + 1)),
    };
    while got.len() < stop {
        let (lo, hi) = it.size_hint();
        if lo > cap.max(1 << 40) || hi.map_or(false, |hi| hi < lo) {
            got.push((u32::MAX, lo as u32, 0));
            break;
        }
        least = least.max(got.len() + lo);
        most = most.min(hi.unwrap_or(usize::MAX).saturating_add(got.len()));
        match it.next() {
            Some(x) => got.push(see(x)),
            None => {
                if least > got.len() || most < got.len() {
                    // A hint excluded what came: shown as an entry that cannot be.
                    got.push((u32::MAX, least as u32, most as u64));
                }
                return (got, (stop, None));
            }
        }
    }
    match s & 7 {
        4 => {
            let l = it.last().map(&see);
            (got, (stop, Some((l, "last"))))
        }
        5 => {
            let l = it.fold(None, |_, x| Some(see(x)));
            (got, (stop, Some((l, "fold"))))
        }
        _ => (got, (stop, None)),
    }
}
pub fn union(a: &Model, b: &Model, right: bool) -> Model {
    let (mut w, l) = if right { (b.clone(), a) } else { (a.clone(), b) };
    for (k, v) in l {
        w.entry(*k).or_insert(*v);
    }
    w
}
pub fn diff(what: &str, got: &[E], want: &[E]) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: {} entries, expected {}; first difference at position {}: {:?}, expected {:?}",
        what,
        got.len(),
        want.len(),
        i,
        got.get(i),
        want.get(i)
    ))
}
fn brief(x: &[E]) -> String {
    if x.len() <= 8 {
        format!("{:?}", x)
    } else {
        format!("{:?}.. ({} entries)", &x[..6], x.len())
    }
}
fn cut(s: &str) -> String {
    if s.len() <= 160 {
        s.to_string()
    } else {
        format!("{}... ({} chars)", &s[..160], s.len())
    }
}
