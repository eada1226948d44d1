//! Element types with monitors in them, and the ledger they report to.
use crate::alloc::elem;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU8, Ordering::Relaxed};

pub trait Key: Ord + Clone + Debug + Hash + 'static {
    const NAME: &'static str;
    /// Equal keys can be told apart by their tag.
    const TAGGED: bool = false;
    fn mk(rank: u32, tag: u32) -> Self;
    fn rank(&self) -> u32;
    fn tag(&self) -> u32 {
        0
    }
}
pub trait Val: Clone + Ord + Debug + Hash + 'static {
    const NAME: &'static str;
    /// The payload can be read back (false for zero-sized values).
    const PAYLOAD: bool = true;
    /// Births and deaths are recorded in the ledger.
    const COUNTED: bool = false;
    fn mk(x: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, x: u64);
}

// ---------------------------------------------------------------- counters and fault plan

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Counts {
    pub cmp: u64,
    pub clone_k: u64,
    pub clone_v: u64,
    pub drop_k: u64,
    pub drop_v: u64,
}
impl std::ops::Sub for Counts {
    type Output = Counts;
    fn sub(self, o: Counts) -> Counts {
        Counts {
            cmp: self.cmp - o.cmp,
            clone_k: self.clone_k - o.clone_k,
            clone_v: self.clone_v - o.clone_v,
            drop_k: self.drop_k - o.drop_k,
            drop_v: self.drop_v - o.drop_v,
        }
    }
}
thread_local! {
    static COUNTS: Cell<Counts> = const { Cell::new(Counts { cmp: 0, clone_k: 0, clone_v: 0, drop_k: 0, drop_v: 0 }) };
    /// (mask of armed event kinds, events seen since arming, event number that panics)
    static PLAN: Cell<(u8, u64, u64)> = const { Cell::new((0, 0, u64::MAX)) };
}
pub const EV_CMP: u8 = 1;
pub const EV_CLONE_K: u8 = 2;
pub const EV_CLONE_V: u8 = 4;
pub const EV_DROP: u8 = 8;
pub const EV_NEXT: u8 = 16;

pub struct Injected(pub u8);

pub fn counts() -> Counts {
    COUNTS.with(|c| c.get())
}
/// Arm the fault plan: events whose kind is in `mask` are counted and number `at` (from 0) panics.
pub fn arm(mask: u8, at: u64) {
    PLAN.with(|p| p.set((mask, 0, at)))
}
/// Disarm and return the number of events seen.
pub fn disarm() -> u64 {
    PLAN.with(|p| {
        let (_, n, _) = p.get();
        p.set((0, 0, u64::MAX));
        n
    })
}
#[inline]
pub fn event(kind: u8) {
    let _ = COUNTS.try_with(|c| {
        let mut x = c.get();
        match kind {
            EV_CMP => x.cmp += 1,
            EV_CLONE_K => x.clone_k += 1,
            EV_CLONE_V => x.clone_v += 1,
            _ => {}
        }
        c.set(x);
    });
    let fire = PLAN
        .try_with(|p| {
            let (mask, n, at) = p.get();
            if mask & kind != 0 {
                p.set((mask, n + 1, at));
                n == at
            } else {
                false
            }
        })
        .unwrap_or(false);
    if fire && !std::thread::panicking() {
        // One fault per plan.
        PLAN.with(|p| {
            let (_, n, _) = p.get();
            p.set((0, n, u64::MAX))
        });
        std::panic::panic_any(Injected(kind));
    }
}
fn count_drop(is_key: bool) {
    let _ = COUNTS.try_with(|c| {
        let mut x = c.get();
        if is_key {
            x.drop_k += 1
        } else {
            x.drop_v += 1
        }
        c.set(x);
    });
}

// ---------------------------------------------------------------- ledger

#[cfg(miri)]
const N: usize = 1 << 15;
#[cfg(not(miri))]
const N: usize = 1 << 26;

// all zero: nothing was born yet
static STATE: [AtomicU8; N] = unsafe { std::mem::zeroed() };
static NEXT: AtomicU32 = AtomicU32::new(1);
static LIVE_K: AtomicI64 = AtomicI64::new(0);
static LIVE_V: AtomicI64 = AtomicI64::new(0);
static BAD: AtomicU32 = AtomicU32::new(0);
static BAD_KIND: AtomicU8 = AtomicU8::new(0);
const LIVE: u8 = 1;
const DEAD: u8 = 2;

pub fn ledger_reset() {
    let n = (NEXT.swap(1, Relaxed) as usize).min(N);
    for s in &STATE[..n] {
        s.store(0, Relaxed);
    }
    LIVE_K.store(0, Relaxed);
    LIVE_V.store(0, Relaxed);
    BAD.store(0, Relaxed);
}
pub fn live_k() -> i64 {
    LIVE_K.load(Relaxed)
}
pub fn live_v() -> i64 {
    LIVE_V.load(Relaxed)
}
pub fn ledger_created() -> u64 {
    NEXT.load(Relaxed) as u64 - 1
}
/// What went wrong first, if anything did.
pub fn ledger_bad() -> Option<String> {
    let n = BAD.load(Relaxed);
    if n == 0 {
        return None;
    }
    let what = match BAD_KIND.load(Relaxed) {
        1 => "an instance was dropped twice",
        2 => "an instance was used after it had been dropped",
        3 => "an instance was used that never existed (garbage or uninitialised memory)",
        5 => "a heap block was freed twice",
        7 => "a node was used as another type than it is",
        8 => "a node pointer was used after its release",
        6 => "more zero-sized values were dropped than ever existed",
        _ => "an instance has a corrupted payload",
    };
    Some(format!("{} ({} such event(s))", what, n))
}
pub fn bad(kind: u8) {
    if BAD.fetch_add(1, Relaxed) == 0 {
        BAD_KIND.store(kind, Relaxed);
        // a crash may follow before anybody asks
        crate::runner::journal_note(&ledger_bad().unwrap_or_default());
    }
}
fn born() -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    if (id as usize) < N {
        STATE[id as usize].store(LIVE, Relaxed);
    } else {
        eprintln!("ptmon: ledger full");
        std::process::exit(9);
    }
    id
}
const CANARY: u64 = 0x5A17_C0DE_0000_0000;

/// The part of an instrumented element that owns a heap cell and has an identity.
struct Inst {
    id: u32,
    heap: ManuallyDrop<Box<u64>>,
}
impl Inst {
    fn new() -> Inst {
        let id = born();
        Inst {
            id,
            heap: ManuallyDrop::new(elem(|| Box::new(CANARY | id as u64))),
        }
    }
    #[inline]
    fn check(&self) -> bool {
        let id = self.id as usize;
        if id == 0 || id >= N {
            bad(3);
            return false;
        }
        match STATE[id].load(Relaxed) {
            LIVE => {
                if **self.heap != CANARY | id as u64 {
                    bad(4);
                    return false;
                }
                true
            }
            DEAD => {
                bad(2);
                // Under a sanitizer, touch the payload so that the report names the place.
                #[cfg(any(miri, ptmon_san))]
                std::hint::black_box(**self.heap);
                false
            }
            _ => {
                bad(3);
                false
            }
        }
    }
    fn kill(&mut self) -> bool {
        let id = self.id as usize;
        if id == 0 || id >= N {
            bad(3);
            return false;
        }
        if STATE[id].load(Relaxed) == DEAD {
            bad(1);
            #[cfg(any(miri, ptmon_san))]
            std::hint::black_box(**self.heap);
            return false;
        }
        if !self.check() {
            return false;
        }
        STATE[id].store(DEAD, Relaxed);
        unsafe { ManuallyDrop::drop(&mut self.heap) };
        true
    }
}

/// Tracked key: ordered by rank only; tag tells equal keys apart.
pub struct TK {
    rank: u32,
    tag: u32,
    inst: Inst,
}
impl TK {
    fn use_(&self) {
        self.inst.check();
    }
}
impl Drop for TK {
    fn drop(&mut self) {
        if self.inst.kill() {
            LIVE_K.fetch_sub(1, Relaxed);
        }
        count_drop(true);
        event(EV_DROP);
    }
}
impl Clone for TK {
    fn clone(&self) -> TK {
        event(EV_CLONE_K);
        if self.tag == 0 {
            // a bound of a range: the caller's, not the tree's
            let _ = COUNTS.try_with(|c| {
                let mut x = c.get();
                x.clone_k -= 1;
                c.set(x);
            });
        }
        self.use_();
        LIVE_K.fetch_add(1, Relaxed);
        TK {
            rank: drift(self.rank),
            tag: self.tag,
            inst: Inst::new(),
        }
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &TK) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &TK) -> Option<Ordering> {
        if absent() {
            return None;
        }
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &TK) -> Ordering {
        event(EV_CMP);
        self.use_();
        o.use_();
        lawless(self.rank, o.rank).unwrap_or_else(|| self.rank.cmp(&o.rank))
    }
}
impl Hash for TK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.use_();
        self.rank.hash(h)
    }
}
impl Debug for TK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}.{}", self.rank, self.tag)
    }
}
impl Key for TK {
    const NAME: &'static str = "TK";
    const TAGGED: bool = true;
    fn mk(rank: u32, tag: u32) -> TK {
        LIVE_K.fetch_add(1, Relaxed);
        TK {
            rank,
            tag,
            inst: Inst::new(),
        }
    }
    fn rank(&self) -> u32 {
        self.use_();
        self.rank
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}

/// Tracked value.
pub struct TV {
    x: u64,
    inst: Inst,
}
impl TV {
    pub fn id(&self) -> u32 {
        self.inst.id
    }
}
impl Drop for TV {
    fn drop(&mut self) {
        if self.inst.kill() {
            LIVE_V.fetch_sub(1, Relaxed);
        }
        count_drop(false);
        event(EV_DROP);
    }
}
impl Clone for TV {
    fn clone(&self) -> TV {
        event(EV_CLONE_V);
        self.inst.check();
        LIVE_V.fetch_add(1, Relaxed);
        TV {
            x: self.x,
            inst: Inst::new(),
        }
    }
}
impl PartialEq for TV {
    fn eq(&self, o: &TV) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TV {}
impl PartialOrd for TV {
    fn partial_cmp(&self, o: &TV) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TV {
    fn cmp(&self, o: &TV) -> Ordering {
        self.inst.check();
        o.inst.check();
        self.x.cmp(&o.x)
    }
}
impl Hash for TV {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.inst.check();
        self.x.hash(h)
    }
}
impl Debug for TV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "V{}", self.x)
    }
}
impl Val for TV {
    const NAME: &'static str = "TV";
    const COUNTED: bool = true;
    fn mk(x: u64) -> TV {
        LIVE_V.fetch_add(1, Relaxed);
        TV {
            x,
            inst: Inst::new(),
        }
    }
    fn get(&self) -> u64 {
        self.inst.check();
        self.x
    }
    fn set(&mut self, x: u64) {
        self.inst.check();
        self.x = x
    }
}

// ---------------------------------------------------------------- inconsistent ordering

thread_local! {
    /// 0 lawful; otherwise (mode, state)
    static LAWLESS: Cell<(u8, u64)> = const { Cell::new((0, 0)) };
}
pub fn set_lawless(mode: u8, seed: u64) {
    LAWLESS.with(|l| l.set((mode, seed)))
}
#[inline]
fn lawless(a: u32, b: u32) -> Option<Ordering> {
    LAWLESS
        .try_with(|l| {
            let (mode, st) = l.get();
            if mode == 0 {
                return None;
            }
            let n = crate::rng::mix(st);
            let of = |x: u64| match x % 3 {
                0 => Ordering::Less,
                1 => Ordering::Greater,
                _ => Ordering::Equal,
            };
            let r = match mode {
                // random answer each time
                1 => Some(of(n >> 7)),
                // mostly right
                2 if n % 8 == 0 => Some(of(n >> 9)),
                2 => None,
                // not reflexive: never Equal
                3 => Some(if a <= b { Ordering::Less } else { Ordering::Greater }),
                4 => Some(if a < b { Ordering::Less } else { Ordering::Greater }),
                // intransitive: rock-paper-scissors on rank mod 3
                5 => Some(of(((a % 3) + 3 - (b % 3)) as u64 + 2)),
                // order flips now and then
                6 => {
                    if (st >> 6) % 2 == 0 {
                        Some(a.cmp(&b))
                    } else {
                        Some(b.cmp(&a))
                    }
                }
                // constant answers
                7 => Some(Ordering::Less),
                8 => Some(Ordering::Greater),
                9 => Some(Ordering::Equal),
                _ => None,
            };
            // modes 6 uses the state as a plain counter
            l.set((mode, if mode == 6 { st + 1 } else { n }));
            r
        })
        .unwrap_or(None)
}

/// Mode 11: partial_cmp has no answer, now and then.
#[inline]
fn absent() -> bool {
    LAWLESS
        .try_with(|l| match l.get() {
            (11, st) => {
                let n = crate::rng::mix(st);
                l.set((11, n));
                n % 4 == 0
            }
            _ => false,
        })
        .unwrap_or(false)
}
/// Mode 12: clones of a key are other keys, now and then.
#[inline]
fn drift(rank: u32) -> u32 {
    LAWLESS
        .try_with(|l| match l.get() {
            (12, st) => {
                let n = crate::rng::mix(st);
                l.set((12, n));
                match n % 6 {
                    0 => rank.wrapping_add((n >> 8) as u32 % 7),
                    1 => rank.saturating_sub((n >> 8) as u32 % 7),
                    2 => (n >> 8) as u32 % 2000,
                    _ => rank,
                }
            }
            _ => rank,
        })
        .unwrap_or(rank)
}

// ---------------------------------------------------------------- plain elements

/// Copyable key: ordered by rank, tag tells equal keys apart.
#[derive(Clone, Copy)]
pub struct PK {
    rank: u32,
    tag: u32,
}
impl PartialEq for PK {
    fn eq(&self, o: &PK) -> bool {
        self.rank == o.rank
    }
}
impl Eq for PK {}
impl PartialOrd for PK {
    fn partial_cmp(&self, o: &PK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for PK {
    fn cmp(&self, o: &PK) -> Ordering {
        self.rank.cmp(&o.rank)
    }
}
impl Hash for PK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.rank.hash(h)
    }
}
impl Debug for PK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}.{}", self.rank, self.tag)
    }
}
impl Key for PK {
    const NAME: &'static str = "PK";
    const TAGGED: bool = true;
    fn mk(rank: u32, tag: u32) -> PK {
        PK { rank, tag }
    }
    fn rank(&self) -> u32 {
        self.rank
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}
impl Val for u64 {
    const NAME: &'static str = "u64";
    fn mk(x: u64) -> u64 {
        x
    }
    fn get(&self) -> u64 {
        *self
    }
    fn set(&mut self, x: u64) {
        *self = x
    }
}
impl Key for u32 {
    const NAME: &'static str = "u32";
    fn mk(rank: u32, _: u32) -> u32 {
        rank
    }
    fn rank(&self) -> u32 {
        *self
    }
}
/// A value without any data whose births and deaths still count (a token, a guard).
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct ZV;
impl Drop for ZV {
    fn drop(&mut self) {
        if LIVE_V.fetch_sub(1, Relaxed) <= 0 {
            bad(6);
        }
        count_drop(false);
        event(EV_DROP);
    }
}
impl Clone for ZV {
    fn clone(&self) -> ZV {
        event(EV_CLONE_V);
        LIVE_V.fetch_add(1, Relaxed);
        ZV
    }
}
impl Val for ZV {
    const NAME: &'static str = "ZV";
    const PAYLOAD: bool = false;
    const COUNTED: bool = true;
    fn mk(_: u64) -> ZV {
        LIVE_V.fetch_add(1, Relaxed);
        ZV
    }
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}

impl Val for () {
    const NAME: &'static str = "unit";
    const PAYLOAD: bool = false;
    fn mk(_: u64) {}
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}

/// Heap-owning standard types, as users have them.
impl Key for String {
    const NAME: &'static str = "String";
    fn mk(rank: u32, _: u32) -> String {
        elem(|| format!("{:010}", rank))
    }
    fn rank(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
}
impl Val for Vec<u64> {
    const NAME: &'static str = "Vec<u64>";
    fn mk(x: u64) -> Vec<u64> {
        elem(|| vec![x; 1 + (x % 3) as usize])
    }
    fn get(&self) -> u64 {
        self.last().copied().unwrap_or(u64::MAX)
    }
    fn set(&mut self, x: u64) {
        elem(|| {
            self.push(x);
            if self.len() > 4 {
                self.remove(0);
            }
        })
    }
}

macro_rules! aligned {
    ($k:ident, $v:ident, $al:literal) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[repr(align($al))]
        pub struct $k(u32);
        impl Key for $k {
            const NAME: &'static str = stringify!($k);
            fn mk(rank: u32, _: u32) -> $k {
                $k(rank)
            }
            fn rank(&self) -> u32 {
                assert!(self as *const _ as usize % $al == 0, "MISALIGNED");
                self.0
            }
        }
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        #[repr(align($al))]
        pub struct $v(u64, u64);
        impl Val for $v {
            const NAME: &'static str = stringify!($v);
            fn mk(x: u64) -> $v {
                $v(x, !x)
            }
            fn get(&self) -> u64 {
                assert!(self as *const _ as usize % $al == 0, "MISALIGNED");
                if self.1 == !self.0 {
                    self.0
                } else {
                    u64::MAX
                }
            }
            fn set(&mut self, x: u64) {
                *self = $v(x, !x)
            }
        }
    };
}
aligned!(K32A, V32A, 32);
aligned!(K64A, V64A, 64);
aligned!(K128A, V128A, 128);

/// Plain key that counts its comparisons.
#[derive(Clone, Copy, Debug, Hash)]
pub struct CK(u32);
impl PartialEq for CK {
    fn eq(&self, o: &CK) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &CK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    #[inline]
    fn cmp(&self, o: &CK) -> Ordering {
        event(EV_CMP);
        self.0.cmp(&o.0)
    }
}
impl Key for CK {
    const NAME: &'static str = "CK";
    fn mk(rank: u32, _: u32) -> CK {
        CK(rank)
    }
    fn rank(&self) -> u32 {
        self.0
    }
}

/// Large value.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Big([u64; 24]);
impl Val for Big {
    const NAME: &'static str = "Big";
    fn mk(x: u64) -> Big {
        Big([x; 24])
    }
    fn get(&self) -> u64 {
        if self.0.iter().all(|y| *y == self.0[0]) {
            self.0[0]
        } else {
            u64::MAX
        }
    }
    fn set(&mut self, x: u64) {
        self.0 = [x; 24]
    }
}
impl Key for u8 {
    const NAME: &'static str = "u8";
    fn mk(rank: u32, _: u32) -> u8 {
        rank as u8
    }
    fn rank(&self) -> u32 {
        *self as u32
    }
}
