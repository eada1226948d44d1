//! C13: panics in user code, at every callback of an operation.
use ptmon::cfg::*;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::rng::{hash2, Rng};
use ptmon::runner::*;
use palmtree::TreeConfig;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MASKS: [u8; 6] = [EV_CMP, EV_CLONE_K, EV_CLONE_V, EV_DROP, EV_NEXT, 31];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, 3);
    g.n = g.n.min(if cfg!(miri) { 12 } else { 90 });
    g.rec = g.r.chance(1, 3);
    history(&mut g, 0, 2);
    match g.r.below(4) {
        0 => clone_to(&mut g, 0, 1),
        1 => {
            clone_to(&mut g, 0, 1);
            g.phase(1);
        }
        2 => history(&mut g, 1, 2),
        _ => {}
    }
    if g.r.chance(1, 3) {
        clone_to(&mut g, 0, 2);
    }
    // the operation under fault
    let h = g.r.below(2) as u8;
    let k = g.key(h);
    let n = g.r.logsize(40);
    let s = g.r.next();
    let stride = 1 + g.r.below(3);
    let t = match g.r.weighted(&[16, 10, 6, 4, 4, 4, 3, 3, 10, 6, 8, 3, 6, 4, 4, 3, 2, 3, 3]) {
        0 => st(Insert, h, k, *g.r.pick(&[0, 0, 0, 1, 2, 3, 4]), 0),
        1 => st(Remove, h, k, g.r.below(3) as u32, 0),
        2 => st(PopOne, h, g.r.below(2) as u32, 0, 0),
        3 => st(Load, h, k.min(1 << 20), n, stride),
        4 => st(if g.r.chance(1, 2) { Collect } else { Extend }, h, k.min(1 << 20), n, stride | g.r.next() << 32),
        5 => st(FromMap, h, k.min(1 << 20), n, stride),
        6 => st(Append, h, k.min(1 << 20), n, stride | g.r.below(2) << 16),
        7 => st(Reclone, h, 0, 0, 0),
        8 => write_step(&mut g, h),
        9 => consume_step(&mut g, h),
        10 => st(Merge, h, g.r.below(3) as u32, g.r.below(6) as u32, g.r.below(2)),
        11 => { let o = g.r.below(3) as u8; merge_iter(&mut g, h, o) },
        12 => range_step(&mut g, h, RangeMut),
        13 => range_step(&mut g, h, Range),
        14 => iter_step(&mut g, h),
        15 => st(DropH, h, 0, 0, 0),
        16 => st(Lookup, h, k, 0, 0),
        17 => {
            // several operations in a row: the fault lands in any of them
            let via = g.ins_via();
            st(Fill, h, k, 1 + n % 12, pack(*g.r.pick(&[1, 1, -1, 2]), via))
        }
        _ => st(Mix, h, k, 12, (1 + s % 12) | 128 << 16 | 255 << 24 | s << 32),
    };
    g.raw(t);
    let mask = MASKS[g.r.weighted(&[4, 3, 3, 4, 1, 2])] as u64;
    Case { combo, steps: g.out, x: mask | (s & 0xffff) << 8 }
}

fn build<K: Key, V: Val, C: TreeConfig<K, V> + Conf>(steps: &[Step]) -> Result<World<K, V, C>, Fail> {
    ledger_reset();
    disarm();
    let mut w = World::<K, V, C>::new(3, 0, Mode::Plain, None);
    w.free = true;
    for (i, s) in steps.iter().enumerate() {
        journal(i, false, s.c.name());
        let r = catch_unwind(AssertUnwindSafe(|| w.step(s)));
        let bad = ledger_bad();
        if r.is_err() || bad.is_some() {
            std::mem::forget(w);
            return Err(Fail { step: i, msg: format!("{}: {}", s.text(), bad.unwrap_or_else(last_panic)) });
        }
    }
    Ok(w)
}
fn ledger(step: usize, what: &str, k: u64) -> Result<(), Fail> {
    match ledger_bad() {
        Some(b) => Err(Fail { step, msg: format!("{} after callback {} panicked: {}", what, k, b) }),
        None => Ok(()),
    }
}

fn run<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(steps: &[Step], o: Opt) -> Out {
    let mut out = Out::default();
    set_free(true);
    let last = steps.len() - 1;
    let target = steps[last];
    let mask = o.lawless;
    let mut w = match build::<K, V, C>(&steps[..last]) {
        Ok(w) => w,
        Err(f) => {
            out.foreign = Some(f);
            return out;
        }
    };
    // without a fault: how many callbacks are there?
    journal(last, false, "dry run");
    arm(mask, u64::MAX);
    let r = catch_unwind(AssertUnwindSafe(|| w.step(&target)));
    let n = disarm();
    let sane = r.is_ok() || last_panic().contains("PalmTreeIter: ");
    if !sane || ledger_bad().is_some() {
        out.foreign = Some(Fail { step: last, msg: format!("{} (no fault): {}", target.text(), ledger_bad().unwrap_or_else(last_panic)) });
        std::mem::forget(w);
        return out;
    }
    let r = catch_unwind(AssertUnwindSafe(|| drop(w)));
    if r.is_err() || ledger_bad().is_some() {
        out.foreign = Some(Fail { step: last, msg: "dropping (no fault)".into() });
        return out;
    }
    let cap = if cfg!(miri) { 6 } else { 48 };
    let mut r = Rng::new(o.lawless_seed);
    let points: Vec<u64> = if n <= cap { (0..n).collect() } else { (0..cap).map(|i| i * n / cap + r.below(n / cap)).collect() };
    for k in points {
        let res = one::<K, V, C>(steps, mask, k, &mut out.stats, o.combo);
        if let Err(f) = res {
            out.fail = Some(f);
            break;
        }
    }
    disarm();
    set_free(false);
    out
}

fn one<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(steps: &[Step], mask: u8, k: u64, stats: &mut Stats, combo: u64) -> Result<(), Fail> {
    let last = steps.len() - 1;
    let target = steps[last];
    let mut w = match build::<K, V, C>(&steps[..last]) {
        Ok(w) => ManuallyDrop::new(w),
        Err(_) => return Ok(()),
    };
    let snaps: Vec<Vec<E>> = (0..3).map(|i| w.shown(i)).collect();
    let h = target.h as usize % 3;
    let oth = target.a as usize % 3;
    let touches = |i: usize| {
        i == h && target.c != ConsumeClone
            || i == oth && matches!(target.c, Merge | MergeIter | CloneTo | MoveTo)
    };
    journal(last, true, target.c.name());
    arm(mask, k);
    let r = catch_unwind(AssertUnwindSafe(|| w.step(&target)));
    disarm();
    stats.faults += 1;
    stats.micro += 1;
    *stats.own.entry(target.c.name()).or_default() += 1;
    let fired = match &r {
        Err(p) => p.downcast_ref::<Injected>().map(|i| i.0),
        _ => None,
    };
    stats.sig(hash2(combo, hash2(fired.unwrap_or(0) as u64, hash2(k, hash2(target.c as u64, snaps[h].iter().fold(snaps[h].len() as u64, |a, e| hash2(a, e.0 as u64)))))));
    stats.max_entries = stats.max_entries.max(snaps[h].len());
    ledger(last, &target.text(), k)?;
    // other handles keep their contents
    for i in 0..3 {
        if touches(i) {
            continue;
        }
        let now = w.shown(i);
        if now != snaps[i] || w.slots[i].tree.len() != snaps[i].len() {
            return Err(Fail {
                step: last,
                msg: format!("{} panicked at callback {}; handle {} had {} entries {:?} and now shows {} {:?}", target.text(), k, i, snaps[i].len(), snaps[i].iter().take(6).collect::<Vec<_>>(), now.len(), now.iter().take(6).collect::<Vec<_>>()),
            });
        }
    }
    // the affected tree can be used ...
    let mut r = Rng::new(hash2(k, steps.len() as u64));
    let top = snaps[h].last().map_or(50, |e| e.0 + 5);
    for u in 0..14 {
        let i = if u % 3 == 2 { oth } else { h };
        let key = if r.chance(1, 2) && !snaps[h].is_empty() { snaps[h][r.below(snaps[h].len() as u64) as usize].0 } else { r.below(top as u64 + 1) as u32 };
        let kind = if u < 3 { u } else { r.below(12) };
        let s = match kind {
            0 => st(Iter, i as u8, 3, 0, r.next() << 3),
            1 => st(IterMutRead, i as u8, 3, 0, r.next() << 3),
            2 => st(Lookup, i as u8, key, 0, 0),
            3 => st(Insert, i as u8, key, r.below(5) as u32, 0),
            4 => st(Remove, i as u8, key, r.below(3) as u32, 0),
            5 => st(PopOne, i as u8, r.below(2) as u32, 0, 0),
            6 => st(Range, i as u8, key.min(10), key, r.below(4) | r.below(3) << 2),
            7 => st(RangeMut, i as u8, key.min(10), key, r.below(4) | r.below(3) << 2),
            8 => st(WIterMut, i as u8, key, 0, r.next()),
            9 => st(Fill, i as u8, key, 8, pack(1, 0)),
            10 => st(ConsumeClone, i as u8, u32::MAX, 0, 2),
            _ => st(Drain, i as u8, 0, MAXKEY, r.below(3)),
        };
        journal(last, true, &format!("use {}", s.c.name()));
        // the world's model is only a source of keys from here on
        let shown = catch_unwind(AssertUnwindSafe(|| w.shown(i))).unwrap_or_default();
        w.slots[i].model = shown.into_iter().map(|e| (e.0, (e.1, e.2))).collect();
        match catch_unwind(AssertUnwindSafe(|| w.step(&s))) {
            Ok(Err(e)) => return Err(Fail { step: last, msg: format!("{} panicked at callback {}; then {}: {}", target.text(), k, s.text(), e) }),
            Err(_) if is_memory_panic(&last_panic()) => {
                return Err(Fail { step: last, msg: format!("{} panicked at callback {}; then {}: {}", target.text(), k, s.text(), last_panic()) })
            }
            _ => {}
        }
        ledger(last, &format!("{}, then {}", target.text(), s.text()), k)?;
    }
    // ... and dropped
    journal(last, true, "drop");
    let _ = catch_unwind(AssertUnwindSafe(|| ManuallyDrop::into_inner(w)));
    ledger(last, &format!("{}, then dropping everything", target.text()), k)
}

fn exec(combos: &[Combo], c: &Case) -> Out {
    if c.steps.is_empty() {
        return Out::default();
    }
    let o = Opt { combo: c.combo as u64, lawless: c.x as u8, lawless_seed: c.x >> 8, ..Opt::memory(3) };
    (combos[c.combo].run)(&c.steps, o)
}
macro_rules! fcombo {
    ($k:ty, $v:ty, $c:ty, $w:expr, $n:expr) => {
        mk_combo::<$k, $v, $c>($w, $n, false, run::<$k, $v, $c>)
    };
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C13",
        giant: 0,
        combos: vec![
            fcombo!(TK, TV, Cfg<U4, U4, Unique>, 30, 90),
            fcombo!(TK, TV, Cfg<U4, U4, Shared>, 20, 90),
            fcombo!(TK, TV, Cfg<U5, U5, Unique>, 14, 90),
            fcombo!(TK, TV, Cfg<U7, U4, SyncShared>, 14, 90),
            fcombo!(TK, TV, Cfg<U4, U9, Shared>, 10, 90),
            fcombo!(TK, TV, Tree64<Unique>, 12, 400),
            fcombo!(TK, ZV, Cfg<U4, U4, Shared>, 10, 90),
            fcombo!(TK, TV, Cfg<U5, U4, Typed>, 8, 90),
        ],
        gen,
        exec,
    });
}
