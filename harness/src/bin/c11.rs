//! C11: thread-safe shared trees across threads.
use palmtree::{PalmTree, TreeConfig};
use ptmon::cfg::*;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::rng::{hash2, Rng};
use ptmon::runner::*;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Barrier;

/// Handle 0 is built first; steps of handles 1..=WORKERS are the programs of the worker threads,
/// each of which starts from its own clone of handle 0.
const WORKERS: usize = 3;

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, WORKERS + 1);
    g.n = g.n.min(if cfg!(miri) {
        14
    } else if cfg!(ptmon_san) {
        150
    } else {
        600
    });
    history(&mut g, 0, 1);
    for t in 1..=WORKERS as u8 {
        g.sims[t as usize] = g.sims[0].clone();
        let n = if cfg!(miri) { 2 } else { 1 + g.r.below(8) };
        for _ in 0..n {
            match g.r.weighted(&[4, 5, 3, 3, 3, 2, 1]) {
                0 => g.phase(t),
                1 => {
                    for _ in 0..4 {
                        let s = point_step(&mut g, t);
                        g.push(s);
                    }
                }
                2 => {
                    let c = if g.r.chance(1, 2) { Range } else { RangeMut };
                    let s = range_step(&mut g, t, c);
                    g.raw(s);
                }
                3 => {
                    let s = write_step(&mut g, t);
                    g.push(s);
                }
                4 => {
                    let s = iter_step(&mut g, t);
                    g.raw(s);
                }
                5 => {
                    let s = consume_step(&mut g, t);
                    g.raw(Step { c: ConsumeClone, ..s });
                }
                _ => g.push(st(Reclone, t, 0, 0, 0)),
            }
        }
    }
    let x = g.r.next();
    Case { combo, steps: g.out, x }
}

struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

fn wait(r: &mut Rng) {
    match r.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

type Tree<K, V, C> = PalmTree<K, V, C>;
/// A worker's program on its own clone.
fn worker<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(
    t: usize,
    tree: Tree<K, V, C>,
    model: Model,
    steps: &[(usize, Step)],
    x: u64,
    ops: &AtomicU64,
) -> Result<(), Fail> {
    let mut w = World::<K, V, C>::new(2, ALL, Mode::Plain, None);
    w.seq = (t as u32) << 24;
    w.slots[0].tree = tree;
    w.slots[0].model = model;
    let mut r = Rng::new(hash2(x, t as u64));
    for (i, s) in steps {
        let s = Step { h: 0, ..*s };
        match catch_unwind(AssertUnwindSafe(|| w.step(&s))) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return Err(Fail { step: *i, msg: format!("thread {}: {}: {}", t, s.text(), m) }),
            Err(_) => {
                let m = last_panic();
                std::mem::forget(w);
                return Err(Fail { step: *i, msg: format!("thread {}: {}: panicked: {}", t, s.text(), m) });
            }
        }
        wait(&mut r);
    }
    ops.fetch_add(w.stats.micro + w.stats.items, Relaxed);
    // dropped here, on this thread
    Ok(())
}
/// Reads through a reference shared with the other threads.
fn reader<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(tree: &Tree<K, V, C>, all: &[E], x: u64, stop: &AtomicBool, ops: &AtomicU64) -> Result<(), String> {
    let mut r = Rng::new(x);
    let see = |k: &K, v: &V| (k.rank(), k.tag(), v.get());
    let mut n = 0;
    while n < 3 || !stop.load(Relaxed) {
        n += 1;
        if cfg!(miri) && n > 3 || n > 2000 {
            break;
        }
        let k = if all.is_empty() { 7 } else { all[r.below(all.len() as u64) as usize].0 + r.below(2) as u32 };
        let want = all.binary_search_by_key(&k, |e| e.0).ok().map(|i| all[i]);
        match r.below(5) {
            0 | 1 => {
                let got = tree.get(&K::mk(k, 0)).map(|v| v.get());
                if got != want.map(|e| e.2) {
                    return Err(format!("a shared reference answers get({}) with {:?}, expected {:?}", k, got, want));
                }
            }
            2 => {
                let got: Vec<E> = tree.iter().take(all.len() + 2).map(|(k, v)| see(k, v)).collect();
                if got != all {
                    return Err(format!("iterating a shared reference shows {} entries, expected {}", got.len(), all.len()));
                }
            }
            3 => {
                let got: Vec<E> = tree.range((Bound::Included(K::mk(k, 0)), Bound::Unbounded)).take(9).map(|(k, v)| see(k, v)).collect();
                let i = all.partition_point(|e| e.0 < k);
                if got != all[i..(i + 9).min(all.len())] {
                    return Err(format!("a range from {} through a shared reference is {:?}", k, got));
                }
            }
            _ => {
                // clone through the shared reference, change the clone, drop it
                let mut c = tree.clone();
                let l = c.len();
                if l != all.len() {
                    return Err(format!("a clone of a shared reference has {} entries, expected {}", l, all.len()));
                }
                if r.chance(1, 2) {
                    c.insert(K::mk(k, 9), V::mk(1));
                } else {
                    c.remove_lowest();
                }
            }
        }
        ops.fetch_add(1, Relaxed);
        wait(&mut r);
    }
    Ok(())
}

/// Every handle has been dropped.
fn gone(step: usize) -> Option<Fail> {
    if let Some(b) = ledger_bad() {
        Some(Fail { step, msg: b })
    } else if live_v() != 0 || live_k() != 0 {
        Some(Fail { step, msg: format!("{} value(s) and {} key(s) are alive after every handle was dropped", live_v(), live_k()) })
    } else {
        None
    }
}
/// The threads run their programs in turns, in a drawn order which they learn from a relaxed counter: nothing
/// but the tree itself orders their accesses. Whoever is left with the last handle changes the nodes in place
/// which the others have read.
fn turns<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(
    tree: Tree<K, V, C>,
    model: &Model,
    progs: &[Vec<(usize, Step)>],
    x: u64,
    threads: bool,
    ops: &AtomicU64,
) -> Result<(), Fail> {
    let mut r = Rng::new(hash2(x, 55));
    let mut left: Vec<usize> = progs.iter().map(|p| p.len() + 1).collect();
    let mut order = Vec::new();
    while left.iter().any(|n| *n > 0) {
        let t = r.below(left.len() as u64) as usize;
        // several turns at once, so that some threads end early
        for _ in 0..1 + r.below(4) {
            if left[t] > 0 {
                left[t] -= 1;
                order.push(t);
            }
        }
    }
    // the thread's program, stopped at each turn
    let run = |t: usize, tree: Tree<K, V, C>, turn: &dyn Fn() -> bool, next: &dyn Fn(bool)| -> Result<(), Fail> {
        let mut w = World::<K, V, C>::new(2, ALL, Mode::Plain, None);
        w.seq = (t as u32 + 1) << 24;
        w.slots[0].tree = tree;
        w.slots[0].model = model.clone();
        for (i, s) in &progs[t] {
            let s = Step { h: 0, ..*s };
            if !turn() {
                return Ok(());
            }
            let f = match catch_unwind(AssertUnwindSafe(|| w.step(&s))) {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(Fail { step: *i, msg: format!("thread {}: {}: {}", t + 1, s.text(), m) }),
                Err(_) => Some(Fail { step: *i, msg: format!("thread {}: {}: panicked: {}", t + 1, s.text(), last_panic()) }),
            };
            if let Some(f) = f {
                std::mem::forget(w);
                next(false);
                return Err(f);
            }
            next(true);
        }
        if turn() {
            ops.fetch_add(w.stats.micro + w.stats.items, Relaxed);
            drop(w);
            next(true);
        }
        Ok(())
    };
    let mut handles: Vec<Option<Tree<K, V, C>>> = (1..progs.len()).map(|_| Some(tree.clone())).collect();
    handles.push(Some(tree));
    if !threads {
        let mut first = Ok(());
        for t in 0..progs.len() {
            let r = run(t, handles[t].take().unwrap(), &|| true, &|_| {});
            first = first.and(r);
        }
        return first;
    }
    let at = AtomicUsize::new(0);
    let (at, order, run) = (&at, &order, Cross(&run));
    let run = &run;
    std::thread::scope(|sc| {
        let hs: Vec<_> = handles
            .iter_mut()
            .enumerate()
            .map(|(t, h)| {
                let c = Cross(h.take().unwrap());
                sc.spawn(move || {
                    let mine = c.get();
                    let turn = || loop {
                        match order.get(at.load(Relaxed)) {
                            Some(i) if *i == t => return true,
                            Some(_) => std::thread::yield_now(),
                            None => return false,
                        }
                    };
                    let next = |fine: bool| at.store(if fine { at.load(Relaxed) + 1 } else { usize::MAX }, Relaxed);
                    (run.0)(t, mine, &turn, &next)
                })
            })
            .collect();
        let mut first = Ok(());
        for h in hs {
            first = first.and(h.join().unwrap_or_else(|_| Err(Fail { step: 0, msg: "a thread died".into() })));
        }
        first
    })
}

/// One execution; with `threads` false the same programs one after another.
fn once<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(steps: &[Step], x: u64, threads: bool, ops: &AtomicU64) -> Result<(), (bool, Fail)> {
    ledger_reset();
    let mut w = World::<K, V, C>::new(1, 0, Mode::Plain, None);
    for (i, s) in steps.iter().enumerate() {
        if s.h == 0 {
            journal(i, false, s.c.name());
            match catch_unwind(AssertUnwindSafe(|| w.step(s))) {
                Ok(Ok(())) => {}
                _ => {
                    std::mem::forget(w);
                    return Err((false, Fail { step: i, msg: format!("building: {}", s.text()) }));
                }
            }
        }
    }
    journal(steps.len(), true, if threads { "threads" } else { "one after another" });
    let all = w.shown(0);
    if all != w.entries(0) {
        return Err((false, Fail { step: 0, msg: "building".into() }));
    }
    let model = w.slots[0].model.clone();
    let tree = std::mem::take(&mut w.slots[0].tree);
    let progs: Vec<Vec<(usize, Step)>> = (1..=WORKERS).map(|t| steps.iter().copied().enumerate().filter(|(_, s)| s.h as usize == t).collect()).collect();
    let mut first: Option<Fail> = None;
    if x % 5 < 2 {
        first = turns::<K, V, C>(tree, &model, &progs, x, threads, ops).err();
        w.slots[0].model.clear();
        if let Some(f) = first {
            std::mem::forget(w);
            return Err((true, f));
        }
        drop(w);
        return match gone(steps.len()) {
            Some(f) => Err((true, f)),
            None => Ok(()),
        };
    }
    if threads {
        let stop = AtomicBool::new(false);
        let readers = if cfg!(miri) { 1 } else { 2 };
        let bar = Barrier::new(WORKERS + readers);
        // how the handle is passed on: a clone for each, made here or by the thread itself
        let lazy = x & 1 == 1;
        let shared = Cross(&tree);
        let sh = &shared;
        let (m, a, st, b) = (&model, &all[..], &stop, &bar);
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for t in 1..=WORKERS {
                let clone = if lazy { None } else { Some(tree.clone()) };
                let c = Cross(clone);
                let p = &progs[t - 1];
                hs.push(sc.spawn(move || {
                    let c = c.get();
                    b.wait();
                    let mine = c.unwrap_or_else(|| sh.0.clone());
                    worker::<K, V, C>(t, mine, m.clone(), p, x, ops)
                }));
            }
            let mut rs = Vec::new();
            for i in 0..readers {
                rs.push(sc.spawn(move || {
                    b.wait();
                    match catch_unwind(AssertUnwindSafe(|| reader::<K, V, C>(sh.0, a, hash2(x, 100 + i as u64), st, ops))) {
                        Ok(r) => r,
                        Err(_) => Err(format!("reader panicked: {}", last_panic())),
                    }
                }));
            }
            for h in hs {
                match h.join() {
                    Ok(Err(f)) => first = first.take().or(Some(f)),
                    Err(_) => first = first.take().or(Some(Fail { step: 0, msg: "a thread died".into() })),
                    _ => {}
                }
            }
            stop.store(true, Relaxed);
            for h in rs {
                if let Ok(Err(m)) = h.join() {
                    first = first.take().or(Some(Fail { step: steps.len(), msg: m }));
                }
            }
        });
    } else {
        for t in 1..=WORKERS {
            if let Err(f) = worker::<K, V, C>(t, tree.clone(), model.clone(), &progs[t - 1], x, ops) {
                first = first.take().or(Some(f));
            }
        }
    }
    if first.is_none() {
        w.slots[0].tree = tree;
        if w.shown(0) != all {
            first = Some(Fail { step: steps.len(), msg: "the handle the clones were taken from has changed".into() });
        }
    } else {
        std::mem::forget(tree);
    }
    if first.is_none() {
        drop(w);
        first = gone(steps.len());
    } else {
        std::mem::forget(w);
    }
    match first {
        Some(f) => Err((true, f)),
        None => Ok(()),
    }
}

fn run<K: Key, V: Val, C: TreeConfig<K, V> + Conf + 'static>(steps: &[Step], o: Opt) -> Out {
    let mut out = Out::default();
    let ops = AtomicU64::new(0);
    if std::env::var_os("PTMON_SEQ").is_some() {
        let _ = once::<K, V, C>(steps, o.lawless_seed, false, &ops);
        return out;
    }
    // concurrent first: nothing has warmed up the race away
    let r = once::<K, V, C>(steps, o.lawless_seed, true, &ops);
    out.stats.micro = ops.load(Relaxed);
    out.stats.items = WORKERS as u64 + 2;
    *out.stats.own.entry("concurrent executions").or_default() += 1;
    out.stats.sig(hash2(o.combo, hash2(o.lawless_seed, steps.len() as u64)));
    match r {
        Ok(()) => {}
        Err((false, f)) => out.foreign = Some(f),
        Err((true, f)) => {
            // wrong even without any concurrency: another property's business
            match catch_unwind(AssertUnwindSafe(|| once::<K, V, C>(steps, o.lawless_seed, false, &ops))) {
                Ok(Ok(())) => out.fail = Some(f),
                _ => out.foreign = Some(Fail { step: f.step, msg: format!("also when run one after another: {}", f.msg) }),
            }
        }
    }
    out
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, lawless_seed: c.x, ..Opt::memory(1) })
}
macro_rules! tcombo {
    ($k:ty, $v:ty, $c:ty, $w:expr, $n:expr) => {
        mk_combo::<$k, $v, $c>($w, $n, false, run::<$k, $v, $c>)
    };
}
fn main() {
    ptmon::runner::main(Spec {
        id: "C11",
        giant: 0,
        combos: vec![
            tcombo!(TK, TV, Cfg<U4, U4, SyncShared>, 30, 600),
            tcombo!(TK, TV, Cfg<U5, U5, SyncShared>, 14, 600),
            tcombo!(String, Vec<u64>, Cfg<U4, U9, SyncShared>, 14, 600),
            tcombo!(TK, TV, Tree64<SyncShared>, 14, 1500),
        ],
        gen,
        exec,
    });
}
