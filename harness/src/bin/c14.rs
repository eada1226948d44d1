//! C14: equality, ordering, hashing and formatting depend only on contents.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::rng::Rng;
use ptmon::runner::*;
use palmtree::{PalmTree, TreeConfig};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SLOTS: usize = 3;
const OWN: &[Code] = &[Compare, DebugIter];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    history(&mut g, 0, 3);
    for _ in 0..2 + g.r.below(6) {
        match g.r.weighted(&[4, 3, 2, 2]) {
            0 => {
                // nearly equal: a copy, one difference
                let (a, b) = *g.r.pick(&[(0u8, 1u8), (1, 2), (0, 2)]);
                clone_to(&mut g, a, b);
                g.raw(st(Compare, a, b as u32, 0, 0));
                let k = g.key(b);
                let s = g.r.next();
                match g.r.below(6) {
                    0 => g.push(st(Insert, b, k, 0, 0)),
                    1 => g.push(st(Remove, b, k, 0, 0)),
                    2 => g.push(st(WGetMut, b, k, 0, s)),
                    3 => g.push(st(PopOne, b, g.r.clone().below(2) as u32, 0, 0)),
                    4 => {
                        // there and back again
                        g.push(st(Insert, b, k, 0, 0));
                        g.push(st(Remove, b, k, 0, 0));
                    }
                    _ => g.phase(b),
                }
                g.raw(st(Compare, a, b as u32, 0, 0));
                g.raw(st(Compare, b, a as u32, 0, 0));
            }
            1 => {
                let h = g.r.below(3) as u8;
                g.phase(h)
            }
            2 => {
                let h = g.r.below(3) as u8;
                let o = g.r.below(3) as u32;
                g.raw(st(Compare, h, o, 0, 0))
            }
            _ => {}
        }
        let h = g.r.below(3) as u8;
        if g.sims[h as usize].keys.len() < 500 {
            let live = g.sims[h as usize].keys.len() as u32;
            let (a, b) = (g.r.logsize(live.max(1)), g.r.logsize(live.max(1)));
            let s = g.r.next();
            g.raw(st(DebugIter, h, a, b, s));
        }
    }
    let x = g.r.next() >> 8;
    Case { combo, steps: g.out, x }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    let mut out = (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) });
    if out.fail.is_none() && out.foreign.is_none() {
        let step = c.steps.len() - 1;
        journal(step, true, "Partial");
        let r = catch_unwind(AssertUnwindSafe(|| match c.x % 4 {
            0 => partial::<Cfg<U4, U4, Unique>>(c.x, &mut out.stats),
            1 => partial::<Cfg<U4, U9, Shared>>(c.x, &mut out.stats),
            2 => partial::<Cfg<U7, U4, SyncShared>>(c.x, &mut out.stats),
            _ => partial::<Tree64<Shared>>(c.x, &mut out.stats),
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => out.fail = Some(Fail { step, msg }),
            Err(_) => out.fail = Some(Fail { step, msg: format!("comparing trees of floats panicked: {}", last_panic()) }),
        }
    }
    out
}

/// Values that need not equal themselves: clones, rebuilt and altered trees against ordered maps.
fn partial<C: TreeConfig<u32, f64>>(x: u64, stats: &mut Stats) -> Result<(), String> {
    let mut r = Rng::new(x);
    let n = if r.chance(1, 5) { 200 } else { 24 };
    let n = r.below(n + 1) as u32;
    let odd = r.chance(2, 3);
    let value = |r: &mut Rng| *r.pick(&[0.0, -0.0, 1.0, 1.0, 2.0, f64::INFINITY, if odd { f64::NAN } else { 3.0 }]);
    let pairs: Vec<(u32, f64)> = (0..n).map(|k| (k * 2, value(&mut r))).collect();
    let a: PalmTree<u32, f64, C> = if r.chance(1, 2) { PalmTree::load(pairs.clone()) } else { pairs.iter().copied().collect() };
    let ma: BTreeMap<u32, f64> = pairs.iter().copied().collect();
    let (mut b, mut mb) = if r.chance(1, 2) { (a.clone(), ma.clone()) } else { (pairs.iter().rev().copied().collect(), ma.clone()) };
    for _ in 0..r.below(3) {
        let k = r.below(2 * n as u64 + 2) as u32;
        if r.chance(1, 2) {
            let v = value(&mut r);
            b.insert(k, v);
            mb.insert(k, v);
        } else {
            b.remove(&k);
            mb.remove(&k);
        }
    }
    #[allow(clippy::eq_op)]
    for (what, p, q, mp, mq) in [("two trees", &a, &b, &ma, &mb), ("two trees", &b, &a, &mb, &ma), ("a tree and itself", &a, &a, &ma, &ma)] {
        let got = (p == q, p != q, p.partial_cmp(q), p < q, p <= q, p > q, p >= q);
        let want = (mp == mq, mp != mq, mp.partial_cmp(mq), mp < mq, mp <= mq, mp > mq, mp >= mq);
        stats.items += (mp.len() + mq.len()) as u64;
        if got != want {
            return Err(format!("(==, !=, partial_cmp, <, <=, >, >=) of {} of floats is {:?}, expected {:?}: {:?} and {:?}", what, got, want, mp, mq));
        }
    }
    *stats.own.entry("Partial").or_default() += 3;
    Ok(())
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C14",
        giant: 2200,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 30, 600),
            combo!(PK, u64, Cfg<U5, U5, Shared>, 12, 600),
            combo!(TK, TV, Cfg<U4, U9, Shared>, 14, 500),
            combo!(PK, u64, Cfg<U7, U4, SyncShared>, 14, 600),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 10, 600),
            combo!(u32, (), Cfg<U16, U16, Unique>, 8, 800),
            combo!(PK, u64, Tree64<Unique>, 12, 1500),
        ],
        gen,
        exec,
    });
}
