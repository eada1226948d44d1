//! C07: bulk loading.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 1;
const OWN: &[Code] = &[Load, FromMap, LoadCmp, LoadBad, Audit, Iter];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    for _ in 0..1 + g.r.below(4) {
        let n = if g.r.chance(2, 3) { g.edgy() } else { g.n };
        let stride = 1 + g.r.below(5);
        let c = if g.r.chance(3, 4) { Load } else { FromMap };
        let start = g.r.below(300) as u32;
        g.push(st(c, 0, start, n, stride));
        g.raw(st(Audit, 0, 0, 0, 0));
        let s = iter_step(&mut g, 0);
        g.raw(Step { c: Iter, ..s });
        if g.r.chance(1, 2) {
            g.phase(0);
        }
        let s = g.r.next();
        g.raw(st(LoadCmp, 0, 0, 0, s));
        // usable like any other tree
        for _ in 0..1 + g.r.below(3) {
            g.phase(0);
        }
        g.raw(st(Audit, 0, 0, 0, 0));
        if cfg!(debug_assertions) {
            let n = if g.r.chance(2, 3) { g.edgy() } else { g.n };
            for _ in 0..4 {
                let at = match g.r.below(3) {
                    0 => g.r.u32(),
                    1 => n.saturating_sub(2),
                    _ => (g.r.below(n as u64 / g.p.l as u64 + 1) as u32) * g.p.l + g.r.below(2) as u32,
                };
                let k = g.r.below(4);
                g.raw(st(LoadBad, 0, n, at, k));
            }
        }
    }
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) })
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C07",
        giant: 400,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 30, 1500),
            combo!(PK, u64, Cfg<U5, U5, Unique>, 12, 1500),
            combo!(PK, u64, Cfg<U4, U9, Shared>, 14, 1500),
            combo!(PK, u64, Cfg<U7, U4, SyncShared>, 14, 1500),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 8, 1500),
            combo!(u32, (), Cfg<U16, U16, Unique>, 8, 5000),
            combo!(PK, u64, Tree64<Unique>, 14, 14000),
        ],
        gen,
        exec,
    });
}
