//! C03: range queries.
use ptmon::cfg::*;
use ptmon::combo;
use ptmon::elem::*;
use ptmon::gens::*;
use ptmon::hist::{Code::*, *};
use ptmon::interp::*;
use ptmon::runner::*;

const SLOTS: usize = 1;
const OWN: &[Code] = &[Range, RangeMut];

fn gen(combos: &[Combo], seed: u64, big: u64) -> Case {
    let (combo, mut g) = start(combos, seed, big, SLOTS);
    g.seed_phase(0);
    for _ in 0..1 + g.r.below(6) {
        g.phase(0);
        for _ in 0..3 + g.r.below(20) {
            let c = if g.r.chance(3, 5) { Range } else { RangeMut };
            let s = range_step(&mut g, 0, c);
            g.raw(s);
        }
    }
    Case { combo, steps: g.out, x: 0 }
}
fn exec(combos: &[Combo], c: &Case) -> Out {
    (combos[c.combo].run)(&c.steps, Opt { combo: c.combo as u64, ..Opt::new(mask(OWN), Mode::Plain, SLOTS) })
}

fn main() {
    ptmon::runner::main(Spec {
        id: "C03",
        giant: 1300,
        combos: vec![
            combo!(PK, u64, Cfg<U4, U4, Unique>, 32, 1200),
            combo!(PK, u64, Cfg<U5, U5, Unique>, 12, 1500),
            combo!(PK, u64, Cfg<U4, U9, Shared>, 14, 1500),
            combo!(PK, u64, Cfg<U7, U4, SyncShared>, 14, 1500),
            combo!(String, Vec<u64>, Cfg<U15, U17, Unique>, 8, 1500),
            combo!(u32, (), Cfg<U16, U16, Unique>, 8, 3000),
            combo!(PK, u64, Tree64<Unique>, 12, 9000),
        ],
        gen,
        exec,
    });
}
